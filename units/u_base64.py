"""C14: base 64 (utils/encode.cc): decoding the encoding gives the data back."""
from tr import Unit, F, Loop
PRE = r'''
function tabf int : int
axiom tabf_def : forall k:int [tabf k]. tabf k = if k < 26 then 65 + k else if k < 52 then 71 + k else if k < 62 then k - 4 else if k = 62 then 43 else 47
function ub (s : map int int) (i : int) : int = ED.mod s[i] 256
(* group k of the encoding e of the sl bytes s *)
predicate grp (e : map int int) (s : map int int) (sl k : int) =
  e[4*k] = tabf (ED.div (ub s (3*k)) 4) /\
  e[4*k+1] = tabf (ED.mod (ub s (3*k)) 4 * 16 + (if 3*k+1 < sl then ED.div (ub s (3*k+1)) 16 else 0)) /\
  e[4*k+2] = (if 3*k+1 < sl then tabf (ED.mod (ub s (3*k+1)) 16 * 4 + (if 3*k+2 < sl then ED.div (ub s (3*k+2)) 64 else 0)) else 61) /\
  e[4*k+3] = (if 3*k+2 < sl then tabf (ED.mod (ub s (3*k+2)) 64) else 61)
function groups (sl : int) : int = ED.div (sl + 2) 3
predicate b64 (e : map int int) (el : int) (s : map int int) (sl : int) = el = 4 * groups sl /\ forall k:int [e[4*k]]. 0 <= k < groups sl -> grp e s sl k
predicate filled (t : map int int) = forall k:int [t[tabf k]]. 0 <= k < 64 -> t[tabf k] = k
(* | of numbers without common bits: m is a power of 2 *)
val or_ax (x y m : int) : unit requires { m = 64 \/ m = 256 \/ m = 4096 \/ m = 65536 \/ m = 262144 } requires { x >= 0 /\ ED.mod x m = 0 /\ 0 <= y < m } ensures { bw_or x y = x + y }
let digits (x y z : int) : unit requires { 0 <= x < 256 /\ 0 <= y < 256 /\ 0 <= z < 256 }
  ensures { let b = x * 65536 + y * 256 + z in ED.div b 262144 = ED.div x 4 /\ ED.mod (ED.div b 4096) 64 = ED.mod x 4 * 16 + ED.div y 16 /\ ED.mod (ED.div b 64) 64 = ED.mod y 16 * 4 + ED.div z 64 /\ ED.mod b 64 = ED.mod z 64 }
= ()
let bytes (x y z : int) : unit requires { 0 <= x < 256 /\ 0 <= y < 256 /\ 0 <= z < 256 }
  ensures { let b = x * 65536 + y * 256 + z in ED.div (ED.mod (ED.div b 65536) 256 * 65536) 65536 = x /\ ED.div (ED.mod (ED.div b 256) 256 * 256) 256 = y /\ ED.mod b 256 = z /\ ED.mod (ED.div b 65536) 256 = x /\ ED.mod (ED.div b 256) 256 = y }
= assert { let b = x * 65536 + y * 256 + z in ED.div b 65536 = x /\ ED.div b 256 = x * 256 + y }
let encor (x y z : int) : unit requires { 0 <= x < 256 /\ 0 <= y < 256 /\ 0 <= z < 256 }
  ensures { bw_or (x * 65536) (y * 256) = x * 65536 + y * 256 /\ bw_or (x * 65536 + y * 256) z = x * 65536 + y * 256 + z }
= or_ax (x * 65536) (y * 256) 65536; or_ax (x * 65536 + y * 256) z 256
let decor (x y z : int) : unit requires { 0 <= x < 256 /\ 0 <= y < 256 /\ 0 <= z < 256 }
  ensures { bw_or (ED.div x 4 * 262144) ((ED.mod x 4 * 16 + ED.div y 16) * 4096) = x * 65536 + ED.div y 16 * 4096 }
  ensures { bw_or (x * 65536 + ED.div y 16 * 4096) ((ED.mod y 16 * 4 + ED.div z 64) * 64) = x * 65536 + y * 256 + ED.div z 64 * 64 }
  ensures { bw_or (x * 65536 + y * 256 + ED.div z 64 * 64) (ED.mod z 64) = x * 65536 + y * 256 + z }
= or_ax (ED.div x 4 * 262144) ((ED.mod x 4 * 16 + ED.div y 16) * 4096) 262144;
  or_ax (x * 65536 + ED.div y 16 * 4096) ((ED.mod y 16 * 4 + ED.div z 64) * 64) 4096;
  or_ax (x * 65536 + y * 256 + ED.div z 64 * 64) (ED.mod z 64) 64
'''
STATE = 'val gs : ref (map int int)\nval gl : ref int\n'
TAB = ('the decoding table is unset or right', '!g_tab[66] = 1 -> filled !g_tab')
UNITS = [Unit('base64', '/repo/utils/encode.cc', prelude=PRE, state=STATE, contracts=[
    F('base64enc', ['data'], req=['0 <= @data.len < 2147483648'], ens=[('encodes the data', 'b64 result.dat result.len @data.dat @data.len'), ('length', '0 <= result.len')],
      loops={0: Loop(['0 <= @i < 2147483650 /\\ ED.mod @i 3 = 0', '@i < @data.len + 3', '@enc.len = 4 * ED.div @i 3', ('groups so far', 'forall k:int [grp @enc.dat @data.dat @data.len k]. 0 <= k < ED.div @i 3 -> grp @enc.dat @data.dat @data.len k')], '@data.len + 3 - @i',
                     begin='''let b_enc = it (pure { @enc }) in let kk = it (pure { ED.div @i 3 }) in let q_enc = it (pure { 4 * kk }) in
   let x_ = it (pure { ub @data.dat @i }) in
   let y_ = it (pure { if @i + 1 < @data.len then ub @data.dat (@i+1) else 0 }) in
   let z_ = it (pure { if @i + 2 < @data.len then ub @data.dat (@i+2) else 0 }) in
   let e0 = it (pure { tabf (ED.div x_ 4) }) in
   let e1 = it (pure { tabf (ED.mod x_ 4 * 16 + ED.div y_ 16) }) in
   let e2 = it (pure { if @i + 1 < @data.len then tabf (ED.mod y_ 16 * 4 + ED.div z_ 64) else 61 }) in
   let e3 = it (pure { if @i + 2 < @data.len then tabf (ED.mod z_ 64) else 61 }) in
   encor x_ y_ z_; digits x_ y_ z_;''',
                     end='''assert { forall j:int. 0 <= j < q_enc -> @enc.dat[j] = b_enc.dat[j] };
                       assert { forall k:int. 0 <= k < kk -> 0 <= 4*k /\\ 4*k+3 < q_enc };
                       assert { forall k:int. 0 <= k < kk -> grp b_enc.dat @data.dat @data.len k };
                       assert { forall k:int. 0 <= k < kk -> grp @enc.dat @data.dat @data.len k };
                       assert { 3 * kk = @i };
                       assert { @enc.len = q_enc + 4 };
                       assert { @enc.dat[q_enc] = e0 };
                       assert { @enc.dat[q_enc+1] = e1 };
                       assert { @enc.dat[q_enc+2] = e2 };
                       assert { @enc.dat[q_enc+3] = e3 };
                       assert { grp @enc.dat @data.dat @data.len kk };'''),
             1: Loop(['-1 <= @j <= 3', '@b = (if @j = 3 then b0 else if @j = 2 then ED.div b0 64 else if @j = 1 then ED.div b0 4096 else if @j = 0 then ED.div b0 262144 else ED.div b0 16777216)',
                      '@j < 3 -> @e[3] = tabf (ED.mod b0 64)', '@j < 2 -> @e[2] = tabf (ED.mod (ED.div b0 64) 64)', '@j < 1 -> @e[1] = tabf (ED.mod (ED.div b0 4096) 64)', '@j < 0 -> @e[0] = tabf (ED.mod (ED.div b0 262144) 64)', '@e[4] = 0'], '@j + 1',
                     before='''let b0 = it (pure { @b }) in
  assert { b0 = ub @data.dat @i * 65536 + (if @i + 1 < @data.len then ub @data.dat (@i+1) * 256 else 0) + (if @i + 2 < @data.len then ub @data.dat (@i+2) else 0) };
  assert { b0 = x_ * 65536 + y_ * 256 + z_ };''',
    after='''assert { @e[0] = e0 };
 assert { @e[1] = e1 };
 assert { @i + 1 < @data.len -> @e[2] = e2 };
 assert { @i + 2 < @data.len -> @e[3] = e3 };''')}),
    F('base64dec', ['data'], req=['0 <= @data.len < 2147483648', ('an encoding', 'b64 @data.dat @data.len !gs !gl /\\ 0 <= !gl /\\ forall i:int. -128 <= !gs[i] < 128'), TAB],
      ens=[('gives the data back', 'result.len = !gl /\\ forall j:int. 0 <= j < !gl -> result.dat[j] = !gs[j]'), TAB],
      loops={0: Loop(['0 <= @i <= 64', ('table so far', 'forall k:int [tabf k]. 0 <= k < @i -> !g_tab[tabf k] = k')], '64 - @i'),
             1: Loop(['0 <= @i <= @data.len /\\ ED.mod @i 4 = 0', ('the table is right', 'filled !g_tab'), '@dec.len = (if @i < @data.len then 3 * ED.div @i 4 else !gl)', ('bytes so far', 'forall j:int. 0 <= j < @dec.len -> @dec.dat[j] = !gs[j]')], '@data.len - @i',
                     begin='''let b_dec = it (pure { @dec }) in let k_ = it (pure { ED.div @i 4 }) in
   let x_ = it (pure { ub !gs (3*k_) }) in
   let y_ = it (pure { if 3*k_+1 < !gl then ub !gs (3*k_+1) else 0 }) in
   let z_ = it (pure { if 3*k_+2 < !gl then ub !gs (3*k_+2) else 0 }) in
   if it (pure { if @i < @data.len then True else False }) then begin
   assert { @i = 4 * k_ };
   assert { grp @data.dat !gs !gl k_ };
   assert { w_u32 (@i+1) = @i+1 /\\ w_u32 (@i+2) = @i+2 /\\ w_u32 (@i+3) = @i+3 };
   assert { @dec.len = 3*k_ };
   let n1 = it (pure { ED.mod x_ 4 * 16 + ED.div y_ 16 }) in
   let n2 = it (pure { ED.mod y_ 16 * 4 + ED.div z_ 64 }) in
   assert { 0 <= x_ < 256 /\\ 0 <= y_ < 256 /\\ 0 <= z_ < 256 };
   assert { 0 <= ED.div x_ 4 < 64 /\\ 0 <= n1 < 64 /\\ 0 <= n2 < 64 /\\ 0 <= ED.mod z_ 64 < 64 };
   assert { @data.dat[@i] = tabf (ED.div x_ 4) };
   assert { @data.dat[@i+1] = tabf n1 };
   assert { 3*k_+1 < !gl -> @data.dat[@i+2] = tabf n2 };
   assert { 3*k_+2 < !gl -> @data.dat[@i+3] = tabf (ED.mod z_ 64) };
   assert { !g_tab[@data.dat[@i]] = ED.div x_ 4 };
   assert { !g_tab[@data.dat[@i+1]] = ED.mod x_ 4 * 16 + ED.div y_ 16 };
   assert { 3*k_+1 < !gl -> !g_tab[@data.dat[@i+2]] = ED.mod y_ 16 * 4 + ED.div z_ 64 };
   assert { 3*k_+2 < !gl -> !g_tab[@data.dat[@i+3]] = ED.mod z_ 64 };
   assert { (@data.dat[@i+2] = 61 <-> 3*k_+1 >= !gl) };
   assert { (@data.dat[@i+3] = 61 <-> 3*k_+2 >= !gl) };
   bytes x_ y_ z_; bytes x_ y_ (ED.div z_ 64 * 64); bytes x_ (ED.div y_ 16 * 16) 0; decor x_ y_ z_;
   let o1 = it (pure { x_ * 65536 + ED.div y_ 16 * 4096 }) in
   assert { bw_or (ED.div x_ 4 * 262144) ((ED.mod x_ 4 * 16 + ED.div y_ 16) * 4096) = o1 };
   let o2 = it (pure { x_ * 65536 + y_ * 256 + ED.div z_ 64 * 64 }) in
   assert { bw_or o1 ((ED.mod y_ 16 * 4 + ED.div z_ 64) * 64) = o2 };
   let o3 = it (pure { x_ * 65536 + y_ * 256 + z_ }) in
   assert { bw_or o2 (ED.mod z_ 64) = o3 };
   assert { bw_or (to_u64 (!g_tab[@data.dat[@i]] * 262144)) (to_u64 (!g_tab[@data.dat[@i+1]] * 4096)) = o1 };
   assert { 3*k_+1 < !gl -> bw_or o1 (to_u64 (!g_tab[@data.dat[@i+2]] * 64)) = o2 };
   assert { 3*k_+1 >= !gl -> y_ = 0 /\\ z_ = 0 /\\ o1 = o3 };
   assert { 3*k_+2 < !gl -> bw_or o2 (to_u64 !g_tab[@data.dat[@i+3]]) = o3 };
   assert { 3*k_+2 >= !gl -> z_ = 0 /\\ o2 = o3 };
   assert { ED.mod (ED.div o3 65536) 256 = x_ /\\ ED.mod (ED.div o3 256) 256 = y_ /\\ ED.mod o3 256 = z_ };
   assert { ED.mod (ED.div o2 65536) 256 = x_ /\\ ED.mod (ED.div o2 256) 256 = y_ };
   assert { ED.mod (ED.div o1 65536) 256 = x_ };
   assert { ED.div (ED.mod (ED.div o3 65536) 256 * 65536) 65536 = x_ /\\ ED.div (ED.mod (ED.div o3 256) 256 * 256) 256 = y_ };
   assert { to_i8 x_ = !gs[3*k_] /\\ (3*k_+1 < !gl -> to_i8 y_ = !gs[3*k_+1]) /\\ (3*k_+2 < !gl -> to_i8 z_ = !gs[3*k_+2]) };
   let c1 = it (pure { bw_or (to_u64 (!g_tab[@data.dat[@i]] * 262144)) (to_u64 (!g_tab[@data.dat[w_u32 (@i+1)]] * 4096)) }) in
   let c2 = it (pure { if @data.dat[w_u32 (@i+2)] <> 61 then bw_or c1 (to_u64 (!g_tab[@data.dat[w_u32 (@i+2)]] * 64)) else c1 }) in
   let c3 = it (pure { if @data.dat[w_u32 (@i+3)] <> 61 then bw_or c2 (to_u64 !g_tab[@data.dat[w_u32 (@i+3)]]) else c2 }) in
   assert { c3 = o3 };
   assert { to_i8 (ED.div (ED.mod (ED.div c3 65536) 256 * 65536) 65536) = !gs[3*k_] };
   assert { ED.div (ED.mod (ED.div c3 256) 256 * 256) 256 = y_ };
   assert { ED.mod c3 256 = z_ };
   assert { @data.dat[w_u32 (@i+2)] <> 61 -> 3*k_+1 < !gl /\\ to_i8 y_ = !gs[b_dec.len + 1] };
   assert { @data.dat[w_u32 (@i+3)] <> 61 -> 3*k_+2 < !gl /\\ to_i8 z_ = !gs[b_dec.len + 2] };
   assert { @data.dat[w_u32 (@i+2)] <> 61 -> to_i8 (ED.div (ED.mod (ED.div c3 256) 256 * 256) 256) = !gs[b_dec.len + 1] };
   assert { @data.dat[w_u32 (@i+3)] <> 61 -> to_i8 (ED.mod c3 256) = !gs[b_dec.len + 2] };
   assert { @data.dat[w_u32 (@i+3)] <> 61 -> @data.dat[w_u32 (@i+2)] <> 61 };
   () end;''',
                     end='''   assert { @dec.dat[3*k_] = !gs[3*k_] };
   assert { 3*k_+1 < !gl -> @dec.len >= 3*k_+2 };
   assert { 3*k_+1 < !gl -> @dec.dat[3*k_+1] = !gs[3*k_+1] };
   assert { 3*k_+2 < !gl -> @dec.dat[3*k_+2] = !gs[3*k_+2] };
   assert { forall j:int. 0 <= j < 3*k_ -> @dec.dat[j] = b_dec.dat[j] };''')}),
])]
