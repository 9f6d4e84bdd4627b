"""C13: run-length coding (utils/encode.cc): decoding the encoding gives the data back."""
from tr import Unit, F, Loop
PRE = r'''
(* one token of e at i is the bytes of s at o: a run (negative count) or literal bytes *)
predicate tok (e : map int int) (i : int) (s : map int int) (o : int) =
  if e[i] < 0 then -126 <= e[i] /\ (forall j:int [s[j]]. o <= j < o + 1 - e[i] -> s[j] = e[i+1])
  else e[i] <= 126 /\ (forall j:int [s[j]]. o <= j < o + 1 + e[i] -> s[j] = e[i + 1 + j - o])
function tlen (c : int) : int = if c < 0 then 2 else c + 2
function olen (c : int) : int = if c < 0 then 1 - c else c + 1
(* decoding e from i up to i2 gives s from o up to o2 *)
let rec ghost predicate rl (e : map int int) (i i2 : int) (s : map int int) (o o2 : int) variant { i2 - i }
= if i >= i2 then i = i2 && o = o2 else (pure { i + tlen e[i] <= i2 /\ o + olen e[i] <= o2 /\ tok e i s o }) && rl e (i + pure { tlen e[i] }) i2 s (o + pure { olen e[i] }) o2
let rec lemma rl_app (e : map int int) (i m i2 : int) (s : map int int) (o om o2 : int)
  requires { rl e i m s o om /\ rl e m i2 s om o2 /\ i <= m <= i2 /\ om <= o2 } ensures { rl e i i2 s o o2 } variant { m - i }
= if i < m then rl_app e (i + pure { tlen e[i] }) m i2 s (o + pure { olen e[i] }) om o2
let rec lemma rl_frame (e e2 : map int int) (i i2 : int) (s s2 : map int int) (o o2 : int)
  requires { rl e i i2 s o o2 } requires { forall j:int. i <= j < i2 -> e[j] = e2[j] } requires { forall j:int. o <= j < o2 -> s[j] = s2[j] }
  ensures { rl e2 i i2 s2 o o2 } variant { i2 - i }
= if i < i2 then begin rl_frame e e2 (i + pure { tlen e[i] }) i2 s s2 (o + pure { olen e[i] }) o2;
  assert { tok e2 i s2 o } end
let rec lemma rl_le (e : map int int) (i i2 : int) (s : map int int) (o o2 : int) requires { rl e i i2 s o o2 } ensures { i <= i2 /\ o <= o2 } variant { i2 - i }
= if i < i2 then rl_le e (i + pure { tlen e[i] }) i2 s (o + pure { olen e[i] }) o2
let lemma rl_one (e : map int int) (i m i2 : int) (s : map int int) (o om o2 : int)
  requires { rl e i m s o om /\ i <= m /\ i2 = m + tlen e[m] /\ o2 = om + olen e[m] /\ tok e m s om } ensures { rl e i i2 s o o2 }
= assert { rl e i2 i2 s o2 o2 }; assert { rl e m i2 s om o2 }; rl_app e i m i2 s o om o2
predicate one (e : map int int) (i i2 : int) (s : map int int) (o o2 : int) = i2 = i + tlen e[i] /\ o2 = o + olen e[i] /\ tok e i s o
let lemma steps (e e2 : map int int) (i i2 : int) (s : map int int) (o o2 : int)
  requires { 0 <= i /\ rl e 0 i s 0 o } requires { forall j:int. 0 <= j < i -> e[j] = e2[j] }
  requires { i2 = i /\ o2 = o \/ one e2 i i2 s o o2 \/ let m = i + tlen e2[i] in let om = o + olen e2[i] in one e2 i m s o om /\ one e2 m i2 s om o2 }
  ensures { rl e2 0 i2 s 0 o2 }
= rl_frame e e2 0 i s s 0 o;
  if pure { i2 = i /\ o2 = o } then () else if pure { one e2 i i2 s o o2 } then rl_one e2 0 i i2 s 0 o o2 else
  let m = i + pure { tlen e2[i] } in let om = o + pure { olen e2[i] } in
  rl_one e2 0 i m s 0 o om; rl_one e2 0 m i2 s 0 om o2
'''
STATE = 'val gs : ref (map int int)\nval gl : ref int\nval xd : ref (map int int)\nval xl : ref int\nval xo : ref int\n'
UNITS = [Unit('runlen', '/repo/utils/encode.cc', prelude=PRE, state=STATE, contracts=[
    F('cntsame', ['data', 'strt'], req=['0 <= @strt < @data.len < 2147483648'], ens=[('a run', '1 <= result <= 127 /\\ @strt + result <= @data.len'), ('of equal bytes', 'forall j:int. @strt <= j < @strt + result -> @data.dat[j] = @data.dat[@strt]')],
      loops={0: Loop(['@strt + 1 <= @i <= @data.len /\\ @i <= @strt + 127', 'forall j:int. @strt <= j < @i -> @data.dat[j] = @data.dat[@strt]'], '@data.len - @i')}),
    F('runlenenc', ['data'], req=['0 <= @data.len < 2147483648'], ens=[('decodes to the data', 'rl result.dat 0 result.len @data.dat 0 @data.len'), ('at most twice as long', '0 <= result.len <= 2 * @data.len')],
      loops={0: Loop(['0 <= @i <= @data.len', '0 <= @buf.len < 127 /\\ @buf.len <= @i /\\ 0 <= @dst.len <= 2 * (@i - @buf.len)',
                      ('collected bytes', 'forall j:int. 0 <= j < @buf.len -> @buf.dat[j] = @data.dat[@i - @buf.len + j]'),
                      ('encoded so far', 'rl @dst.dat 0 @dst.len @data.dat 0 (@i - @buf.len)')], '@data.len - @i',
                     begin='let b_dst = it (pure { @dst }) in let b_o = it (pure { @i - @buf.len }) in',
                     end='steps b_dst.dat (it (pure { @dst.dat })) b_dst.len (it (pure { @dst.len })) (it (pure { @data.dat })) b_o (it (pure { @i - @buf.len }));',
                     after='xd := it (pure { @dst.dat }); xl := it (pure { @dst.len }); xo := it (pure { @i - @buf.len });')},
      hooks={'exit': 'steps (it (pure { !xd })) @result.dat (it (pure { !xl })) @result.len (it (pure { @data.dat })) (it (pure { !xo })) (it (pure { @data.len }));'}),
    F('runlendec', ['data'], req=['0 <= @data.len < 2147483648', ('an encoding', 'rl @data.dat 0 @data.len !gs 0 !gl /\\ 0 <= !gl')],
      ens=[('gives the data back', 'result.len = !gl /\\ forall j:int. 0 <= j < !gl -> result.dat[j] = !gs[j]')],
      loops={0: Loop(['0 <= @i <= @data.len', '0 <= @dst.len <= !gl', ('rest', 'rl @data.dat @i @data.len !gs @dst.len !gl'), ('so far', 'forall j:int. 0 <= j < @dst.len -> @dst.dat[j] = !gs[j]')], '@data.len - @i',
                     begin='let i0 = it (pure { @i }) in let d0 = it (pure { @dst.len }) in'),
             1: Loop(['0 <= @j <= @len /\\ @dst.len = d0 + @j /\\ @i = i0 + 1', ('so far', 'forall j:int. 0 <= j < @dst.len -> @dst.dat[j] = !gs[j]')], '@len - @j'),
             2: Loop(['i0 + 1 <= @i <= @end /\\ @end <= @data.len /\\ @dst.len = d0 + (@i - i0 - 1)', ('so far', 'forall j:int. 0 <= j < @dst.len -> @dst.dat[j] = !gs[j]')], '@end - @i')}),
])]
