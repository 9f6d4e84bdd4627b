"""C15: permutation ranks (utils/rank.cc): in range and injective."""
from tr import Unit, F, Loop
import u_math
PRE = u_math.PRE + r'''
axiom map_use : forall m:map int int, i:int [m[i]]. (m[i <- 0])[i] = 0
(* the values seen in the first k places of p, as an indicator *)
let rec ghost function sn (p : map int int) (k : int) : map int int variant { k } = if k <= 0 then pure { (fun (_ : int) -> 0) } else let s = sn p (k-1) in pure { s[p[k-1] <- 1] }
let rec ghost function ss (s : map int int) (v : int) : int variant { v } = if v <= 0 then 0 else ss s (v-1) + pure { s[v-1] }
(* what place k adds: the values below p[k] that were not seen before it *)
function dig (p : map int int) (k : int) : int
axiom dig_def : forall p:map int int, k:int [dig p k]. dig p k = p[k] - ss (sn p k) p[k]
function rk (p : map int int) (sz k : int) : int
axiom rk_0 : forall p:map int int, sz:int. rk p sz 0 = 0
axiom rk_s : forall p:map int int, sz k:int [rk p sz k]. k > 0 -> rk p sz k = rk p sz (k-1) * (sz - k + 1) + dig p (k-1)
predicate arr (p : map int int) (sz n : int) = (forall k:int [p[k]]. 0 <= k < n -> 0 <= p[k] < sz) /\ (forall j k:int [p[j], p[k]]. 0 <= j < k < n -> p[j] <> p[k])
predicate bit (s : map int int) = forall u:int [s[u]]. s[u] = 0 \/ s[u] = 1
let rec lemma sn_seen (p : map int int) (k u : int) requires { 0 <= k } ensures { (sn p k)[u] = 0 \/ (sn p k)[u] = 1 } ensures { (sn p k)[u] = 1 -> exists j:int. 0 <= j < k /\ p[j] = u } ensures { forall j:int. 0 <= j < k -> (sn p k)[p[j]] = 1 } variant { k }
= if k > 0 then sn_seen p (k-1) u
let rec lemma ss_bound (s : map int int) (v : int) requires { 0 <= v /\ bit s } ensures { 0 <= ss s v <= v } variant { v } = if v > 0 then ss_bound s (v-1)
let rec lemma ss_gap (s : map int int) (u v : int) requires { 0 <= u <= v /\ bit s } ensures { ss s u <= ss s v <= ss s u + (v - u) } variant { v - u } = if u < v then ss_gap s u (v-1)
let rec lemma ss_set (s : map int int) (x v : int) requires { 0 <= x } ensures { ss s[x <- 1] v = ss s v + (if x < v then 1 - s[x] else 0) } variant { v } = if v > 0 then ss_set s x (v-1)
let rec lemma ss_zero (s : map int int) (v : int) requires { forall u:int. 0 <= u < v -> s[u] = 0 } ensures { ss s v = 0 } variant { v } = if v > 0 then ss_zero s (v-1)
let lemma sn_bit (p : map int int) (k : int) requires { 0 <= k } ensures { bit (sn p k) }
= assert { forall u:int. (sn p k)[u] = 0 \/ (sn p k)[u] = 1 }
let rec lemma sn_total (p : map int int) (sz n k : int) requires { arr p sz n /\ 0 <= k <= n } ensures { ss (sn p k) sz = k } variant { k }
= if k > 0 then begin sn_total p sz n (k-1); sn_seen p (k-1) (pure { p[k-1] }); ss_set (sn p (k-1)) (pure { p[k-1] }) sz end else ss_zero (sn p 0) sz
let lemma sn_fresh (p : map int int) (sz n k : int) requires { arr p sz n /\ 0 <= k < n } ensures { (sn p k)[p[k]] = 0 } = sn_seen p k (pure { p[k] })
let lemma dig_range (p : map int int) (sz n k : int) requires { arr p sz n /\ 0 <= k < n } ensures { 0 <= dig p k < sz - k }
= sn_bit p k; sn_total p sz n k; sn_fresh p sz n k; let x = pure { p[k] } in ss_bound (sn p k) x; ss_gap (sn p k) (x+1) sz; assert { ss (sn p k) (x+1) = ss (sn p k) x }
let lemma mul_bound (r f s c : int) requires { 0 <= r < f /\ 0 <= c < s } ensures { 0 <= r * s /\ r * s + c < f * s } = assert { 0 <= r * s }; assert { (r + 1) * s <= f * s }; assert { (r + 1) * s = r * s + s }
let lemma mul_step (r f s c r2 f2 : int) requires { 0 <= r < f /\ 0 <= c < s /\ r2 = r * s + c /\ f2 = f * s } ensures { 0 <= r2 < f2 } = mul_bound r f s c
let rec lemma rk_range (p : map int int) (sz n k : int) requires { arr p sz n /\ 0 <= k <= n <= sz } ensures { 0 <= rk p sz k < ff sz k } variant { k }
= if k > 0 then begin rk_range p sz n (k-1); dig_range p sz n (k-1);
    assert { rk p sz k = rk p sz (k-1) * (sz - k + 1) + dig p (k-1) }; assert { ff sz k = ff sz (k-1) * (sz - k + 1) };
    mul_step (rk p sz (k-1)) (ff sz (k-1)) (sz - k + 1) (dig p (k-1)) (rk p sz k) (ff sz k) end
let rec lemma sn_ext (p q : map int int) (k : int) requires { forall j:int. 0 <= j < k -> p[j] = q[j] } ensures { sn p k = sn q k } variant { k } = if k > 0 then sn_ext p q (k-1)
let lemma div_unique (a b s c d : int) requires { 0 <= c < s /\ 0 <= d < s /\ a * s + c = b * s + d } ensures { a = b /\ c = d }
= if a < b then begin assert { (a + 1) * s <= b * s }; assert { (a + 1) * s = a * s + s } end; if b < a then begin assert { (b + 1) * s <= a * s }; assert { (b + 1) * s = b * s + s } end
let lemma dig_inj (p q : map int int) (sz n k : int) requires { arr p sz n /\ arr q sz n /\ 0 <= k < n <= sz /\ (forall j:int. 0 <= j < k -> p[j] = q[j]) /\ dig p k = dig q k } ensures { p[k] = q[k] }
= sn_ext p q k; sn_bit p k; sn_fresh p sz n k; sn_fresh q sz n k;
  let s = sn p k in let x = pure { p[k] } in let y = pure { q[k] } in
  assert { ss s x - x = ss s y - y };
  if x < y then begin ss_gap s (x+1) y; assert { ss s (x+1) = ss s x } end;
  if y < x then begin ss_gap s (y+1) x; assert { ss s (y+1) = ss s y } end
let rec lemma rk_inj (p q : map int int) (sz n k : int) requires { arr p sz n /\ arr q sz n /\ 0 <= k <= n <= sz /\ rk p sz k = rk q sz k } ensures { forall j:int. 0 <= j < k -> p[j] = q[j] } variant { k }
= if k > 0 then begin
    dig_range p sz n (k-1); dig_range q sz n (k-1);
    assert { rk p sz k = rk p sz (k-1) * (sz - k + 1) + dig p (k-1) /\ rk q sz k = rk q sz (k-1) * (sz - k + 1) + dig q (k-1) };
    div_unique (rk p sz (k-1)) (rk q sz (k-1)) (sz - k + 1) (dig p (k-1)) (dig q (k-1));
    rk_inj p q sz n (k-1); dig_inj p q sz n (k-1)
  end
let rec lemma ff_le (x i n : int) requires { 0 <= i <= n <= x } ensures { ff x i <= ff x n } variant { n - i } = ff_mono x i n
(* the counting tree: leaf P + v counts value v, an inner node the two below it *)
(* node m is being looked at; the sums are instantiated only there *)
predicate atn int
axiom at_true : forall m:int [atn m]. atn m
predicate tree (t : map int int) (p : int) = forall m:int [atn m]. atn m -> 1 <= m < p -> t[m] = t[2*m] + t[2*m+1]
(* bef t m: the sum over the path from m to the root of what hangs left of it; unfolded only where unf is stated *)
function bef (map int int) int : int
predicate unf (map int int) int
axiom unf_true : forall t:map int int, m:int [unf t m]. unf t m
axiom bef_0 : forall t:map int int, m:int [unf t m]. m <= 1 -> bef t m = 0
axiom bef_s : forall t:map int int, m:int [unf t m]. m > 1 -> bef t m = bef t (ED.div m 2) + (if ED.mod m 2 = 1 then t[m-1] else 0)
let rec lemma pow_le (e f : int) requires { 0 <= e <= f } ensures { pow2 e <= pow2 f /\ pow2 e >= 1 } variant { f } = if e < f then begin pow_le e (f-1); assert { pow2 (f-1+1) = 2 * pow2 (f-1) } end else if e > 0 then begin pow_le (e-1) (e-1); assert { pow2 (e-1+1) = 2 * pow2 (e-1) } end
let rec lemma bef_pow (t : map int int) (e : int) requires { 0 <= e } ensures { bef t (pow2 e) = 0 } variant { e }
= assert { unf t (pow2 e) }; if e > 0 then begin bef_pow t (e-1); assert { pow2 (e-1+1) = 2 * pow2 (e-1) }; pow_le 0 (e-1) end
let rec lemma bef_next (t : map int int) (bits e m : int) requires { 0 <= e <= bits /\ tree t (pow2 bits) /\ pow2 e <= m /\ m + 1 < 2 * pow2 e } ensures { bef t (m+1) = bef t m + t[m] } variant { e }
= assert { unf t m }; assert { unf t (m+1) }; assert { e > 0 }; assert { pow2 (e-1+1) = 2 * pow2 (e-1) };
  if ED.mod m 2 = 0 then assert { ED.div (m+1) 2 = ED.div m 2 /\ ED.mod (m+1) 2 = 1 }
  else begin let h = ED.div m 2 in assert { m = 2 * h + 1 /\ ED.div (m+1) 2 = h + 1 /\ ED.mod (m+1) 2 = 0 }; bef_next t bits (e-1) h; pow_le (e-1) bits; pow_le e bits; assert { h < pow2 bits }; assert { atn h }; assert { t[h] = t[2*h] + t[2*h+1] } end
let rec lemma bef_leaf (t s : map int int) (bits v : int) requires { 0 <= bits /\ tree t (pow2 bits) /\ 0 <= v < pow2 bits /\ forall u:int. 0 <= u < pow2 bits -> t[pow2 bits + u] = s[u] } ensures { bef t (pow2 bits + v) = ss s v } variant { v }
= if v > 0 then begin bef_leaf t s bits (v-1); bef_next t bits bits (pow2 bits + v - 1) end else bef_pow t bits
let rec lemma bef_pos (t : map int int) (m : int) requires { forall i:int. 1 <= i < m -> 0 <= t[i] } ensures { 0 <= bef t m } variant { m } = assert { unf t m }; if m > 1 then bef_pos t (ED.div m 2)
predicate leaves (t s : map int int) (p : int) = forall m:int [t[m]]. p <= m < 2 * p -> t[m] = s[m - p]
predicate within (t : map int int) (n k : int) = forall m:int [t[m]]. 0 <= m < n -> 0 <= t[m] <= k
predicate low (t t0 : map int int) (n : int) = forall m:int [t[m]]. 0 <= m < n -> t[m] = t0[m]
(* the tree while the node nd, but not yet those above it, has been counted up *)
predicate climb (t : map int int) (p nd : int) = forall m:int [atn m]. atn m -> 1 <= m < p -> t[m] + (if m = nd then 1 else 0) = t[2*m] + t[2*m+1]
predicate rinv (sz bits n treesz len : int) = 0 <= n <= sz < 536870912 /\ 0 <= bits <= 29 /\ sz < pow2 bits /\ treesz = 2 * pow2 bits + 1 /\ len = treesz
'''
INV = 'rinv %s.r_sz %s.r_bits %s.r_n %s.r_treesz %s.r_tree.len'
inv = lambda x: INV % (x, x, x, x, x)
KEEP = '@this.r_sz = old @this.r_sz /\\ @this.r_bits = old @this.r_bits /\\ @this.r_n = old @this.r_n /\\ @this.r_treesz = old @this.r_treesz /\\ @this.r_tree.len = old @this.r_tree.len'
P = 'pow2 @this.r_bits'
T = '@this.r_tree.dat'
CT = lambda e, m, s: '@%s' % 0
CTOR = {'exit': 'pow_le 0 (it (pure { @this.r_bits })); assert { pow2 (@this.r_bits + 1) = 2 * pow2 @this.r_bits }; pow_le (it (pure { @this.r_bits })) 29;'}
UNITS = [Unit('rank', '/verif/drivers/rank.cc', prefix={'Ranker': 'r_'}, owned=('Ranker::tree',), prelude=PRE, state='val seen : ref (map int int)\nval t0 : ref (map int int)\nval lf : ref int\n', contracts=[
    F('ilog2', ['v'], req=['0 <= @v < 4294967296'], ens=[('zero', '@v = 0 -> result = 0'), ('number of binary digits', '@v > 0 -> 1 <= result <= 32 /\\ pow2 (result - 1) <= @v < pow2 result')]),
    F('Ranker::Ranker', ['sz'], nparams=1, req=['0 <= @sz < 536870912'], ens=[('a ranker', inv('@this')), '@this.r_sz = @sz /\\ @this.r_n = @sz'],
      hooks={'after:ilog2#0': 'let r = @callres in if r > 29 then begin pow_le 29 (r-1); assert { pow2 29 = 536870912 } end; pow_le r 29; assert { pow2 (r + 1) = 2 * pow2 r /\\ 0 <= pow2 r <= 536870912 };'}),
    F('Ranker::Ranker', ['sz', 'n'], nparams=2, req=['0 <= @n <= @sz < 536870912'], ens=[('a ranker', inv('@this')), '@this.r_sz = @sz /\\ @this.r_n = @n'],
      hooks={'after:ilog2#0': 'let r = @callres in if r > 29 then begin pow_le 29 (r-1); assert { pow2 29 = 536870912 } end; pow_le r 29; assert { pow2 (r + 1) = 2 * pow2 r /\\ 0 <= pow2 r <= 536870912 };'}),
    F('Ranker::rank', ['p'], cfg=dict(ptr_val=(0,)), req=[inv('@this'), 'arr @p @this.r_sz @this.r_n', ('the ranks fit', 'ff @this.r_sz @this.r_n <= 18446744073709551616')],
      ens=[('in range', '0 <= result < ff @this.r_sz @this.r_n'), ('the rank', 'result = rk @p @this.r_sz @this.r_n'), KEEP],
      hooks={'exit': 'rk_range (it (pure { @p })) (it (pure { @this.r_sz })) (it (pure { @this.r_n })) (it (pure { @this.r_n }));'},
      loops={
        0: Loop(['1 <= @i <= @this.r_n + 1', KEEP, '@rank = rk @p @this.r_sz (@i - 1)', '0 <= @rank < ff @this.r_sz (@i - 1)', 'leaves %s (sn @p (@i - 1)) (%s)' % (T, P),
                 'tree %s (%s)' % (T, P), 'within %s @this.r_treesz (@i - 1)' % T], '@this.r_n + 1 - @i',
                before='pow_le 0 (it (pure { @this.r_bits })); pow_le (it (pure { @this.r_bits })) 29; assert { pow2 29 = 536870912 };',
                begin='t0 := it (pure { %s }); assert { within !t0 @this.r_treesz (@i - 1) }; assert { leaves !t0 (sn @p (@i - 1)) (%s) }; lf := it (pure { %s + @p[@i - 1] }); dig_range (it (pure { @p })) (it (pure { @this.r_sz })) (it (pure { @this.r_n })) (it (pure { @i - 1 })); sn_fresh (it (pure { @p })) (it (pure { @this.r_sz })) (it (pure { @this.r_n })) (it (pure { @i - 1 })); bef_leaf !t0 (sn (it (pure { @p })) (it (pure { @i - 1 }))) (it (pure { @this.r_bits })) (it (pure { @p[@i - 1] })); bef_pos !t0 !lf; assert { sn @p @i = (sn @p (@i - 1))[@p[@i-1] <- 1] }; assert { pow2 0 = 1 }; assert { @p[@i - 1] - bef !t0 !lf = dig @p (@i - 1) }; assert { ff @this.r_sz @i = ff @this.r_sz (@i - 1) * (@this.r_sz - @i + 1) }; ff_le (it (pure { @this.r_sz })) (it (pure { @i })) (it (pure { @this.r_n }));' % (T, P, P)),
        1: Loop(['1 <= @j <= @this.r_bits + 1', KEEP, ('level', 'pow2 (@this.r_bits + 1 - @j) <= @nd < 2 * pow2 (@this.r_bits + 1 - @j) /\\ @nd < 2 * %s' % P), ('leaf', '@nd >= %s -> @nd = !lf' % P),
                 ('counted so far', '@ctr = dig @p (@i - 1) + bef !t0 @nd'), 'low %s !t0 (2 * @nd)' % T,
                 'climb %s (%s) @nd' % (T, P),
                 'if @nd < %s then leaves %s (sn @p @i) (%s) else leaves %s (sn @p (@i - 1)) (%s)' % (P, T, P, T, P),
                 'within %s @this.r_treesz @i' % T], '@this.r_bits + 1 - @j',
                begin='assert { w_u32 (@j + 1) = @j + 1 }; assert { pow2 (@this.r_bits + 1 - (@j + 1)) = pow2 (@this.r_bits - @j) }; assert { pow2 (@this.r_bits + 1 - @j) = pow2 (@this.r_bits - @j + 1) }; assert { pow2 (@this.r_bits - @j + 1) = 2 * pow2 (@this.r_bits - @j) }; pow_le (it (pure { @this.r_bits - @j })) (it (pure { @this.r_bits })); bef_pos !t0 (it (pure { @nd })); bef_pos !t0 (ED.div (it (pure { @nd })) 2); let nd = it (pure { @nd }) in assert { nd = 2 * ED.div nd 2 + ED.mod nd 2 /\\ 0 <= ED.mod nd 2 <= 1 }; assert { ED.div nd 2 < %s }; assert { (sn @p @i)[@p[@i-1]] = 1 }; assert { nd >= %s -> nd = %s + @p[@i-1] }; assert { nd >= %s -> leaves %s (sn @p (@i - 1)) (%s) }; assert { nd >= %s -> %s[%s + @p[@i-1]] = 0 }; assert { nd >= %s -> %s[nd] = 0 }; assert { !t0[nd] = %s[nd] /\\ %s[nd] <= @i - 1 /\\ w_u32 (%s[nd] + 1) = %s[nd] + 1 }; assert { ED.mod nd 2 = 1 -> %s[nd-1] = !t0[nd-1] /\\ nd - 1 = 2 * ED.div nd 2 }; assert { unf !t0 nd }; assert { bef !t0 nd = bef !t0 (ED.div nd 2) + (if ED.mod nd 2 = 1 then !t0[nd-1] else 0) };' % (P, P, P, P, T, P, P, T, P, P, T, T, T, T, T, T),
                after='assert { w_u32 (@i + 1) = @i + 1 }; assert { @i + 1 - 1 = @i }; assert { @nd = 1 }; assert { @ctr = dig @p (@i - 1) }; mul_bound (it (pure { @rank })) (ff (it (pure { @this.r_sz })) (it (pure { @i - 1 }))) (it (pure { @this.r_sz - @i + 1 })) (it (pure { dig @p (@i - 1) })); assert { w_u32 (w_u32 (@this.r_sz + 1) - @i) = @this.r_sz - @i + 1 }; assert { rk @p @this.r_sz @i = @rank * (@this.r_sz - @i + 1) + dig @p (@i - 1) }; assert { 0 <= @rank * (@this.r_sz - @i + 1) /\\ @rank * (@this.r_sz - @i + 1) + @ctr < ff @this.r_sz @i }; assert { @rank * w_u32 (w_u32 (@this.r_sz + 1) - @i) = @rank * (@this.r_sz - @i + 1) }; assert { ff @this.r_sz @i <= 18446744073709551616 }; assert { 0 <= @rank * (@this.r_sz - @i + 1) < 18446744073709551616 }; assert { w_u64 (w_u64 (@rank * w_u32 (w_u32 (@this.r_sz + 1) - @i)) + @ctr) = rk @p @this.r_sz @i };'),
      }),
    F('samerank', ['r', 'p', 'q'], cfg=dict(ptr_val=(1, 2)), req=[inv('@r'), 'arr @p @r.r_sz @r.r_n', 'arr @q @r.r_sz @r.r_n', 'ff @r.r_sz @r.r_n <= 18446744073709551616'],
      ens=[('different arrangements have different ranks', 'result = True -> forall k:int. 0 <= k < @r.r_n -> @p[k] = @q[k]')],
      hooks={'exit': 'if it (pure { if @result = True then True else False }) then rk_inj (it (pure { @p })) (it (pure { @q })) (it (pure { @r.r_sz })) (it (pure { @r.r_n })) (it (pure { @r.r_n }));'}),
])]
