"""C21: the traffic domain (traffic/): obstacle schedule, moves, collisions and the heuristic."""
from tr import Unit, F, Loop
PRE = r'''
axiom map_use : forall m:map int int, i:int [m[i <- 0]]. (m[i <- 0])[i] = 0
function f_sqrt (x : real) : real
constant r2 : real
axiom r2_def : f_sqrt 2.0 = r2 /\ 1.4 <=. r2 <=. 1.5
function iabs (x : int) : int = if x >= 0 then x else - x
function imin (x y : int) : int = if x <= y then x else y
function row (i w : int) : int = ED.div i w
function col (i w : int) : int = ED.mod i w
let ghost rc (x y w : int) : unit requires { 0 <= x < w } ensures { row (y * w + x) w = y /\ col (y * w + x) w = x }
= let i = y * w + x in assert { i = w * ED.div i w + ED.mod i w /\ 0 <= ED.mod i w < w }; assert { w * (ED.div i w - y) = x - ED.mod i w };
  assert { ED.div i w > y -> w * (ED.div i w - y) >= w }; assert { ED.div i w < y -> w * (ED.div i w - y) <= - w }
let ghost cell (i w h : int) : unit requires { 0 < w /\ 0 <= row i w < h } ensures { i = row i w * w + col i w /\ 0 <= col i w < w /\ 0 <= i < w * h }
= assert { i = w * ED.div i w + ED.mod i w /\ 0 <= ED.mod i w < w }; assert { w * row i w <= w * (h - 1) }; assert { 0 <= w * row i w }
let ghost cell2 (i w h : int) : unit requires { 0 < w /\ 0 <= i < w * h } ensures { 0 <= row i w < h /\ 0 <= col i w < w }
= assert { i = w * ED.div i w + ED.mod i w /\ 0 <= ED.mod i w < w }; assert { row i w < 0 -> w * row i w <= - w }; assert { row i w >= h -> w * row i w >= w * h }
let ghost mul_bound (a b : int) : unit requires { 0 <= a <= 16384 /\ 0 <= b <= 16384 } ensures { 0 <= a * b <= 268435456 } = assert { a * b <= 16384 * b }
let ghost fits (w x y : int) : unit requires { 2 <= w <= 16384 /\ -1 <= x <= 1 /\ -1 <= y <= 1 } ensures { to_i32 (w_u32 (to_u32 x + w_u32 (w * to_u32 y))) = x + w * y }
= if y = 0 then () else if y = 1 then assert { w * to_u32 y = w } else begin assert { to_u32 y = 4294967295 }; assert { w_u32 (w * 4294967295) = 4294967296 - w } end
predicate inside (i w h : int) = 0 <= row i w < h /\ 0 <= col i w < w
(* going back and forth between 0 and n, as a function of the distance travelled *)
function wave0 (q n : int) : int
predicate use_w (q n : int)
axiom wave_def : forall q n:int [use_w q n]. use_w q n /\ wave0 q n = if ED.mod (ED.div q n) 2 = 0 then ED.mod q n else n - ED.mod q n
function wave (p n : int) : int = wave0 (iabs p) n
let ghost wave_range (p n : int) : unit requires { 0 < n } ensures { 0 <= wave p n <= n } = assert { use_w (iabs p) n }; assert { 0 <= ED.mod (iabs p) n < n }
let ghost dm (q n : int) : unit requires { 0 < n /\ 0 <= q } ensures { ED.div (q + 2 * n) n = ED.div q n + 2 /\ ED.mod (q + 2 * n) n = ED.mod q n }
= rc (it (pure { ED.mod q n })) (it (pure { ED.div q n + 2 })) n; assert { q = n * ED.div q n + ED.mod q n }; assert { (ED.div q n + 2) * n + ED.mod q n = q + 2 * n }
let ghost par (k : int) : unit ensures { ED.mod (k + 2) 2 = ED.mod k 2 } = ()
let ghost wave_up (q n : int) : unit requires { 0 < n /\ 0 <= q } ensures { wave0 (q + 2 * n) n = wave0 q n } = assert { use_w q n /\ use_w (q + 2 * n) n }; dm q n; par (it (pure { ED.div q n }))
(* crossing zero: q and 2n - q *)
let ghost wave_lo (q n : int) : unit requires { 0 < n /\ 0 <= q <= 2 * n } ensures { wave0 q n = (if q <= n then q else 2 * n - q) }
= assert { use_w q n }; assert { ED.mod 0 2 = 0 /\ ED.mod 1 2 = 1 /\ ED.mod 2 2 = 0 };
  if q < n then rc q 0 n else if q < 2 * n then begin assert { 1 * n = n }; rc (q - n) 1 n end else rc 0 2 n
let ghost wave_per (p n : int) : unit requires { 0 < n } ensures { wave (p + 2 * n) n = wave p n }
= if p >= 0 then wave_up p n else if p + 2 * n >= 0 then begin wave_lo (p + 2 * n) n; wave_lo (- p) n end else wave_up (- p - 2 * n) n
let rec ghost wave_pers (p n k : int) : unit requires { 0 < n /\ 0 <= k } ensures { wave (p + 2 * (k * n)) n = wave p n /\ wave (p - 2 * (k * n)) n = wave p n } variant { k }
= if k > 0 then begin wave_pers p n (k-1); assert { k * n = (k-1) * n + n }; wave_per (p + 2 * ((k-1) * n)) n; wave_per (p - 2 * (k * n)) n end
(* the obstacles *)
function px (o : r_obstacle) (w t : int) : int
function py (o : r_obstacle) (h t : int) : int
predicate use_x (o : r_obstacle) (w t : int)
predicate use_y (o : r_obstacle) (h t : int)
axiom px_def : forall o:r_obstacle, w t:int [use_x o w t]. use_x o w t /\ px o w t = wave (o.obstacle_x + o.obstacle_dx * t) (w - 1)
axiom py_def : forall o:r_obstacle, h t:int [use_y o h t]. use_y o h t /\ py o h t = wave (o.obstacle_y + o.obstacle_dy * t) (h - 1)
let ghost per1 (x d n t : int) : unit requires { 0 < n } ensures { wave (x + d * (t + 2 * n)) n = wave (x + d * t) n }
= let b = it (pure { x + d * t }) in assert { x + d * (t + 2 * n) = b + 2 * (d * n) }; if d >= 0 then wave_pers b n d else begin wave_pers b n (- d); assert { 2 * ((- d) * n) = - (2 * (d * n)) }; assert { b - 2 * ((- d) * n) = b + 2 * (d * n) } end
let ghost periodic (o : r_obstacle) (w h t : int) : unit requires { 2 <= w /\ 2 <= h } ensures { px o w (t + 2 * (w - 1)) = px o w t /\ py o h (t + 2 * (h - 1)) = py o h t }
= assert { use_x o w t /\ use_x o w (t + 2 * (w - 1)) }; assert { use_y o h t /\ use_y o h (t + 2 * (h - 1)) }; per1 (it (pure { o.obstacle_x })) (it (pure { o.obstacle_dx })) (w - 1) t; per1 (it (pure { o.obstacle_y })) (it (pure { o.obstacle_dy })) (h - 1) t
let ghost cdq (x n : int) : unit requires { 0 < n /\ 0 <= x } ensures { CD.div x n = ED.div x n /\ CD.mod x n = ED.mod x n /\ 0 <= ED.mod x n < n /\ 0 <= ED.div x n } = assert { x = n * CD.div x n + CD.mod x n }; rc (it (pure { CD.mod x n })) (it (pure { CD.div x n })) n; assert { x = n * ED.div x n + ED.mod x n }; assert { ED.div x n < 0 -> n * ED.div x n <= - n }
let ghost pos (o : r_obstacle) (w h t : int) : unit requires { 2 <= w /\ 2 <= h }
  ensures { let q = iabs (o.obstacle_x + o.obstacle_dx * t) in px o w t = if CD.mod (CD.div q (w-1)) 2 = 0 then CD.mod q (w-1) else w - 1 - CD.mod q (w-1) }
  ensures { let q = iabs (o.obstacle_y + o.obstacle_dy * t) in py o h t = if CD.mod (CD.div q (h-1)) 2 = 0 then CD.mod q (h-1) else h - 1 - CD.mod q (h-1) }
= let q = it (pure { iabs (o.obstacle_x + o.obstacle_dx * t) }) in assert { use_x o w t /\ use_w q (w-1) }; cdq q (w-1); cdq (it (pure { ED.div q (w-1) })) 2;
  let q = it (pure { iabs (o.obstacle_y + o.obstacle_dy * t) }) in assert { use_y o h t /\ use_w q (h-1) }; cdq q (h-1); cdq (it (pure { ED.div q (h-1) })) 2
predicate obok (o : r_obstacle) = 0 <= o.obstacle_x <= 16384 /\ 0 <= o.obstacle_y <= 16384 /\ -1024 <= o.obstacle_dx <= 1024 /\ -1024 <= o.obstacle_dy <= 1024
let ghost dt (d t : int) : unit requires { -1024 <= d <= 1024 /\ 0 <= t <= 1048576 } ensures { -1073741824 <= d * t <= 1073741824 } = assert { d * t <= 1024 * t /\ - 1024 * t <= d * t }
predicate obs (m : map int r_obstacle) (n : int) = forall i:int [m[i]]. 0 <= i < n -> obok m[i]
function oloc (o : r_obstacle) (w h t : int) : int
predicate use_l (o : r_obstacle) (w h t : int)
axiom oloc_def : forall o:r_obstacle, w h t:int [use_l o w h t]. use_l o w h t /\ oloc o w h t = py o h t * w + px o w t
let ghost oloc_in (o : r_obstacle) (w h t : int) : unit requires { 2 <= w <= 16384 /\ 2 <= h <= 16384 } ensures { oloc o w h t = py o h t * w + px o w t /\ 0 <= oloc o w h t < w * h /\ w * h <= 268435456 /\ 0 <= py o h t < h /\ 0 <= px o w t < w /\ 0 <= py o h t * w <= 268435456 }
= assert { use_l o w h t /\ use_x o w t /\ use_y o h t }; wave_range (it (pure { o.obstacle_x + o.obstacle_dx * t })) (w-1); wave_range (it (pure { o.obstacle_y + o.obstacle_dy * t })) (h-1); rc (it (pure { px o w t })) (it (pure { py o h t })) w; cell (it (pure { oloc o w h t })) w h; mul_bound w h; mul_bound (it (pure { py o h t })) w
let ghost ix (x y w : int) : unit requires { 0 <= x < 16384 /\ 0 <= y < 16384 /\ 2 <= w <= 16384 } ensures { to_u32 (to_i32 (w_u32 (w_u32 (to_u32 y * w) + to_u32 x))) = y * w + x /\ to_u32 y = y /\ to_u32 x = x /\ to_i32 x = x /\ to_i32 y = y /\ to_i32 (w_u32 (w_u32 (to_u32 y * w) + to_u32 x)) = y * w + x }
= mul_bound y w; assert { to_u32 y = y /\ to_u32 x = x }; assert { w_u32 (y * w) = y * w }
predicate gridok (w h sz : int) (v : vec_obstacle) = 2 <= w <= 16384 /\ 2 <= h <= 16384 /\ sz = w * h /\ obs v.dat_obstacle v.len_obstacle /\ 0 <= v.len_obstacle
(* a step or a rest *)
predicate moveok (m : r_move) (w : int) = -1 <= m.move_dx <= 1 /\ -1 <= m.move_dy <= 1 /\ (m.move_dx = 0 \/ m.move_dy = 0) /\ m.move_delta = m.move_dx + w * m.move_dy /\ m.move_cost = 1.0 /\ m.move_n = 1 /\ m.move_chk[0].anon_chk_delta = m.move_delta
predicate at_ (m : map int r_move) (n k dx dy : int) = k < n /\ m[k].move_dx = dx /\ m[k].move_dy = dy
predicate has (m : map int r_move) (n dx dy : int) = at_ m n 0 dx dy \/ at_ m n 1 dx dy \/ at_ m n 2 dx dy \/ at_ m n 3 dx dy \/ at_ m n 4 dx dy
predicate moves (m : map int r_move) (n w : int) = n = 5 /\ has m n 0 0 /\ has m n 1 0 /\ has m n (-1) 0 /\ has m n 0 1 /\ has m n 0 (-1) /\ (forall i:int [m[i]]. 0 <= i < n -> moveok m[i] w)
let ghost moves_use (m : map int r_move) (n w i : int) : unit requires { moves m n w /\ 0 <= i < n } ensures { moveok m[i] w } = assert { let x = m[i] in moveok x w }
let ghost step (i w h dx dy : int) : unit requires { 2 <= w <= 16384 /\ 2 <= h <= 16384 /\ inside i w h /\ 0 <= col i w + dx < w /\ 0 <= row i w + dy < h }
  ensures { row (i + (dx + w * dy)) w = row i w + dy /\ col (i + (dx + w * dy)) w = col i w + dx /\ 0 <= i < w * h /\ 0 <= i + (dx + w * dy) < w * h /\ (row i w + dy) * w + (col i w + dx) = i + (dx + w * dy) }
= cell i w h; rc (col i w + dx) (row i w + dy) w; assert { (row i w + dy) * w + (col i w + dx) = i + (dx + w * dy) }; cell (i + (dx + w * dy)) w h
(* a move does not leave the map and does not change places with an obstacle *)
predicate stays (m : r_move) (l w h : int) = 0 <= col l w + m.move_dx < w /\ 0 <= row l w + m.move_dy < h
predicate swaps (o : r_obstacle) (l l2 t w h : int)
axiom swaps_def : forall o:r_obstacle, l l2 t w h:int [swaps o l l2 t w h]. swaps o l l2 t w h <-> l = oloc o w h t /\ l2 = oloc o w h (t-1)
predicate noswap (v : vec_obstacle) (n l l2 t w h : int) = forall k:int [v.dat_obstacle[k]]. 0 <= k < n -> not (swaps v.dat_obstacle[k] l l2 t w h)
predicate legal (v : vec_obstacle) (m : r_move) (l t w h : int) = stays m l w h /\ noswap v v.len_obstacle l (l + m.move_delta) t w h
let ghost noswap_ext (v : vec_obstacle) (n l l2 t w h : int) : unit ensures { noswap v n l l2 t w h /\ not (swaps v.dat_obstacle[n] l l2 t w h) -> noswap v (n+1) l l2 t w h } ensures { 0 <= n < v.len_obstacle /\ swaps v.dat_obstacle[n] l l2 t w h -> not (noswap v v.len_obstacle l l2 t w h) } = ()
predicate hit1 (o : r_obstacle) (l t w h : int) = oloc o w h t = l
predicate clear (v : vec_obstacle) (n l t w h : int) = forall k:int [v.dat_obstacle[k]]. 0 <= k < n -> not (hit1 v.dat_obstacle[k] l t w h)
function after (v : vec_obstacle) (l t w h s : int) : int
predicate use_after (l : int)
axiom after_def : forall v:vec_obstacle, l t w h s:int [after v l t w h s, use_after l]. after v l t w h s = if clear v v.len_obstacle l t w h then l else s
axiom use_after_true : forall l:int [use_after l]. use_after l
let ghost after_cases (v : vec_obstacle) (l t w h s : int) : unit ensures { after v l t w h s = l \/ after v l t w h s = s } = assert { use_after l }
(* the heuristic *)
function man (a b w : int) : int = iabs (col a w - col b w) + iabs (row a w - row b w)
function hh (a s g w : int) : int = imin (man a g w) (man s g w + 1)
function cv (u q : int) : real
predicate use_cv (u q : int)
axiom cv_def : forall u q:int [use_cv u q]. use_cv u q /\ cv u q = from_int u +. from_int q *. r2
predicate costok (c : r_cost) (u q : int) = c.cost_units = u /\ c.cost_sqrts = q /\ c.cost_v_val = cv u q
let ghost cv_le (u v : int) : unit requires { u <= v } ensures { cv u 0 <=. cv v 0 } = assert { use_cv u 0 }; assert { use_cv v 0 }
let ghost cv_00 () : unit ensures { cv 0 0 = 0.0 } = assert { use_cv 0 0 }
'''
MP = lambda d: d + '.gn_map'
def D(d):
    m = MP(d)
    return ('%s <> 0 /\\ gridok !gm_w[%s] !gm_h[%s] !gm_sz[%s] !gm_obstacles[%s] /\\ moves !gm_mvs[%s] !gm_nmvs[%s] !gm_w[%s] /\\ inside D.gn_start !gm_w[%s] !gm_h[%s] /\\ inside D.gn_finish !gm_w[%s] !gm_h[%s]' % ((m,) * 12)).replace('D.', d + '.')
W, H, OB = '!gm_w[@d.gn_map]', '!gm_h[@d.gn_map]', '!gm_obstacles[@d.gn_map]'
TW, TH = W.replace('@d', '@this'), H.replace('@d', '@this')
I = lambda l: 'inside %s %s %s' % (l, W, H)
T = '0 <= @s.state_t < 1048576'
HC = lambda c, l, d: 'costok %s (hh %s %s.gn_start %s.gn_finish !gm_w[%s.gn_map]) 0' % (c, l, d, d, d)
HS = lambda s, d: '(%s.state_d >= 0 -> %s)' % (s, HC(s + '.state_h', s + '.state_loc', d))
MV = '!gm_mvs[@d.gn_map][%s]'
LEGAL = ('a legal move', '0 <= @op < !gm_nmvs[@d.gn_map] /\\ legal %s %s @s.state_loc (@s.state_t + 1) %s %s' % (OB, MV % '@op', W, H))
LOC2 = '(@s.state_loc + %s.move_delta)' % (MV % '@op')
HIT = '(not (clear %s %s.len_obstacle %s (@s.state_t + 1) %s %s))' % (OB, OB, LOC2, W, H)
P = lambda *a: ' '.join('(it (pure { %s }))' % x for x in a)
OBSB = lambda v, i, t: 'let g_o = it (pure { %s.dat_obstacle[%s] }) in assert { obok g_o }; oloc_in g_o %s; ' % (v, i, t)
def CELLS(d, s):
    a = P('!gm_w[%s.gn_map]' % d, '!gm_h[%s.gn_map]' % d)
    return 'cell %s %s; cell %s %s; cell %s %s;' % (P(s + '.state_loc'), a, P(d + '.gn_start'), a, P(d + '.gn_finish'), a)
import re
def X(t):
    if isinstance(t, tuple): return tuple(X(x) for x in t)
    if not isinstance(t, str): return t
    t = t.replace('AFTER', '(after OB LOC2 (@s.state_t + 1) W H @d.gn_start)').replace('not HIT', 'clear OB OB.len_obstacle LOC2 (@s.state_t + 1) W H').replace('HIT', '(not (clear OB OB.len_obstacle LOC2 (@s.state_t + 1) W H))').replace('LOC2', LOC2)
    t = re.sub(r'MV (.*?) VM', r'!gm_mvs[@d.gn_map][\1]', t)
    return re.sub(r'\b(OB|W|H|TW|TH)\b', lambda m: dict(OB=OB, W=W, H=H, TW=TW, TH=TH)[m.group(1)], t)
UNITS = [Unit('traffic', '/verif/drivers/traffic.cc', prelude=PRE, heap={'GridMap': 'gm_'}, prefix={'Traffic': 'gn_'}, owned=('GridMap::obstacles',), state='val opidx : ref (map int int)\n', contracts=[
 F('GridMap::Move::Move', ['m','nme','deltax','deltay','num'], sig=None, nparams=5, cfg=dict(va=True),
   req=['-1 <= @deltax <= 1 /\\ -1 <= @deltay <= 1 /\\ (@deltax = 0 \\/ @deltay = 0)', '@num = 0 /\\ vac = 0', '2 <= !gm_w[@m] <= 16384'],
   ens=[('a move to the neighbour', 'moveok @this !gm_w[@m]'), ('in the given direction', '@this.move_dx = @deltax /\\ @this.move_dy = @deltay')],
   loops={0: Loop(['@i = 1', '@this.move_n = 1', '@this.move_dx = @deltax /\\ @this.move_dy = @deltay /\\ @this.move_delta = @deltax + !gm_w[@m] * @deltay', '@this.move_cost = 1.0', '@this.move_chk[0].anon_chk_delta = @this.move_delta'], '1 - @i')},
   hooks={'entry': 'fits %s @deltax @deltay;' % P('!gm_w[@m]')}),
 F('GridMap::setfourway', [], req=['@this <> 0', '2 <= !gm_w[@this] <= 16384'], ens=[('four steps and a rest', 'moves !gm_mvs[@this] !gm_nmvs[@this] !gm_w[@this]'), 'forall x:int. x <> @this -> !gm_mvs[x] = old !gm_mvs[x] /\\ !gm_nmvs[x] = old !gm_nmvs[x]']),
 F('GridMap::Obstacle::positionAt', ['w','h','t'], req=['obok @this', '2 <= @w <= 16384 /\\ 2 <= @h <= 16384', '0 <= @t <= 1048576'],
   ens=[('back and forth along the row', 'result.fst_ii = px @this @w @t'), ('back and forth along the column', 'result.snd_ii = py @this @h @t'), ('on the map', '0 <= result.fst_ii < @w /\\ 0 <= result.snd_ii < @h'), ('again after each full trip', 'px @this @w (@t + 2 * (@w - 1)) = px @this @w @t /\\ py @this @h (@t + 2 * (@h - 1)) = py @this @h @t')],
   hooks={'entry': 'dt %s; dt %s; periodic @this @w @h @t; pos @this @w @h @t; oloc_in @this @w @h @t;' % (P('@this.obstacle_dx', '@t'), P('@this.obstacle_dy', '@t'))}),
 F('GridMap::index', ['x','y'], req=['@this <> 0'], ens=[('row by row', '0 <= @x < 16384 /\\ 0 <= @y < 16384 /\\ 2 <= !gm_w[@this] <= 16384 -> result = @y * !gm_w[@this] + @x')], hooks={'entry': '(if it (pure { if 0 <= @x < 16384 /\\ 0 <= @y < 16384 /\\ 2 <= !gm_w[@this] <= 16384 then True else False }) then ix %s);' % P('@x', '@y', '!gm_w[@this]')}),
 F('GridMap::ok', ['loc','t','m'], req=['@this <> 0', 'gridok !gm_w[@this] !gm_h[@this] !gm_sz[@this] !gm_obstacles[@this]', 'moveok @m !gm_w[@this]', 'inside @loc !gm_w[@this] !gm_h[@this]', '1 <= @t <= 1048576'],
   ens=[('the move is legal', 'result = True <-> legal !gm_obstacles[@this] @m @loc @t !gm_w[@this] !gm_h[@this]'), '@m = old @m'],
   loops={0: Loop(['stays @m @loc !gm_w[@this] !gm_h[@this]', 'noswap !gm_obstacles[@this] @range_i @loc (@loc + @m.move_delta) @t !gm_w[@this] !gm_h[@this]'], '!gm_obstacles[@this].len_obstacle - @range_i', before='step %s; mul_bound %s;' % (P('@loc', '!gm_w[@this]', '!gm_h[@this]', '@m.move_dx', '@m.move_dy'), P('!gm_w[@this]', '!gm_h[@this]')) + 'ix %s; assert { @nextLocation = @loc + @m.move_delta /\\ @currentLocation = @loc };' % P('@newX', '@newY', '!gm_w[@this]'), end='assert { not (swaps (!gm_obstacles[@this].dat_obstacle[@range_i]) @loc (@loc + @m.move_delta) @t !gm_w[@this] !gm_h[@this]) };', begin=OBSB('!gm_obstacles[@this]', '@range_i', P('!gm_w[@this]', '!gm_h[@this]', '@t - 1') + '; oloc_in g_o ' + P('!gm_w[@this]', '!gm_h[@this]', '@t') + '; noswap_ext ' + P('!gm_obstacles[@this]', '@range_i', '@loc', '@loc + @m.move_delta', '@t', '!gm_w[@this]', '!gm_h[@this]'))),
          1: Loop(['0 <= @i <= 1'], '1 - @i')},
   hooks={'after:positionAt#%d' % k: 'ix %s; assert { @callres.snd_ii * !gm_w[@this] + @callres.fst_ii = oloc (!gm_obstacles[@this].dat_obstacle[@range_i]) !gm_w[@this] !gm_h[@this] %s };' % (P('@callres.fst_ii', '@callres.snd_ii', '!gm_w[@this]'), tt) for k, tt in ((0, '(@t - 1)'), (1, '@t'))}),

 F('Traffic::Traffic', ['m','x0','y0','x1','y1'], nparams=5, req=['@m <> 0', 'gridok !gm_w[@m] !gm_h[@m] !gm_sz[@m] !gm_obstacles[@m]', 'moves !gm_mvs[@m] !gm_nmvs[@m] !gm_w[@m]', '0 <= @x0 < !gm_w[@m] /\\ 0 <= @x1 < !gm_w[@m] /\\ 0 <= @y0 < !gm_h[@m] /\\ 0 <= @y1 < !gm_h[@m]'],
   ens=[('a domain', D('@this')), '@this.gn_map = @m', ('from the given cell', 'row @this.gn_start !gm_w[@m] = @y0 /\\ col @this.gn_start !gm_w[@m] = @x0'), ('to the given cell', 'row @this.gn_finish !gm_w[@m] = @y1 /\\ col @this.gn_finish !gm_w[@m] = @x1')],
   hooks={'entry': 'rc @x0 @y0 A; rc @x1 @y1 A; cell (it (pure { @y0 * !gm_w[@m] + @x0 })) A B; cell (it (pure { @y1 * !gm_w[@m] + @x1 })) A B; mul_bound A B;'.replace('A', P('!gm_w[@m]')).replace('B', P('!gm_h[@m]'))}),
 F('Traffic::initialstate', [], cfg=dict(this_const=True), ens=[('the start at time zero, with no heuristic yet', 'result.state_loc = @this.gn_start /\\ result.state_t = 0 /\\ result.state_d = -1')]),
 F('Traffic::Cost::compute', [], ens=[('the value of the cost', 'costok @this @this.cost_units @this.cost_sqrts'), '@this.cost_units = old @this.cost_units /\\ @this.cost_sqrts = old @this.cost_sqrts'], hooks={'entry': 'assert { use_cv @this.cost_units @this.cost_sqrts };'}),
 F('Traffic::Cost::Cost', ['u', 's'], nparams=2, sig='void (int, int)', ens=[('the value of the cost', 'costok @this @u @s')]),
 F('Traffic::Operators::Operators', ['d', 's'], req=[D('@d'), I('@s.state_loc'), T],
   ens=[('only legal moves', '0 <= @this.operators_n <= !gm_nmvs[@d.gn_map] /\\ forall k:int [@this.operators_ops[k]]. 0 <= k < @this.operators_n -> 0 <= @this.operators_ops[k] < !gm_nmvs[@d.gn_map] /\\ legal OB (MV @this.operators_ops[k] VM) @s.state_loc (@s.state_t + 1) W H'),
        ('all of the legal moves', 'forall i:int [!opidx[i]]. 0 <= i < !gm_nmvs[@d.gn_map] -> legal OB (MV i VM) @s.state_loc (@s.state_t + 1) W H -> 0 <= !opidx[i] < @this.operators_n /\\ @this.operators_ops[!opidx[i]] = i'), '!gm_mvs = old !gm_mvs'],
   loops={0: Loop(['0 <= @i <= !gm_nmvs[@d.gn_map]', '!gm_mvs = old !gm_mvs', '0 <= @this.operators_n <= @i', 'forall k:int [@this.operators_ops[k]]. 0 <= k < @this.operators_n -> 0 <= @this.operators_ops[k] < !gm_nmvs[@d.gn_map] /\\ legal OB (MV @this.operators_ops[k] VM) @s.state_loc (@s.state_t + 1) W H',
      'forall i:int [!opidx[i]]. 0 <= i < @i -> legal OB (MV i VM) @s.state_loc (@s.state_t + 1) W H -> 0 <= !opidx[i] < @this.operators_n /\\ @this.operators_ops[!opidx[i]] = i'], '!gm_nmvs[@d.gn_map] - @i',
      begin='opidx := it (pure { (!opidx)[@i <- @this.operators_n] }); moves_use %s;' % P('!gm_mvs[@d.gn_map]','!gm_nmvs[@d.gn_map]','W','@i'))}),
 F('opat', ['d', 's', 'i'], req=[D('@d'), I('@s.state_loc'), T], ens=[('a legal move to a cell of the map', 'result <> -1 -> 0 <= result < !gm_nmvs[@d.gn_map] /\\ legal OB (MV result VM) @s.state_loc (@s.state_t + 1) W H'), '!gm_mvs = old !gm_mvs']),
 F('Traffic::manhattan', ['l0', 'l1'], req=['@this.gn_map <> 0 /\\ 2 <= TW <= 16384 /\\ 2 <= TH <= 16384 /\\ inside @l0 TW TH /\\ inside @l1 TW TH'], ens=[('grid distance', 'result = man @l0 @l1 TW')], hooks={'entry': 'cell @l0 A B; cell @l1 A B; mul_bound A B;'.replace('A', P(TW)).replace('B', P(TH))}),
 F('Traffic::computeh', ['s'], req=[D('@this'), I('@s.state_loc').replace('@d', '@this'), HS('@s', '@this')], ens=[('the heuristic of the cell', HS('@s', '@this')), '0 <= @s.state_d', '@s.state_loc = old @s.state_loc /\\ @s.state_t = old @s.state_t'], hooks={'entry': CELLS('@this', '@s')}),
 F('hof', ['d', 's'], req=[D('@d'), I('@s.state_loc'), HS('@s', '@d')], ens=[('the remaining grid distance, or that from the start after a collision', HC('result', '@s.state_loc', '@d')), ('zero at the goal', '@s.state_loc = @d.gn_finish -> result.cost_v_val = 0.0')], hooks={'entry': 'cv_00 ();'}),
 F('goal', ['d', 's'], ens=[('the goal is the target cell', 'result = True <-> @s.state_loc = @d.gn_finish')]),
 F('init', ['d'], ens=[('the start at time zero', 'result.state_loc = @d.gn_start /\\ result.state_t = 0 /\\ result.state_d = -1')]),
 F('Traffic::Edge::Edge', ['d', 's', 'op'], req=[D('@d'), I('@s.state_loc'), T, LEGAL],
   ens=[('time advances by one and the cell is the neighbour, when no obstacle arrives there', 'not HIT -> @this.edge_state.state_loc = @s.state_loc + (MV @op VM).move_delta /\\ @this.edge_state.state_t = @s.state_t + 1 /\\ @this.edge_state.state_d = -1 /\\ ' + I('@this.edge_state.state_loc')),
        ('the cell reached', '@this.edge_state.state_loc = AFTER'), ('off the obstacles', 'not HIT -> clear OB OB.len_obstacle @this.edge_state.state_loc @this.edge_state.state_t W H'),
        ('back at the start after a collision', 'HIT -> @this.edge_state.state_loc = @d.gn_start /\\ @this.edge_state.state_t = 0 /\\ @this.edge_state.state_d = -1'),
        ('no reverse', '@this.edge_revop = -1'), ('a move costs one', 'costok @this.edge_cost 1 0'), '@s = old @s'],
   hooks={'entry': 'assert { use_after LOC2 }; let g_m = it (pure { MV @op VM }) in assert { moveok g_m W }; step %s; mul_bound %s; cell %s; ' % (P('@s.state_loc', W, H, 'g_m.move_dx', 'g_m.move_dy'), P(W, H), P('@d.gn_start', W, H))},
   loops={0: Loop(['clear OB @range_i @newLoc @newT W H', '@teleport = False'], 'OB.len_obstacle - @range_i', begin=OBSB(OB, '@range_i', P(W, H, '@newT')))}),
 F('hafter', ['d', 's', 'op'], req=[D('@d'), I('@s.state_loc'), T, LEGAL], ens=[('the cost of the move and the heuristic after it', 'costok result (1 + hh AFTER @d.gn_start @d.gn_finish W) 0')], hooks={'entry': 'let g_m = it (pure { MV @op VM }) in assert { moveok g_m W }; step %s; ' % P('@s.state_loc', W, H, 'g_m.move_dx', 'g_m.move_dy') + 'after_cases %s; ' % P('OB', 'LOC2', '@s.state_t + 1', 'W', 'H', '@d.gn_start') + '' + CELLS('@d', '@s')}),
 F('consistent', ['d', 's', 'op'], req=[D('@d'), I('@s.state_loc'), T, LEGAL, HS('@s', '@d')], ens=[('the heuristic never drops by more than the cost of the move', 'result = True')],
   hooks={'entry': 'let g_m = it (pure { MV @op VM }) in let g_a = it (pure { @s.state_loc }) in assert { moveok g_m W }; step %s; let g_b = it (pure { g_a + g_m.move_delta }) in assert { man g_a @d.gn_finish W <= man g_b @d.gn_finish W + 1 }; let g_x = it (pure { AFTER }) in after_cases (it (pure { OB })) (it (pure { LOC2 })) (it (pure { @s.state_t + 1 })) (it (pure { W })) (it (pure { H })) (it (pure { @d.gn_start })); let g_h0 = it (pure { hh g_a @d.gn_start @d.gn_finish W }) in let g_h1 = it (pure { hh g_x @d.gn_start @d.gn_finish W }) in assert { g_h0 <= 1 + g_h1 }; cv_le g_h0 (it (pure { 1 + g_h1 }));' % P('@s.state_loc', W, H, 'g_m.move_dx', 'g_m.move_dy') + CELLS('@d', '@s')}),
 F('roundtrip', ['d', 's'], ens=[('the state survives packing', 'result.state_loc = @s.state_loc /\\ result.state_t = @s.state_t /\\ result.state_d = -1')]),
 F('samepacked', ['d', 's', 't'], ens=[('equal exactly for the same cell and time', 'result = True <-> @s.state_loc = @t.state_loc /\\ @s.state_t = @t.state_t')]),
 F('samehash', ['d', 's', 't'], ens=[('equal states hash alike', '@s.state_loc = @t.state_loc /\\ @s.state_t = @t.state_t -> result = True')]),
])]
for _u in UNITS:
    for _f in _u.contracts:
        _f.req, _f.ens = [X(x) for x in _f.req], [X(x) for x in _f.ens]
        _f.hooks = {k: X(v) for k, v in _f.hooks.items()}
        for _l in _f.loops.values():
            _l.inv = [X(x) for x in _l.inv]; _l.variant = X(_l.variant); _l.begin = X(_l.begin)
