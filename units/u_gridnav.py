"""C18: grid navigation (gridnav/): maps, moves, reverse moves and heuristics for 4-way, 8-way and octile movement, unit and life costs."""
from tr import Unit, F, Loop
PRE = r'''
axiom map_use : forall m:map int int, i:int [m[i]]. (m[i <- 0])[i] = 0
function f_sqrt (x : real) : real
constant r2 : real
axiom r2_def : f_sqrt 2.0 = r2 /\ 1.4 <=. r2 <=. 1.5
axiom and_flags : bw_and 2 6 <> 0 /\ bw_and 1 6 = 0 /\ bw_or 2 4 = 6 /\ bw_or 1 8 = 9
function iabs (x : int) : int = if x >= 0 then x else - x
function imin (x y : int) : int = if x <= y then x else y
function imax (x y : int) : int = if x <= y then y else x
(* the cells: row and column *)
function row (i w : int) : int = ED.div i w
function col (i w : int) : int = ED.mod i w
let ghost rc (x y w : int) : unit requires { 0 <= x < w } ensures { row (y * w + x) w = y /\ col (y * w + x) w = x }
= let i = y * w + x in assert { i = w * ED.div i w + ED.mod i w /\ 0 <= ED.mod i w < w }; assert { w * (ED.div i w - y) = x - ED.mod i w };
  assert { ED.div i w > y -> w * (ED.div i w - y) >= w }; assert { ED.div i w < y -> w * (ED.div i w - y) <= - w }
let ghost cell (i w h : int) : unit requires { 0 < w /\ 0 <= row i w < h } ensures { i = row i w * w + col i w /\ 0 <= col i w < w /\ 0 <= i < w * h }
= assert { i = w * ED.div i w + ED.mod i w /\ 0 <= ED.mod i w < w }; assert { w * row i w <= w * (h - 1) }; assert { 0 <= w * row i w }
let ghost cell2 (i w h : int) : unit requires { 0 < w /\ 0 <= i < w * h } ensures { 0 <= row i w < h }
= assert { i = w * ED.div i w + ED.mod i w /\ 0 <= ED.mod i w < w }; assert { row i w < 0 -> w * row i w <= - w }; assert { row i w >= h -> w * row i w >= w * h }
predicate at2 (i w x y : int) = row i w = y /\ col i w = x
predicate inside (i w h : int) = 1 <= row i w <= h - 2 /\ 1 <= col i w <= w - 2
let ghost step (i w h dx dy : int) : unit requires { 0 < w /\ inside i w h /\ -1 <= dx <= 1 /\ -1 <= dy <= 1 }
  ensures { row (i + (dx + w * dy)) w = row i w + dy /\ col (i + (dx + w * dy)) w = col i w + dx /\ 0 <= i < w * h /\ 0 <= i + (dx + w * dy) < w * h }
= cell i w h; rc (col i w + dx) (row i w + dy) w; assert { (row i w + dy) * w + (col i w + dx) = i + (dx + w * dy) }; cell (i + (dx + w * dy)) w h
let ghost opp (i w d1x d1y d2x d2y : int) : unit requires { d2x = - d1x /\ d2y = - d1y } ensures { i + (d1x + w * d1y) + (d2x + w * d2y) = i } = assert { w * d2y = - (w * d1y) }
(* flags of a cell one may enter from a cell with flags f *)
predicate enter (f g : int) = bw_and g 6 = 0 /\ (if bw_and f 16 <> 0 then bw_and g 16 <> 0 else bw_and g 9 <> 0)
predicate gridok (w h sz : int) (fl : veci) = 2 <= w <= 16384 /\ 2 <= h <= 16384 /\ sz = w * h /\ fl.len = sz /\
  (forall i:int [fl.dat[i]]. 0 <= i < sz -> 0 <= fl.dat[i] <= 31) /\ (forall i:int [fl.dat[i]]. 0 <= i < sz -> not (inside i w h) -> fl.dat[i] = 2)
(* a move to one of the eight neighbours and the cells it checks *)
predicate moveok (m : r_move) (w : int) = -1 <= m.move_dx <= 1 /\ -1 <= m.move_dy <= 1 /\ (m.move_dx <> 0 \/ m.move_dy <> 0) /\ m.move_delta = m.move_dx + w * m.move_dy /\
  m.move_cost = (if m.move_dx <> 0 /\ m.move_dy <> 0 then r2 else 1.0) /\ 1 <= m.move_n <= 3 /\ m.move_chk[0].anon_chk_delta = m.move_delta /\
  (forall k:int [m.move_chk[k].anon_chk_delta]. 0 <= k < m.move_n -> m.move_chk[k].anon_chk_delta = m.move_chk[k].anon_chk_dx + w * m.move_chk[k].anon_chk_dy /\ -1 <= m.move_chk[k].anon_chk_dx <= 1 /\ -1 <= m.move_chk[k].anon_chk_dy <= 1)
predicate at_ (m : map int r_move) (n k dx dy : int) = k < n /\ m[k].move_dx = dx /\ m[k].move_dy = dy
predicate has (m : map int r_move) (n dx dy : int) = at_ m n 0 dx dy \/ at_ m n 1 dx dy \/ at_ m n 2 dx dy \/ at_ m n 3 dx dy \/ at_ m n 4 dx dy \/ at_ m n 5 dx dy \/ at_ m n 6 dx dy \/ at_ m n 7 dx dy
predicate moves (m : map int r_move) (n w : int) = (n = 4 \/ n = 8) /\ (forall i:int [m[i]]. 0 <= i < n -> moveok m[i] w /\ has m n (- m[i].move_dx) (- m[i].move_dy) /\ (n = 4 -> m[i].move_dx = 0 \/ m[i].move_dy = 0))
predicate straight (m : map int r_move) (n : int) = has m n 1 0 /\ has m n (-1) 0 /\ has m n 0 1 /\ has m n 0 (-1)
predicate diagonal (m : map int r_move) (n : int) = has m n 1 1 /\ has m n (-1) 1 /\ has m n 1 (-1) /\ has m n (-1) (-1)
(* does the move check both cells beside a diagonal? *)
predicate nocut1 (m : r_move) (w : int) = m.move_dx <> 0 /\ m.move_dy <> 0 -> m.move_n = 3 /\ ((m.move_chk[1].anon_chk_delta = m.move_dx /\ m.move_chk[2].anon_chk_delta = w * m.move_dy) \/ (m.move_chk[2].anon_chk_delta = m.move_dx /\ m.move_chk[1].anon_chk_delta = w * m.move_dy))
predicate nocut (m : map int r_move) (n w : int) = forall i:int [m[i]]. 0 <= i < n -> nocut1 m[i] w
predicate legal (fl : veci) (m : r_move) (l : int) = forall k:int [m.move_chk[k].anon_chk_delta]. 0 <= k < m.move_n -> enter fl.dat[l] fl.dat[l + m.move_chk[k].anon_chk_delta]
let ghost legal_use (fl : veci) (m : r_move) (l w h : int) : unit requires { gridok w h (w * h) fl /\ moveok m w /\ inside l w h /\ legal fl m l } ensures { inside (l + m.move_delta) w h /\ enter fl.dat[l] fl.dat[l + m.move_delta] }
= step l w h m.move_dx m.move_dy; assert { enter fl.dat[l] fl.dat[l + m.move_chk[0].anon_chk_delta] }
predicate revs (r : map int int) (m : map int r_move) (n : int) = forall i:int [r[i]]. 0 <= i < n -> 0 <= r[i] < n /\ m[r[i]].move_dx = - m[i].move_dx /\ m[r[i]].move_dy = - m[i].move_dy
(* 1 + 2 + ... + n *)
function tri int : int
axiom tri_0 : tri 0 = 0 /\ tri (-1) = 0
axiom tri_s : forall n:int [tri n]. n >= 0 -> tri n = tri (n-1) + n
let rec ghost tri_eq (n : int) : unit requires { n >= -1 } ensures { 2 * tri n = n * (n + 1) /\ tri n >= 0 } variant { n } = if n > 0 then tri_eq (n-1)
let rec ghost tri_le (a b : int) : unit requires { -1 <= a <= b } ensures { tri a <= tri b } variant { b - a } = if a < b then tri_le a (b-1)
(* cost of moving vertically from a row where moves cost u to one where they cost v *)
function vc (u v : int) : int = if u >= v then tri u - tri v else tri (v-1) - tri (u-1)
let ghost vc_sum (u v : int) : unit requires { 0 <= u <= 16384 /\ 0 <= v <= 16384 }
  ensures { u > v -> (u + (v+1)) * (u-v) = 2 * vc u v } ensures { u < v -> (u + (v-1)) * (v-u) = 2 * vc u v } ensures { 0 <= vc u v <= 134225920 } ensures { u = v -> vc u v = 0 }
= tri_eq u; tri_eq v; tri_eq (u-1); tri_eq (v-1); tri_eq 16384; tri_le u 16384; tri_le (v-1) 16384; (if u >= v then tri_le v u else tri_le (u-1) (v-1))
let ghost half (x y : int) : unit requires { x = 2 * y /\ 0 <= y } ensures { CD.div x 2 = y } = ()
let ghost cded (x : int) : unit requires { x >= 0 } ensures { CD.div x 2 = ED.div x 2 } = ()
let ghost sum2 (a b n u v : int) : unit requires { 0 <= u <= 16384 /\ 0 <= v <= 16384 /\ a = u /\ ((u > v /\ b = v + 1 /\ n = u - v) \/ (u < v /\ b = v - 1 /\ n = v - u) \/ (u = v /\ n = 0)) }
  ensures { (a + b) * n = 2 * vc u v /\ 0 <= vc u v <= 134225920 /\ CD.div ((a + b) * n) 2 = vc u v } = vc_sum u v; assert { (a + b) * n = 2 * vc u v }; half (it (pure { (a + b) * n })) (it (pure { vc u v }))
let ghost mul_eq (a b c d : int) : unit requires { a = c /\ b = d } ensures { a * b = c * d } = ()
let ghost mul_bound (a b : int) : unit requires { 0 <= a <= 16384 /\ 0 <= b <= 16384 } ensures { 0 <= a * b <= 268435456 } = assert { a * b <= 16384 * b }
let ghost pmul (a b m : int) : unit requires { a <= b /\ 0 <= m } ensures { a * m <= b * m } = ()
(* four-way life cost by way of the row where moves cost m *)
function f4 (u g dx m : int) : int
predicate open4 (u g dx m : int)
axiom f4_def : forall u g dx m:int [open4 u g dx m]. open4 u g dx m /\ f4 u g dx m = dx * m + vc u m + vc m g
function h4 (u g dx : int) : int = imin (f4 u g dx (imin u g)) (f4 u g dx 0)
let ghost f4_step (u g dx m : int) : unit requires { 1 <= m <= imin u g } ensures { f4 u g dx (m-1) = f4 u g dx m + 2 * m - 1 - dx } = assert { open4 u g dx (m-1) /\ open4 u g dx m }; assert { dx * (m-1) = dx * m - dx }; assert { vc u (m-1) = vc u m + m /\ vc (m-1) g = vc m g + m - 1 }
let rec ghost f4_up (u g dx m : int) : unit requires { 0 <= m <= imin u g /\ 2 * m + 1 - dx >= 0 } ensures { f4 u g dx m >= f4 u g dx (imin u g) } variant { imin u g - m }
= if m < imin u g then begin f4_step u g dx (m+1); f4_up u g dx (m+1) end
let rec ghost f4_down (u g dx m : int) : unit requires { 0 <= m <= imin u g /\ 2 * m - 1 - dx <= 0 } ensures { f4 u g dx m >= f4 u g dx 0 } variant { m }
= if m > 0 then begin f4_step u g dx m; f4_down u g dx (m-1) end
let ghost h4_le (u g dx m : int) : unit requires { 0 <= m <= imin u g } ensures { h4 u g dx <= f4 u g dx m } = if 2 * m + 1 - dx >= 0 then f4_up u g dx m else f4_down u g dx m
let ghost f4_move (u g dx u2 dx2 m : int) : unit requires { 0 <= u /\ 0 <= g /\ 0 <= u2 /\ 0 <= dx /\ 0 <= dx2 /\ 0 <= m <= imin u2 g /\ ((u2 = u /\ dx <= dx2 + 1) \/ (dx2 = dx /\ -1 <= u2 - u <= 1)) }
  ensures { h4 u g dx <= u + f4 u2 g dx2 m }
= assert { open4 u2 g dx2 m }; if m <= u then begin h4_le u g dx m; assert { open4 u g dx m }; (if u2 = u then begin pmul dx (dx2 + 1) m; assert { dx * m <= dx2 * m + m }; assert { vc u m = vc u2 m }; assert { f4 u g dx m <= u + f4 u2 g dx2 m } end else if u2 < u then begin assert { u2 = u - 1 }; assert { dx * m = dx2 * m }; assert { vc u m = u + vc u2 m }; assert { f4 u g dx m <= u + f4 u2 g dx2 m } end else begin assert { u2 = u + 1 /\ dx * m = dx2 * m }; assert { vc u2 m = u2 + vc u m }; assert { f4 u g dx m <= u + f4 u2 g dx2 m } end) end else begin h4_le u g dx u; assert { vc u u = 0 }; assert { open4 u g dx u }; pmul u m dx; assert { dx * u <= dx * m }; assert { m = u + 1 /\ u2 = m /\ dx2 = dx }; assert { vc u g = u + vc m g /\ vc u u = 0 /\ vc u2 m = 0 } end
let ghost h4_consistent (u g dx u2 dx2 : int) : unit requires { 0 <= u /\ 0 <= g /\ 0 <= u2 /\ 0 <= dx /\ 0 <= dx2 /\ ((u2 = u /\ dx <= dx2 + 1) \/ (dx2 = dx /\ -1 <= u2 - u <= 1)) } ensures { h4 u g dx <= u + h4 u2 g dx2 }
= f4_move u g dx u2 dx2 0; f4_move u g dx u2 dx2 (it (pure { imin u2 g }))
(* eight-way life cost by way of the row where moves cost m *)
function across (u g dx m : int) : int = imax 0 (dx - (u - m) - (g - m))
function f8 (u g dx m : int) : int
predicate open8 (u g dx m : int)
axiom f8_def : forall u g dx m:int [open8 u g dx m]. open8 u g dx m /\ f8 u g dx m = vc u m + vc m g + across u g dx m * m
function m8 (u g dx : int) : int = if dx <= iabs (u - g) then imin u g else imin u g - imin (imin u g) (ED.div (dx - iabs (u - g)) 2)
function h8 (u g dx : int) : int = f8 u g dx (m8 u g dx)
let ghost f8_step (u g dx m : int) : unit requires { 1 <= m <= imin u g }
  ensures { dx - (u - m) - (g - m) >= 2 -> f8 u g dx (m-1) <= f8 u g dx m } ensures { dx - (u - m) - (g - m) <= 1 -> f8 u g dx (m-1) >= f8 u g dx m }
= assert { open8 u g dx (m-1) /\ open8 u g dx m }; assert { vc u (m-1) = vc u m + m /\ vc (m-1) g = vc m g + m - 1 }; let a = it (pure { across u g dx m }) in assert { a >= 2 -> across u g dx (m-1) = a - 2 }; assert { a <= 1 -> across u g dx (m-1) = 0 }; assert { (a-2) * (m-1) = a * m - a - 2 * m + 2 }; assert { a = 1 -> a * m = m }; assert { a = 0 -> a * m = 0 }
let rec ghost f8_above (u g dx m : int) : unit requires { 0 <= m8 u g dx <= m <= imin u g } ensures { h8 u g dx <= f8 u g dx m } variant { m }
= if it (pure { if m > m8 u g dx then True else False }) then begin f8_step u g dx m; f8_above u g dx (m-1) end
let rec ghost f8_below (u g dx m : int) : unit requires { 0 <= m <= m8 u g dx <= imin u g } ensures { h8 u g dx <= f8 u g dx m } variant { m8 u g dx - m }
= if it (pure { if m < m8 u g dx then True else False }) then begin f8_step u g dx (m+1); f8_below u g dx (m+1) end
let ghost m8_range (u g dx : int) : unit requires { 0 <= u /\ 0 <= g } ensures { 0 <= m8 u g dx <= imin u g } = ()
let ghost h8_le (u g dx m : int) : unit requires { 0 <= u /\ 0 <= g /\ 0 <= m <= imin u g } ensures { h8 u g dx <= f8 u g dx m } = if it (pure { if m >= m8 u g dx then True else False }) then f8_above u g dx m else f8_below u g dx m
let ghost f8_move (u g dx u2 dx2 m : int) : unit requires { 0 <= u /\ 0 <= g /\ 0 <= u2 /\ 0 <= dx /\ 0 <= dx2 /\ 0 <= m <= imin u2 g /\ dx <= dx2 + 1 /\ -1 <= u2 - u <= 1 } ensures { h8 u g dx <= u + f8 u2 g dx2 m }
= assert { open8 u2 g dx2 m };
  if m <= u then begin
    h8_le u g dx m; assert { open8 u g dx m };
    let a = it (pure { across u g dx m }) in let b = it (pure { across u2 g dx2 m }) in
    if u2 = u then begin assert { a <= b + 1 }; pmul a (b+1) m; assert { a * m <= b * m + m }; assert { f8 u g dx m <= u + f8 u2 g dx2 m } end
    else if u2 < u then begin assert { a <= b }; pmul a b m; assert { vc u m = u + vc u2 m }; assert { f8 u g dx m <= u + f8 u2 g dx2 m } end
    else begin assert { a <= b + 2 }; pmul a (b+2) m; assert { a * m <= b * m + 2 * m }; assert { u2 = u + 1 }; assert { vc u2 m = u2 + vc u m }; assert { f8 u g dx m <= u + f8 u2 g dx2 m } end
  end else begin
    h8_le u g dx u; assert { open8 u g dx u }; assert { m = u + 1 /\ u2 = m }; assert { vc u g = u + vc m g /\ vc u u = 0 /\ vc u2 m = 0 };
    let a = it (pure { across u g dx u }) in let b = it (pure { across u2 g dx2 m }) in
    assert { a <= b }; pmul a b u; assert { b * m = b * u + b }; assert { f8 u g dx u <= u + f8 u2 g dx2 m } end
let ghost h8_consistent (u g dx u2 dx2 : int) : unit requires { 0 <= u /\ 0 <= g /\ 0 <= u2 /\ 0 <= dx /\ 0 <= dx2 /\ dx <= dx2 + 1 /\ -1 <= u2 - u <= 1 } ensures { h8 u g dx <= u + h8 u2 g dx2 }
= m8_range u2 g dx2; f8_move u g dx u2 dx2 (it (pure { m8 u2 g dx2 }))
(* the heuristic: units and diagonals *)
function ul (l w h : int) : int = h - 2 - row l w
function ddx (a b w : int) : int = iabs (col a w - col b w)
function ddy (a b w : int) : int = iabs (row a w - row b w)
function hu (n : int) (life : bool) (l g w h : int) : int =
  if n > 4 then (if life = True then h8 (ul l w h) (ul g w h) (ddx l g w) else imax (ddx l g w) (ddy l g w) - imin (ddx l g w) (ddy l g w))
  else if life = True then h4 (ul l w h) (ul g w h) (ddx l g w) else ddx l g w + ddy l g w
function hq (n : int) (life : bool) (l g w : int) : int = if n > 4 /\ life = False then imin (ddx l g w) (ddy l g w) else 0
function cv (u q : int) : real
predicate use_cv (u q : int)
axiom cv_def : forall u q:int [use_cv u q]. use_cv u q /\ cv u q = from_int u +. from_int q *. r2
predicate costok (c : r_cost) (u q : int) = c.cost_units = u /\ c.cost_sqrts = q /\ c.cost_v_val = cv u q
let ghost cv_00 () : unit ensures { cv 0 0 = 0.0 } = assert { use_cv 0 0 }
let ghost fits (w x y : int) : unit requires { 2 <= w <= 16384 /\ -1 <= x <= 1 /\ -1 <= y <= 1 } ensures { to_i32 (w_u32 (to_u32 x + w_u32 (w * to_u32 y))) = x + w * y }
= if y = 0 then () else if y = 1 then assert { w * to_u32 y = w } else begin assert { to_u32 y = 4294967295 }; assert { w_u32 (w * 4294967295) = 4294967296 - w } end
let ghost h_goal (u : int) : unit requires { 0 <= u } ensures { h4 u u 0 = 0 /\ h8 u u 0 = 0 }
= assert { open4 u u 0 u /\ open4 u u 0 0 /\ open8 u u 0 u }; tri_le 0 u; tri_le (-1) (u-1)
let ghost rmul (x : int) : unit requires { -2 <= x <= 1 } ensures { from_int x *. r2 = (if x = -2 then -. 2.0 *. r2 else if x = -1 then -. r2 else if x = 0 then 0.0 else r2) } = ()
let ghost diag_cost (a q a2 q2 : int) : unit requires { -1 <= q - q2 <= 1 /\ (a + q) - (a2 + q2) <= 1 }
  ensures { cv a q <=. cv a2 (q2 + 1) }
= assert { use_cv a q }; assert { use_cv a2 (q2 + 1) }; rmul (q - q2 - 1); assert { from_int q *. r2 = from_int (q2 + 1) *. r2 +. from_int (q - q2 - 1) *. r2 }
let ghost straight_cost (a q a2 q2 : int) : unit requires { -1 <= q - q2 <= 1 /\ (a + q) - (a2 + q2) <= 1 /\ (q <= q2 \/ a + q <= a2 + q2) }
  ensures { cv a q <=. cv (a2 + 1) q2 }
= assert { use_cv a q }; assert { use_cv (a2 + 1) q2 }; rmul (q - q2); assert { from_int q *. r2 = from_int q2 *. r2 +. from_int (q - q2) *. r2 }
let ghost life_cost (a u a2 : int) : unit requires { a <= u + a2 /\ 0 <= u } ensures { cv a 0 <=. cv (u + a2) 0 /\ cv a 0 <=. cv a2 u }
= assert { use_cv a 0 }; assert { use_cv (u + a2) 0 }; assert { use_cv a2 u }; assert { from_int u <=. from_int u *. r2 }
let ghost hu_bound (n : int) (life : bool) (a g w h : int) : unit requires { inside a w h /\ inside g w h /\ 2 <= w <= 16384 /\ 2 <= h <= 16384 }
  ensures { 0 <= hu n life a g w h <= 600000000 /\ 0 <= hq n life a g w <= 16384 }
= let u = it (pure { ul a w h }) in let v = it (pure { ul g w h }) in let x = it (pure { ddx a g w }) in let m = it (pure { imin u v }) in let k = it (pure { m8 u v x }) in m8_range u v x;
  vc_sum u m; vc_sum m v; vc_sum u 0; vc_sum 0 v; vc_sum u k; vc_sum k v; mul_bound x m; let c = it (pure { across u v x k }) in assert { 0 <= c <= 16384 }; mul_bound c k; assert { open4 u v x m /\ open4 u v x 0 /\ open8 u v x k }; assert { vc u m + vc m v = vc u v }; vc_sum u v
let ghost h_consistent (n : int) (life : bool) (a b g w h dx dy : int) : unit requires { (n = 4 \/ n = 8) /\ inside a w h /\ inside b w h /\ inside g w h /\ -1 <= dx <= 1 /\ -1 <= dy <= 1 /\ (dx <> 0 \/ dy <> 0) /\ (n = 4 -> dx = 0 \/ dy = 0) /\ row b w = row a w + dy /\ col b w = col a w + dx }
  ensures { let u = (if life = True then ul a w h else 1) in let dg = dx <> 0 /\ dy <> 0 in
    cv (hu n life a g w h) (hq n life a g w) <=. cv ((if dg then 0 else u) + hu n life b g w h) ((if dg then u else 0) + hq n life b g w) }
= let u = it (pure { ul a w h }) in let v = it (pure { ul b w h }) in let gu = it (pure { ul g w h }) in let xa = it (pure { ddx a g w }) in let xb = it (pure { ddx b g w }) in
  let ya = it (pure { ddy a g w }) in let yb = it (pure { ddy b g w }) in
  if n > 4 then begin
    if life then begin h8_consistent u gu xa v xb; assert { hu n life a g w h <= u + hu n life b g w h }; life_cost (it (pure { hu n life a g w h })) u (it (pure { hu n life b g w h })) end
    else begin
      let sa = it (pure { imin xa ya }) in let la = it (pure { imax xa ya }) in let sb = it (pure { imin xb yb }) in let lb = it (pure { imax xb yb }) in
      if dx <> 0 && dy <> 0 then diag_cost (la - sa) sa (lb - sb) sb else straight_cost (la - sa) sa (lb - sb) sb
    end
  end else if life then begin h4_consistent u gu xa v xb; assert { hu n life a g w h <= u + hu n life b g w h }; life_cost (it (pure { hu n life a g w h })) u (it (pure { hu n life b g w h })) end
  else straight_cost (it (pure { hu n life a g w h })) 0 (it (pure { hu n life b g w h })) 0
'''
G = lambda m: 'gridok !gm_w[%s] !gm_h[%s] !gm_sz[%s] !gm_flags[%s]' % (m, m, m, m)
MW, MH = '(it (pure { !gm_w[@m] }))', '(it (pure { !gm_h[@m] }))'
RV = 'forall k:int [@this.gn_rev[k]]. 0 <= k < @i -> 0 <= @this.gn_rev[k] < !gm_nmvs[@this.gn_map] /\\ !gm_mvs[@this.gn_map][@this.gn_rev[k]].move_dx = - !gm_mvs[@this.gn_map][k].move_dx /\\ !gm_mvs[@this.gn_map][@this.gn_rev[k]].move_dy = - !gm_mvs[@this.gn_map][k].move_dy'
def D(d):
    m = d + '.gn_map'
    return m + ' <> 0 /\\ ' + G(m) + ' /\\ moves !gm_mvs[%s] !gm_nmvs[%s] !gm_w[%s] /\\ revs %s.gn_rev !gm_mvs[%s] !gm_nmvs[%s] /\\ inside %s.gn_start !gm_w[%s] !gm_h[%s] /\\ inside %s.gn_finish !gm_w[%s] !gm_h[%s]' % (m, m, m, d, m, m, d, m, m, d, m, m)
I = lambda l: 'inside %s !gm_w[@d.gn_map] !gm_h[@d.gn_map]' % l
TW, TH = '!gm_w[@this.gn_map]', '!gm_h[@this.gn_map]'
L0, L1 = ('@this.gn_map <> 0 /\\ 2 <= W <= 16384 /\\ 2 <= H <= 16384 /\\ inside @l%d W H'.replace('W', TW).replace('H', TH) % k for k in (0, 1))
C2 = 'let g_w = it (pure { W }) in let g_h = it (pure { H }) in cell (it (pure { @l0 })) g_w g_h; cell (it (pure { @l1 })) g_w g_h; mul_bound g_w g_h;'.replace('W', TW).replace('H', TH)
VS = 'let g_u = it (pure { ul @l0 W H }) in let g_v = it (pure { ul @l1 W H }) in vc_sum g_u g_v; vc_sum g_u 0; vc_sum 0 g_v;'
def HC(c, l, d):
    m = d + '.gn_map'
    return 'costok %s (hu !gm_nmvs[%s] !gm_lifecost[%s] %s %s.gn_finish !gm_w[%s] !gm_h[%s]) (hq !gm_nmvs[%s] !gm_lifecost[%s] %s %s.gn_finish !gm_w[%s])' % (c, m, m, l, d, m, m, m, m, l, d, m)
HS = lambda s, d: '(%s.state_d >= 0 -> %s)' % (s, HC(s + '.state_h', s + '.state_loc', d))
def COST(f, l):
    return 'costok @this.edge_F (if diag then 0 else mul) (if diag then mul else 0)'.replace('F', f).replace('diag', '@op <> 8 /\\ !gm_mvs[@d.gn_map][@op].move_dx <> 0 /\\ !gm_mvs[@d.gn_map][@op].move_dy <> 0').replace('mul', '(if !gm_lifecost[@d.gn_map] = True then ul %s !gm_w[@d.gn_map] !gm_h[@d.gn_map] else 1)' % l)
LEGAL = ('a legal move', '0 <= @op < !gm_nmvs[@d.gn_map] /\\ legal !gm_flags[@d.gn_map] !gm_mvs[@d.gn_map][@op] @s.state_loc')
LU = 'legal_use (it (pure { !gm_flags[@d.gn_map] })) (it (pure { !gm_mvs[@d.gn_map][@op] })) (it (pure { @s.state_loc })) (it (pure { !gm_w[@d.gn_map] })) (it (pure { !gm_h[@d.gn_map] }));'
GOAL = 'cv_00 (); let g_l = it (pure { @d.gn_finish }) in let g_u = it (pure { ul g_l !gm_w[@d.gn_map] !gm_h[@d.gn_map] }) in h_goal g_u;'
CONS = """let g_m = it (pure { !gm_mvs[@d.gn_map][@op] }) in let g_w = it (pure { !gm_w[@d.gn_map] }) in let g_h = it (pure { !gm_h[@d.gn_map] }) in let g_a = it (pure { @s.state_loc }) in let g_g = it (pure { @d.gn_finish }) in
  let g_b = it (pure { g_a + g_m.move_delta }) in step g_a g_w g_h g_m.move_dx g_m.move_dy;
  hu_bound (it (pure { !gm_nmvs[@d.gn_map] })) (it (pure { !gm_lifecost[@d.gn_map] })) g_b g_g g_w g_h;
  h_consistent (it (pure { !gm_nmvs[@d.gn_map] })) (it (pure { !gm_lifecost[@d.gn_map] })) g_a g_b g_g g_w g_h g_m.move_dx g_m.move_dy;"""
UNITS = [Unit('gridnav', '/verif/drivers/gridnav.cc', prelude=PRE, heap={'GridMap': 'gm_'}, prefix={'GridNav': 'gn_'}, owned=('GridMap::flags', 'GridMap::map'), state='val opidx : ref (map int int)\n', contracts=[

 F('GridMap::Move::Move', ['m','nme','deltax','deltay','num'], sig=None, nparams=5, cfg=dict(va=True),
   req=['-1 <= @deltax <= 1 /\\ -1 <= @deltay <= 1 /\\ (@deltax <> 0 \\/ @deltay <> 0)', '0 <= @num <= 2', ('two arguments for every further check', 'vac = 2 * @num'), '2 <= !gm_w[@m] <= 16384', 'forall k:int [va[k]]. 0 <= k < vac -> -1 <= va[k] <= 1'],
   ens=[('a move to the neighbour', 'moveok @this !gm_w[@m]'), ('in the given direction', '@this.move_dx = @deltax /\\ @this.move_dy = @deltay'), ('with the given checks', '@this.move_n = @num + 1 /\\ forall k:int [@this.move_chk[k].anon_chk_dx]. 1 <= k < @this.move_n -> @this.move_chk[k].anon_chk_dx = va[2*k-2] /\\ @this.move_chk[k].anon_chk_dy = va[2*k-1]')],
   loops={0: Loop(['1 <= @i <= @this.move_n', '!vap = 2 * (@i - 1)', '@this.move_n = @num + 1', '@this.move_dx = @deltax /\\ @this.move_dy = @deltay /\\ @this.move_delta = @deltax + !gm_w[@m] * @deltay', '@this.move_cost = (if @deltax <> 0 /\\ @deltay <> 0 then r2 else 1.0)',
       '@this.move_chk[0].anon_chk_dx = @deltax /\\ @this.move_chk[0].anon_chk_dy = @deltay /\\ @this.move_chk[0].anon_chk_delta = @this.move_delta',
       'forall k:int [@this.move_chk[k].anon_chk_dx]. 1 <= k < @i -> @this.move_chk[k].anon_chk_dx = va[2*k-2] /\\ @this.move_chk[k].anon_chk_dy = va[2*k-1] /\\ @this.move_chk[k].anon_chk_delta = @this.move_chk[k].anon_chk_dx + !gm_w[@m] * @this.move_chk[k].anon_chk_dy'], '@this.move_n - @i', end='fits (it (pure { !gm_w[@m] })) (it (pure { @this.move_chk[@i].anon_chk_dx })) (it (pure { @this.move_chk[@i].anon_chk_dy })); assert { @this.move_chk[@i].anon_chk_delta = @this.move_chk[@i].anon_chk_dx + !gm_w[@m] * @this.move_chk[@i].anon_chk_dy };')}),
 *[F('GridMap::set' + nm, [], req=['@this <> 0', '2 <= !gm_w[@this] <= 16384'],
   ens=[('every move has its reverse', 'moves !gm_mvs[@this] !gm_nmvs[@this] !gm_w[@this]'), ('number of moves', '!gm_nmvs[@this] = %d' % n), ('all of the directions', ' /\\ '.join(x + ' !gm_mvs[@this] !gm_nmvs[@this]' for x in dirs)),
        *([('blocked corners are not cut', 'nocut !gm_mvs[@this] !gm_nmvs[@this] !gm_w[@this]')] if nm != 'eightway' else []),
        'forall x:int. x <> @this -> !gm_mvs[x] = old !gm_mvs[x] /\\ !gm_nmvs[x] = old !gm_nmvs[x]'])
   for nm, n, dirs in (('octile', 8, ('straight', 'diagonal')), ('eightway', 8, ('straight', 'diagonal')), ('fourway', 4, ('straight',)))],
 F('GridMap::ok', ['loc','m'], req=['@this <> 0', G('@this'), 'moveok @m !gm_w[@this]', 'inside @loc !gm_w[@this] !gm_h[@this]'], ens=[('every checked cell can be entered', 'result = True <-> legal !gm_flags[@this] @m @loc')],
   loops={0: Loop(['0 <= @i <= @m.move_n', 'forall k:int [@m.move_chk[k].anon_chk_delta]. 0 <= k < @i -> enter !gm_flags[@this].dat[@loc] !gm_flags[@this].dat[@loc + @m.move_chk[k].anon_chk_delta]'], '@m.move_n - @i',
     begin='let ck = it (pure { @m.move_chk[@i] }) in step (it (pure { @loc })) (it (pure { !gm_w[@this] })) (it (pure { !gm_h[@this] })) ck.anon_chk_dx ck.anon_chk_dy;')}),

 F('GridNav::reverseops', [], req=['@this.gn_map <> 0', 'moves !gm_mvs[@this.gn_map] !gm_nmvs[@this.gn_map] !gm_w[@this.gn_map]'],
   ens=[('the reverse goes the opposite way', 'revs @this.gn_rev !gm_mvs[@this.gn_map] !gm_nmvs[@this.gn_map]'), '@this.gn_map = old @this.gn_map /\\ @this.gn_start = old @this.gn_start /\\ @this.gn_finish = old @this.gn_finish'],
   loops={0: Loop(['0 <= @i <= !gm_nmvs[@this.gn_map]', '@nrev = @i', '@this.gn_map = old @this.gn_map /\\ @this.gn_start = old @this.gn_start /\\ @this.gn_finish = old @this.gn_finish', RV], '!gm_nmvs[@this.gn_map] - @i', begin='assert { has !gm_mvs[@this.gn_map] !gm_nmvs[@this.gn_map] (- !gm_mvs[@this.gn_map][@i].move_dx) (- !gm_mvs[@this.gn_map][@i].move_dy) };'),
          1: Loop(['0 <= @j <= !gm_nmvs[@this.gn_map]', '@nrev = @i', '@this.gn_map = old @this.gn_map /\\ @this.gn_start = old @this.gn_start /\\ @this.gn_finish = old @this.gn_finish', RV,
             'forall k:int [!gm_mvs[@this.gn_map][k]]. 0 <= k < @j -> !gm_mvs[@this.gn_map][@i].move_dx <> - !gm_mvs[@this.gn_map][k].move_dx \\/ !gm_mvs[@this.gn_map][@i].move_dy <> - !gm_mvs[@this.gn_map][k].move_dy'], '!gm_nmvs[@this.gn_map] - @j')}),
 F('GridNav::GridNav', ['m','x0','y0','x1','y1'], req=['@m <> 0', G('@m'), 'moves !gm_mvs[@m] !gm_nmvs[@m] !gm_w[@m]', '0 <= @x0 < !gm_w[@m] - 2 /\\ 0 <= @x1 < !gm_w[@m] - 2 /\\ 0 <= @y0 < !gm_h[@m] - 2 /\\ 0 <= @y1 < !gm_h[@m] - 2'],
   ens=[('a domain', D('@this')), '@this.gn_map = @m', ('from the given cell', 'at2 @this.gn_start !gm_w[@m] (@x0 + 1) (@y0 + 1)'), ('to the given cell', 'at2 @this.gn_finish !gm_w[@m] (@x1 + 1) (@y1 + 1)')],
   hooks={'entry': 'rc (it (pure { @x0 + 1 })) (it (pure { @y0 + 1 })) %s; rc (it (pure { @x1 + 1 })) (it (pure { @y1 + 1 })) %s; let g_w = %s in let g_h = %s in cell (it (pure { (@y0 + 1) * !gm_w[@m] + (@x0 + 1) })) g_w g_h; cell (it (pure { (@y1 + 1) * !gm_w[@m] + (@x1 + 1) })) g_w g_h; ' % (MW, MW, MW, MH)}),
 F('GridNav::initialstate', [], ens=[('the start, with no heuristic yet', 'result.state_loc = @this.gn_start /\\ result.state_d = -1')]),
 F('GridNav::Operators::Operators', ['d', 's'], req=[D('@d'), I('@s.state_loc')],
   ens=[('only legal moves', '0 <= @this.operators_n <= !gm_nmvs[@d.gn_map] /\\ forall k:int [@this.operators_ops[k]]. 0 <= k < @this.operators_n -> 0 <= @this.operators_ops[k] < !gm_nmvs[@d.gn_map] /\\ legal !gm_flags[@d.gn_map] !gm_mvs[@d.gn_map][@this.operators_ops[k]] @s.state_loc'),
        ('all of the legal moves', 'forall i:int [!opidx[i]]. 0 <= i < !gm_nmvs[@d.gn_map] -> legal !gm_flags[@d.gn_map] !gm_mvs[@d.gn_map][i] @s.state_loc -> 0 <= !opidx[i] < @this.operators_n /\\ @this.operators_ops[!opidx[i]] = i')],
   loops={0: Loop(['0 <= @i <= !gm_nmvs[@d.gn_map]', '0 <= @this.operators_n <= @i', 'forall k:int [@this.operators_ops[k]]. 0 <= k < @this.operators_n -> 0 <= @this.operators_ops[k] < !gm_nmvs[@d.gn_map] /\\ legal !gm_flags[@d.gn_map] !gm_mvs[@d.gn_map][@this.operators_ops[k]] @s.state_loc',
      'forall i:int [!opidx[i]]. 0 <= i < @i -> legal !gm_flags[@d.gn_map] !gm_mvs[@d.gn_map][i] @s.state_loc -> 0 <= !opidx[i] < @this.operators_n /\\ @this.operators_ops[!opidx[i]] = i'], '!gm_nmvs[@d.gn_map] - @i',
      begin='opidx := it (pure { (!opidx)[@i <- @this.operators_n] });')}),
 F('opat', ['d', 's', 'i'], req=[D('@d'), I('@s.state_loc')], ens=[('a legal move to a cell of the map that can be entered', 'result <> -1 -> 0 <= result < !gm_nmvs[@d.gn_map] /\\ legal !gm_flags[@d.gn_map] !gm_mvs[@d.gn_map][result] @s.state_loc')]),

 F('GridNav::Cost::compute', [], ens=[('the value of the cost', 'costok @this @this.cost_units @this.cost_sqrts'), '@this.cost_units = old @this.cost_units /\\ @this.cost_sqrts = old @this.cost_sqrts'], hooks={'entry': 'assert { use_cv @this.cost_units @this.cost_sqrts };'}),
 F('GridNav::Cost::Cost', ['u', 's'], nparams=2, sig='void (int, int)', ens=[('the value of the cost', 'costok @this @u @s')]),
 F('GridNav::octiledist', ['l0', 'l1'], req=[L0, L1], ens=[('octile distance', 'costok result.fst_costi (let a = ddx @l0 @l1 W in let b = ddy @l0 @l1 W in imax a b - imin a b) (imin (ddx @l0 @l1 W) (ddy @l0 @l1 W)) /\\ 0 <= result.snd_costi'.replace('W', TW))], hooks={'entry': C2}),
 F('GridNav::manhattan', ['l0', 'l1'], req=[L0, L1], ens=[('Manhattan distance', 'result = ddx @l0 @l1 W + ddy @l0 @l1 W'.replace('W', TW))], hooks={'entry': C2}),
 F('GridNav::costfrom', ['y0', 'y1'], req=['0 <= @y0 <= H - 3 /\\ 0 <= @y1 <= H - 3'.replace('H', TH), '@this.gn_map <> 0 /\\ 2 <= %s <= 16384' % TH], ens=[('cost of the vertical moves', 'result = vc (H - 3 - @y0) (H - 3 - @y1)'.replace('H', TH))],
   hooks={'before:sumbetween#0': 'sum2 @arg1 @arg2 @arg3 (it (pure { H - 3 - @y0 })) (it (pure { H - 3 - @y1 }));'.replace('H', TH)}),
 F('GridNav::sumbetween', ['a', 'b', 'n'], req=['0 <= @a <= 16384 /\\ -1 <= @b <= 16384 /\\ 0 <= @n <= 16384', '0 <= (@a + @b) * @n <= 268451840'], ens=[('half of the product', 'result = CD.div ((@a + @b) * @n) 2')]),
 F('GridNav::lifecost', ['y'], req=['0 <= @y <= H - 3 /\\ 2 <= H <= 16384'.replace('H', TH), '@this.gn_map <> 0'], ens=[('life cost of a row', 'result = %s - 3 - @y' % TH)]),
 F('GridNav::life4cheap', ['l0', 'l1'], req=[L0, L1], ens=[('the cheapest way without obstacles, by four-way moves', 'costok result.fst_costi (h4 (ul @l0 W H) (ul @l1 W H) (ddx @l0 @l1 W)) 0 /\\ 0 <= result.snd_costi'.replace('W', TW).replace('H', TH))],
   hooks={'entry': (C2 + VS + 'let g_m = it (pure { imin (ul @l0 W H) (ul @l1 W H) }) in assert { open4 (ul @l0 W H) (ul @l1 W H) (ddx @l0 @l1 W) g_m /\\ open4 (ul @l0 W H) (ul @l1 W H) (ddx @l0 @l1 W) 0 }; mul_bound (it (pure { ddx @l0 @l1 W })) g_m; assert { vc (ul @l0 W H) g_m + vc g_m (ul @l1 W H) = vc (ul @l0 W H) (ul @l1 W H) };').replace('W', TW).replace('H', TH),
     'after:costfrom#0': 'assert { @callres = vc g_u g_v };', 'after:costfrom#1': 'assert { @callres = vc g_u 0 };', 'after:costfrom#2': 'assert { @callres = vc 0 g_v };', 'after:lifecost#0': 'assert { @callres = g_m }; assert { @dx * @callres = ddx @l0 @l1 W * g_m };'.replace('W', TW)}),
 F('GridNav::life8cheap', ['l0', 'l1'], req=[L0, L1], ens=[('the cheapest way without obstacles, by eight-way moves', 'costok result.fst_costi (h8 (ul @l0 W H) (ul @l1 W H) (ddx @l0 @l1 W)) 0 /\\ 0 <= result.snd_costi'.replace('W', TW).replace('H', TH))],
   hooks={'entry': (C2 + VS + 'let g_m = it (pure { m8 (ul @l0 W H) (ul @l1 W H) (ddx @l0 @l1 W) }) in assert { open8 (ul @l0 W H) (ul @l1 W H) (ddx @l0 @l1 W) g_m }; m8_range (it (pure { ul @l0 W H })) (it (pure { ul @l1 W H })) (it (pure { ddx @l0 @l1 W })); vc_sum (it (pure { ul @l0 W H })) g_m; vc_sum g_m (it (pure { ul @l1 W H })); mul_bound (it (pure { across (ul @l0 W H) (ul @l1 W H) (ddx @l0 @l1 W) g_m })) g_m; assert { vc (ul @l0 W H) (imin (ul @l0 W H) (ul @l1 W H)) + vc (imin (ul @l0 W H) (ul @l1 W H)) (ul @l1 W H) = vc (ul @l0 W H) (ul @l1 W H) };').replace('W', TW).replace('H', TH),
     'after:costfrom#0': 'assert { @callres = vc g_u g_v };', 'before:costfrom#1': ('assert { @dx = ddx @l0 @l1 W }; assert { @dy = iabs (g_u - g_v) }; assert { @maxup = imin g_u g_v }; assert { @extra = @dx - @dy /\\ @extra > 0 }; cded (it (pure { @extra })); '
       'assert { @up = imin (imin g_u g_v) (ED.div (ddx @l0 @l1 W - iabs (g_u - g_v)) 2) }; assert { H - 3 - @highy = g_m }; assert { @across = across g_u g_v (ddx @l0 @l1 W) g_m };').replace('W', TW).replace('H', TH),
     'after:costfrom#1': 'assert { @callres = vc g_u g_m };', 'after:costfrom#2': 'assert { @callres = vc g_m g_v };', 'after:lifecost#0': 'assert { @callres = g_m }; mul_eq (it (pure { @across })) (it (pure { @callres })) (it (pure { across g_u g_v (ddx @l0 @l1 W) g_m })) g_m;'.replace('W', TW)}),
 F('GridNav::computeh', ['s'], req=[D('@this'), I('@s.state_loc').replace('@d', '@this'), HS('@s', '@this')], ens=[('the heuristic of the cell', HS('@s', '@this')), '0 <= @s.state_d', '@s.state_loc = old @s.state_loc']),
 F('hof', ['d', 's'], req=[D('@d'), I('@s.state_loc'), HS('@s', '@d')], ens=[('the heuristic of the cell', HC('result', '@s.state_loc', '@d')), ('zero at the goal', '@s.state_loc = @d.gn_finish -> result.cost_v_val = 0.0')], hooks={'entry': GOAL}),
 F('goal', ['d', 's'], ens=[('the goal is the target cell', 'result = True <-> @s.state_loc = @d.gn_finish')]),
 F('GridNav::Edge::Edge', ['d', 's', 'op'], req=[D('@d'), I('@s.state_loc'), ('an operator', '@op = 8 \\/ 0 <= @op < !gm_nmvs[@d.gn_map]'), ('that stays on the map', '@op <> 8 -> ' + I('(@s.state_loc + !gm_mvs[@d.gn_map][@op].move_delta)'))],
   ens=[('the neighbour', '@op <> 8 -> @this.edge_state.state_loc = @s.state_loc + !gm_mvs[@d.gn_map][@op].move_delta /\\ @this.edge_state.state_d = -1'), ('the identity', '@op = 8 -> @this.edge_state = @s /\\ @this.edge_revop = 8'), ('the reverse move', '@op <> 8 -> @this.edge_revop = @d.gn_rev[@op]'),
        ('the cost of the move', COST('cost', '@s.state_loc')), ('the cost of the reverse move', COST('revcost', '@this.edge_state.state_loc')), '@s = old @s'],
   hooks={'entry': 'let g_w = it (pure { W }) in let g_h = it (pure { H }) in cell (it (pure { @s.state_loc })) g_w g_h; (if it (pure { if @op <> 8 then True else False }) then cell (it (pure { @s.state_loc + !gm_mvs[@d.gn_map][@op].move_delta })) g_w g_h);'.replace('W', '!gm_w[@d.gn_map]').replace('H', '!gm_h[@d.gn_map]')}),
 F('back', ['d', 's', 'op'], req=[D('@d'), I('@s.state_loc'), LEGAL], ens=[('the reverse move leads back at the stated cost', 'result = True')],
   hooks={'entry': LU + 'let g_i = it (pure { !gm_mvs[@d.gn_map][@op] }) in let g_j = it (pure { !gm_mvs[@d.gn_map][@d.gn_rev[@op]] }) in opp (it (pure { @s.state_loc })) (it (pure { !gm_w[@d.gn_map] })) g_i.move_dx g_i.move_dy g_j.move_dx g_j.move_dy; assert { moveok g_i !gm_w[@d.gn_map] /\\ moveok g_j !gm_w[@d.gn_map] };'}),
 F('consistent', ['d', 's', 'op'], req=[D('@d'), I('@s.state_loc'), HS('@s', '@d'), LEGAL], ens=[('the heuristic never drops by more than the cost of the move', 'result = True')],
   hooks={'entry': LU + CONS}),
])]
