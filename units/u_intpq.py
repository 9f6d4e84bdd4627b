"""C08: integer priority queue (structs/intpq.hpp)."""
from tr import Unit, F, Loop
PRE = '''
axiom rtrunc_def : forall r:real [rtrunc r]. r >=. 0.0 -> from_int (rtrunc r) <=. r <. from_int (rtrunc r + 1)
(* total length of the first n buckets *)
let rec ghost function sumlen (sq : map int veci) (n : int) : int variant { n }
= if n <= 0 then 0 else sumlen sq (n-1) + (sq[n-1]).len
let rec lemma sum_nonneg (sq : map int veci) (n : int)
  requires { forall b:int. 0 <= b < n -> sq[b].len >= 0 }
  ensures { sumlen sq n >= 0 }
  variant { n }
= if n > 0 then sum_nonneg sq (n-1)
let rec lemma sum_ge (sq : map int veci) (n b : int)
  requires { forall b:int. 0 <= b < n -> sq[b].len >= 0 }
  requires { 0 <= b < n }
  ensures { sumlen sq n >= sq[b].len }
  variant { n }
= if b < n-1 then sum_ge sq (n-1) b else sum_nonneg sq (n-1)
let rec lemma sum_eq (s1 s2 : map int veci) (n : int)
  requires { forall b:int. 0 <= b < n -> s1[b].len = s2[b].len }
  ensures { sumlen s1 n = sumlen s2 n }
  variant { n }
= if n > 0 then sum_eq s1 s2 (n-1)
let rec lemma sum_upd (s1 s2 : map int veci) (n b : int)
  requires { 0 <= b < n }
  requires { forall c:int. 0 <= c < n -> c <> b -> s1[c].len = s2[c].len }
  ensures { sumlen s2 n = sumlen s1 n - s1[b].len + s2[b].len }
  variant { n }
= if b < n-1 then sum_upd s1 s2 (n-1) b else sum_eq s1 s2 (n-1)
let rec lemma sum_grow (sq : map int veci) (n m : int)
  requires { 0 <= n <= m }
  requires { forall b:int. n <= b < m -> sq[b].len = 0 }
  ensures { sumlen sq m = sumlen sq n }
  variant { m }
= if n < m then sum_grow sq n (m-1)
let rec lemma sum_zero (sq : map int veci) (n : int)
  requires { forall b:int. 0 <= b < n -> sq[b].len = 0 }
  ensures { sumlen sq n = 0 }
  variant { n }
= if n > 0 then sum_zero sq (n-1)
(* sq b: elements of bucket b, last pushed at the end; bk: bucket of an element or -1; pos: position in its bucket;
   clean: has not been in the queue when it was cleared *)
predicate inq (bk : map int int) (e : int) = bk[e] >= 0
predicate wf0 (q : r_intpq) =
  0 <= q.fill <= 18446744073709551615 /\\ 0 <= q.v_end <= 4294967295 /\\ 0 <= q.nbins <= 4294967295 /\\ q.bins.len = q.nbins
predicate lists (q : r_intpq) (nxt prev : map int int) (sq : map int veci) (bk pos : map int int) (clean : map int bool) =
  (forall b:int [sq[b]]. sq[b].len >= 0) /\\
  (forall b:int [sq[b]]. b >= q.nbins -> sq[b].len = 0) /\\
  (forall b k:int [sq[b].dat[k]]. 0 <= b < q.nbins -> 0 <= k < sq[b].len ->
     let x = sq[b].dat[k] in x <> 0 /\\ bk[x] = b /\\ pos[x] = k /\\ nxt[x] = (if k = 0 then 0 else sq[b].dat[k-1]) /\\
       prev[x] = (if k = sq[b].len - 1 then x else sq[b].dat[k+1])) /\\
  (forall x:int [bk[x]]. -1 <= bk[x] < q.nbins /\\ (bk[x] >= 0 -> 0 <= pos[x] < sq[bk[x]].len /\\ sq[bk[x]].dat[pos[x]] = x)) /\\
  (forall b:int [q.bins.dat[b]]. 0 <= b < q.nbins -> q.bins.dat[b] = (if sq[b].len = 0 then 0 else sq[b].dat[sq[b].len - 1])) /\\
  (forall x:int [bk[x]]. clean[x] = True -> bk[x] < 0 -> prev[x] = 0)
predicate count (q : r_intpq) (sq : map int veci) = q.fill = sumlen sq q.nbins
predicate endok (q : r_intpq) (sq : map int veci) = forall b:int [sq[b]]. 0 <= b < q.v_end -> q.fill > 0 -> sq[b].len = 0
let lemma empty_count (q : r_intpq) (nxt prev : map int int) (sq : map int veci) (bk pos : map int int) (clean : map int bool)
  requires { lists q nxt prev sq bk pos clean /\\ count q sq /\\ wf0 q }
  ensures { q.fill = 0 -> forall x:int. bk[x] < 0 }
= assert { q.fill = 0 -> forall b:int. 0 <= b < q.nbins -> sq[b].len = 0 }
let rec lemma some_bucket (sq : map int veci) (n : int)
  requires { sumlen sq n > 0 }
  requires { forall b:int. 0 <= b < n -> sq[b].len >= 0 }
  ensures { exists b:int. 0 <= b < n /\\ sq[b].len > 0 }
  variant { n }
= if n > 0 then if pure { sq[n-1].len = 0 } then some_bucket sq (n-1)
'''
STATE = '''
val sq : ref (map int veci)
val bk : ref (map int int)
val pos : ref (map int int)
val clean : ref (map int bool)
'''
L = 'lists @this !nxt !prev !sq !bk !pos !clean'
WF = 'wf0 @this /\\ %s /\\ count @this !sq /\\ endok @this !sq' % L
# removal of x from its bucket: the positions above it move down by one
REMOVE = '''
  let b = it (pure { !bk[%(x)s] }) in let p = it (pure { !pos[%(x)s] }) in
  let s0 = it (pure { !sq }) in let bk0 = it (pure { !bk }) in let pos0 = it (pure { !pos }) in
  let nd = it (pure { fun (k:int) -> if k < p then s0[b].dat[k] else s0[b].dat[k+1] }) in
  let np = it (pure { fun (y:int) -> if bk0[y] = b && pos0[y] > p then pos0[y] - 1 else pos0[y] }) in
  assert { forall k:int [nd[k]]. nd[k] = if k < p then s0[b].dat[k] else s0[b].dat[k+1] };
  assert { forall y:int [np[y]]. np[y] = if bk0[y] = b && pos0[y] > p then pos0[y] - 1 else pos0[y] };
  sq := it (pure { s0[b <- { len = s0[b].len - 1; dat = nd }] });
  pos := np; bk := it (pure { bk0[%(x)s <- -1] });
  let s1 = it (pure { !sq }) in let bk1 = it (pure { !bk }) in
  assert { forall c:int [s1[c]]. s1[c] = if c = b then { len = s0[b].len - 1; dat = nd } else s0[c] };
  assert { forall y:int [bk1[y]]. bk1[y] = if y = %(x)s then -1 else bk0[y] };
  sum_upd s0 s1 @this.nbins b;
  assert { forall y:int [bk1[y]]. bk1[y] = b -> pos0[y] <> p };
  assert { forall y:int [bk1[y]]. bk1[y] = b -> 0 <= np[y] < s0[b].len - 1 /\\ nd[np[y]] = y };
  assert { forall k:int [nd[k]]. 0 <= k < s0[b].len - 1 -> let y = nd[k] in y <> %(x)s /\\ y <> 0 /\\ bk1[y] = b /\\ np[y] = k };
  assert { forall k:int [nd[k]]. 0 <= k < s0[b].len - 1 -> !nxt[nd[k]] = (if k = 0 then 0 else nd[k-1]) };
  assert { forall k:int [nd[k]]. 0 <= k < s0[b].len - 1 -> !prev[nd[k]] = (if k = s0[b].len - 2 then nd[k] else nd[k+1]) };
  assert { forall c k:int [s0[c].dat[k]]. 0 <= c < @this.nbins -> c <> b -> 0 <= k < s0[c].len ->
     let y = s0[c].dat[k] in bk1[y] = c /\\ np[y] = k /\\ !nxt[y] = (if k = 0 then 0 else s0[c].dat[k-1]) /\\ !prev[y] = (if k = s0[c].len - 1 then y else s0[c].dat[k+1]) };
  assert { %(L)s };
'''
UNITS = [Unit('intpq', '/verif/drivers/intpq.cc', heap={'IntpqEntry': ''}, prefix={'Intpq': ''}, owned=('Intpq::bins',), prelude=PRE, state=STATE,
    assumptions=['Ops::entry(e) is the link record inside e: distinct elements have distinct link records', 'priorities are below 2^31 (the bucket array for them has to fit in memory)',
                 'fewer than 2^64 elements', '(prio + 1) * 1.5 in double arithmetic is exact below 2^52'], contracts=[
    F('VOps::entry', ['e'], mode='val', ens=['result = @e']),
    F('Intpq::resize', ['sz'], req=['wf0 { @this with bins = { @this.bins with len = @this.nbins } }', '@this.bins.len = @this.nbins \\/ (@this.nbins = 0 /\\ @this.bins.len = -1)', '@this.nbins <= @sz <= 4294967295'],
      loops={0: Loop(['0 <= @i <= @this.nbins', '@this = old @this', '@b.len = @sz', 'forall k:int. 0 <= k < @i -> @b.dat[k] = @this.bins.dat[k]'], '@this.nbins - @i'),
             1: Loop(['@this.nbins <= @i <= @sz', '@this = old @this', '@b.len = @sz', 'forall k:int. 0 <= k < @this.nbins -> @b.dat[k] = @this.bins.dat[k]',
                      'forall k:int. @this.nbins <= k < @i -> @b.dat[k] = 0'], '@sz - @i')},
      ens=[('array size', '@this.nbins = @sz /\\ @this.bins.len = @sz'), ('rest unchanged', '@this.fill = old @this.fill /\\ @this.v_end = old @this.v_end'),
           ('buckets kept', 'forall k:int. 0 <= k < old @this.nbins -> @this.bins.dat[k] = (old @this).bins.dat[k]'),
           ('new buckets empty', 'forall k:int. old @this.nbins <= k < @sz -> @this.bins.dat[k] = 0')]),
    F('Intpq::Intpq', ['sz'], req=['forall b:int. !sq[b].len = 0', 'forall x:int. !bk[x] = -1 /\\ (!clean[x] = True -> !prev[x] = 0)'],
      ens=[('well-formed', WF), ('empty', '@this.fill = 0')]),
    F('Intpq::push', ['e', 'prio'], req=[WF, '@e <> 0', '!bk[@e] = -1', '0 <= @prio < 2147483648', '@this.fill < 18446744073709551615'],
      hooks={'entry': 'sum_nonneg !sq @this.nbins; let n0 = it (pure { @this.nbins }) in let s00 = it (pure { !sq }) in empty_count @this !nxt !prev !sq !bk !pos !clean;', 'exit': '''
  sum_grow s00 n0 @this.nbins;
  let b = it (pure { @prio }) in let k = it (pure { !sq[b].len }) in
  let s0 = it (pure { !sq }) in let bk0 = it (pure { !bk }) in
  sq := it (pure { s0[b <- { len = k + 1; dat = s0[b].dat[k <- @e] }] });
  bk := it (pure { bk0[@e <- b] }); pos := it (pure { !pos[@e <- k] }); clean := it (pure { !clean[@e <- True] });
  let s1 = it (pure { !sq }) in
  assert { forall c:int [s1[c]]. s1[c] = if c = b then { len = k + 1; dat = s0[b].dat[k <- @e] } else s0[c] };
  sum_upd s0 s1 @this.nbins b;
  assert { forall c k:int [s0[c].dat[k]]. 0 <= c < @this.nbins -> 0 <= k < s0[c].len -> s0[c].dat[k] <> @e };
  assert { forall x:int [!bk[x]]. x <> @e -> !bk[x] = bk0[x] };
  assert { forall k:int [s1[b].dat[k]]. 0 <= k < s1[b].len -> !nxt[s1[b].dat[k]] = (if k = 0 then 0 else s1[b].dat[k-1]) /\\ !prev[s1[b].dat[k]] = (if k = s1[b].len - 1 then s1[b].dat[k] else s1[b].dat[k+1]) };
  assert { forall x:int [!bk[x]]. -1 <= !bk[x] < @this.nbins /\\ (!bk[x] >= 0 -> 0 <= !pos[x] < s1[!bk[x]].len /\\ s1[!bk[x]].dat[!pos[x]] = x) };
  assert { forall c:int [@this.bins.dat[c]]. 0 <= c < @this.nbins -> @this.bins.dat[c] = (if s1[c].len = 0 then 0 else s1[c].dat[s1[c].len - 1]) };
  assert { %s };
''' % L},
      ens=[('well-formed', WF), ('element is in its bucket', '!bk[@e] = @prio /\\ !clean[@e] = True'), ('others unchanged', 'forall x:int. x <> @e -> !bk[x] = old !bk[x] /\\ !clean[x] = old !clean[x]'),
           ('size', '@this.fill = old @this.fill + 1')]),
    F('Intpq::pop', [], req=[WF],
      loops={0: Loop(['wf0 @this', L, 'count @this !sq', 'endok @this !sq', '@this.fill = old @this.fill > 0', '@this.nbins = old @this.nbins', '@this.v_end < @this.nbins'], '@this.nbins - @this.v_end',
                     begin='some_bucket !sq @this.nbins; assert { !sq[@this.v_end].len = 0 };', before='some_bucket !sq @this.nbins;')},
      hooks={'entry': 'let f0 = it (pure { @this.fill }) in empty_count @this !nxt !prev !sq !bk !pos !clean; sum_nonneg !sq @this.nbins;',
             'exit': 'if it (pure { f0 > 0 }) then begin sum_ge !sq @this.nbins !bk[result_]; %s end;' % REMOVE % dict(x='result_', L=L)},
      ens=[('well-formed', WF), ('null exactly when empty', 'result = 0 <-> (forall x:int. old !bk[x] < 0)'),
           ('popped element was in the queue', 'result <> 0 -> old !bk[result] >= 0'),
           ('popped element has minimal priority', 'result <> 0 -> forall x:int. old !bk[x] >= 0 -> old !bk[result] <= old !bk[x]'),
           ('exactly this one leaves', 'result <> 0 -> !bk = old !bk[result <- -1]'), ('nothing happens when empty', 'result = 0 -> !bk = old !bk'), '!clean = old !clean',
           ('size', '@this.fill = old @this.fill - (if result = 0 then 0 else 1)')]),
    F('Intpq::rm', ['e', 'prio'], req=[WF, ('element is in bucket prio', '!bk[@e] = @prio /\\ 0 <= @prio')],
      hooks={'entry': 'sum_ge !sq @this.nbins @prio; empty_count @this !nxt !prev !sq !bk !pos !clean;', 'exit': REMOVE % dict(x='@e', L=L)},
      ens=[('well-formed', WF), ('exactly this one leaves', '!bk = old !bk[@e <- -1]'), '!clean = old !clean', ('size', '@this.fill = old @this.fill - 1')]),
    F('Intpq::mem', ['e'], cfg={'this_val': 1}, req=['lists this !nxt !prev !sq !bk !pos !clean'], ens=[('membership', '!clean[@e] = True \\/ !bk[@e] >= 0 -> (result = True <-> !bk[@e] >= 0)')]),
    F('Intpq::empty', [], cfg={'this_val': 1}, req=['wf0 this', 'lists this !nxt !prev !sq !bk !pos !clean', 'count this !sq'],
      hooks={'entry': 'empty_count this !nxt !prev !sq !bk !pos !clean; if it (pure { this.fill > 0 }) then begin some_bucket !sq this.nbins; assert { exists b:int. 0 <= b < this.nbins /\\ !bk[!sq[b].dat[0]] = b } end;'}, ens=[('empty exactly when nothing is in it', 'result = True <-> (forall x:int. !bk[x] < 0)')]),
    F('Intpq::clear', [], req=[WF],
      loops={0: Loop(['0 <= @i <= @this.nbins', '@this.nbins = old @this.nbins', '@this.fill = 0', 'wf0 @this', 'forall k:int. 0 <= k < @i -> @this.bins.dat[k] = 0'], '@this.nbins - @i')},
      hooks={'exit': '''
  let bk0 = it (pure { !bk }) in let c0 = it (pure { !clean }) in let s0 = it (pure { !sq }) in
  let bk1 = it (pure { fun (x:int) -> -1 + 0 * bk0[x] }) in let c1 = it (pure { fun (x:int) -> if bk0[x] >= 0 then False else c0[x] }) in
  let s1 = it (pure { fun (b:int) -> { s0[b] with len = 0 } }) in
  assert { forall x:int [bk1[x]]. bk1[x] = -1 }; assert { forall x:int [c1[x]]. c1[x] = if bk0[x] >= 0 then False else c0[x] };
  assert { forall b:int [s1[b]]. s1[b].len = 0 };
  bk := bk1; clean := c1; sq := s1; sum_zero s1 @this.nbins;'''},
      ens=[('well-formed', WF), ('nothing left', 'forall x:int. !bk[x] = -1'), ('empty', '@this.fill = 0')]),
    ])]
