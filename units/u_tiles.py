"""C16: sliding tiles (tiles/): moves, undo, Manhattan distance and packing."""
from tr import Unit, F, Loop


def pre(w, h):
    return r'''
axiom map_use : forall m:map int int, i:int [m[i]]. (m[i <- 0])[i] = 0
function w : int = %d
function nt : int = %d
function iabs (x : int) : int = if x >= 0 then x else - x
(* Manhattan distance between two positions *)
function dist int int : int
axiom dist_def : forall a b:int [dist a b]. dist a b = iabs (ED.div a w - ED.div b w) + iabs (ED.mod a w - ED.mod b w)
lemma nbrs : forall i j:int [dist i j]. 0 <= i < nt -> 0 <= j < nt -> (dist i j = 1 <-> (j = i - w \/ j = i + w \/ (j = i - 1 /\ ED.mod i w > 0) \/ (j = i + 1 /\ ED.mod i w < w - 1)))
predicate moves (o : r_anon_ops) (i : int) = 0 <= o.anon_ops_n <= 4 /\
  (forall k:int [o.anon_ops_mvs[k]]. 0 <= k < o.anon_ops_n -> 0 <= o.anon_ops_mvs[k] < nt /\ dist i o.anon_ops_mvs[k] = 1) /\
  (forall j:int [dist i j]. 0 <= j < nt -> dist i j = 1 -> (o.anon_ops_n > 0 /\ o.anon_ops_mvs[0] = j) \/ (o.anon_ops_n > 1 /\ o.anon_ops_mvs[1] = j) \/ (o.anon_ops_n > 2 /\ o.anon_ops_mvs[2] = j) \/ (o.anon_ops_n > 3 /\ o.anon_ops_mvs[3] = j))
predicate mdok (md : map int (map int int)) (g : map int int) = forall t i:int [md[t][i]]. 1 <= t < nt -> 0 <= i < nt -> md[t][i] = dist g[t] i
(* change of the distance of tile t when it moves from one place to a neighbouring one *)
predicate incrok (inc : map int (map int (map int int))) (g : map int int) = forall t i j:int [inc[t][i][j]]. 1 <= t < nt -> 0 <= i < nt -> 0 <= j < nt -> dist i j = 1 -> inc[t][i][j] = dist g[t] j - dist g[t] i
predicate goals (g : map int int) = forall t:int [g[t]]. 0 <= t < nt -> 0 <= g[t] < nt
(* total distance of the tiles on the first k places; b is the blank *)
let rec ghost function hs (g ts : map int int) (b k : int) : int variant { k }
= if k <= 0 then 0 else hs g ts b (k-1) + (if k-1 = b then 0 else pure { dist g[ts[k-1]] (k-1) })
lemma dist_range : forall a b:int [dist a b]. 0 <= a < nt -> 0 <= b < nt -> 0 <= dist a b <= 2 * nt
lemma dist_zero : forall a b:int [dist a b]. 0 <= a < nt -> 0 <= b < nt -> dist a b = 0 -> a = b
lemma dist_same : forall a:int. dist a a = 0
lemma dist_step : forall a b c:int [dist a b, dist a c, dist b c]. 0 <= a < nt -> 0 <= b < nt -> 0 <= c < nt -> dist b c = 1 -> dist a b = dist a c + 1 \/ dist a b = dist a c - 1
predicate tilesok (ts : map int int) (b : int) = 0 <= b < nt /\ forall i:int [ts[i]]. 0 <= i < nt -> i <> b -> 1 <= ts[i] < nt
let rec lemma hs_bound (g ts : map int int) (b k : int) requires { goals g /\ (forall i:int. 0 <= i < k -> i <> b -> 1 <= ts[i] < nt) /\ 0 <= k <= nt } ensures { 0 <= hs g ts b k <= 2 * nt * k } variant { k }
= if k > 0 then hs_bound g ts b (k-1)
let rec lemma hs_mono (g ts : map int int) (b j k : int) requires { goals g /\ (forall i:int. 0 <= i < k -> i <> b -> 1 <= ts[i] < nt) /\ 0 <= j <= k <= nt } ensures { hs g ts b j <= hs g ts b k } variant { k }
= if j < k then hs_mono g ts b j (k-1)
let rec lemma hs_zero (g ts : map int int) (b k : int) requires { goals g /\ tilesok ts b /\ 0 <= k <= nt }
  ensures { hs g ts b k = 0 <-> forall i:int. 0 <= i < k -> i <> b -> g[ts[i]] = i } variant { k }
= if k > 0 then begin hs_zero g ts b (k-1); hs_bound g ts b (k-1); if k-1 <> b then assert { dist g[ts[k-1]] (k-1) = 0 <-> g[ts[k-1]] = k-1 } end
let rec lemma hs_frame (g ts ts2 : map int int) (b k : int) requires { forall i:int. 0 <= i < k -> i <> b -> ts[i] = ts2[i] } ensures { hs g ts b k = hs g ts2 b k } variant { k }
= if k > 0 then hs_frame g ts ts2 b (k-1)
(* moving the tile at o to the blank b *)
let rec lemma hs_move (g ts : map int int) (b o k : int) requires { 0 <= b /\ 0 <= o /\ b <> o }
  ensures { hs g ts[b <- ts[o]] o k = hs g ts b k + (if b < k then dist g[ts[o]] b else 0) - (if o < k then dist g[ts[o]] o else 0) } variant { k }
= if k > 0 then hs_move g ts b o (k-1)
predicate state (g ts : map int int) (b h : int) = tilesok ts b /\ h = hs g ts b nt
(* the packed word: one digit of base 16 per place *)
let rec ghost function pk (ts : map int int) (k : int) : int variant { k } = if k <= 0 then 0 else 16 * pk ts (k-1) + pure { ts[k-1] }
let rec ghost function p16 (k : int) : int variant { k } = if k <= 0 then 1 else 16 * p16 (k-1)
let rec lemma pk_bound (ts : map int int) (k : int) requires { forall i:int. 0 <= i < k -> 0 <= ts[i] < 16 } ensures { 0 <= pk ts k < p16 k } variant { k } = if k > 0 then pk_bound ts (k-1)
let rec lemma p16_le (k j : int) requires { 0 <= k <= j } ensures { p16 k <= p16 j } variant { j } = if j > k then begin p16_le k (j-1); p16_pos (j-1) end
with lemma p16_pos (k : int) ensures { p16 k >= 1 } variant { k } = if k > 0 then p16_pos (k-1)
let lemma p16_16 () ensures { p16 16 = 18446744073709551616 } = assert { p16 4 = 65536 }; assert { p16 8 = 4294967296 }; assert { p16 12 = 281474976710656 }
axiom or_digit : forall x y:int [bw_or x y]. x >= 0 -> ED.mod x 16 = 0 -> 0 <= y < 16 -> bw_or x y = x + y
let rec lemma pk_frame (t1 t2 : map int int) (k : int) requires { forall i:int. 0 <= i < k -> t1[i] = t2[i] } ensures { pk t1 k = pk t2 k } variant { k } = if k > 0 then pk_frame t1 t2 (k-1)
predicate solved (g ts : map int int) (b : int) = forall i:int. 0 <= i < nt -> i <> b -> g[ts[i]] = i
predicate same (ts : map int int) (b : int) (ts2 : map int int) (b2 : int) = b = b2 /\ forall i:int. 0 <= i < nt -> i <> b -> ts[i] = ts2[i]
''' % (w, w * h)


def unit(w, h):
    n = w * h
    MOVES = 'forall i:int [%s[i]]. 0 <= i < nt -> moves %s[i] i'
    mv = lambda x: ('exactly the neighbouring positions', MOVES % (x, x))
    D = '@this.d_'
    INST = ['@this.d_init[@z] = 0 /\\ 0 <= @z < nt']
    dom = lambda d: ['goals %s.d_goalpos' % d, 'mdok %s.d_md %s.d_goalpos' % (d, d), 'incrok %s.d_incr %s.d_goalpos' % (d, d), mv('%s.d_ops' % d)[1]]
    ST = lambda s, d='@d': 'state %s.d_goalpos !st_ts[%s] !st_b[%s] !st_h[%s]' % (d, s, s, s)
    ONE = 'forall i:int [@this.%s_init[i]]. 0 <= i < nt -> 0 <= @this.%s_init[i] < nt /\\ (@this.%s_init[i] = 0 <-> i = !blank)'
    one = lambda p: ONE % (p, p, p)
    return Unit('tiles-%d' % (n - 1), '/verif/drivers/tiles.cc', flags=('-DWIDTH=%d' % w, '-DHEIGHT=%d' % h), prelude=pre(w, h), heap={'TilesMdist::State': 'st_'}, dtors=('Edge',), views=('Operators::mvs',),
        state='val blank : ref int\nval gts : ref (map int int)\nval gg : ref (map int int)\n', prefix={'TilesMdist': 'd_', 'Tiles': 'b_', 'PackedTiles64': 'pkd_', 'PackedTiles': 'pk_'}, contracts=[
        F('Tiles::initops', [], ens=[mv('@this.b_ops'), '@this.b_goalpos = old @this.b_goalpos', '@this.b_init = old @this.b_init'],
          loops={0: Loop(['0 <= @i <= nt', 'forall i:int [@this.b_ops[i]]. 0 <= i < @i -> moves @this.b_ops[i] i', '@this.b_goalpos = old @this.b_goalpos', '@this.b_init = old @this.b_init'], 'nt - @i', end='assert { moves @this.b_ops[@i] @i };')}),
        F('TilesMdist::initmd', [], req=['goals @this.d_goalpos'], ens=[('Manhattan distances', 'mdok @this.d_md @this.d_goalpos'), '@this.d_goalpos = old @this.d_goalpos /\\ @this.d_init = old @this.d_init /\\ @this.d_ops = old @this.d_ops'],
          loops={0: Loop(['1 <= @t <= nt', 'forall t i:int [@this.d_md[t][i]]. 1 <= t < @t -> 0 <= i < nt -> @this.d_md[t][i] = dist @this.d_goalpos[t] i', '@this.d_goalpos = old @this.d_goalpos /\\ @this.d_init = old @this.d_init /\\ @this.d_ops = old @this.d_ops'], 'nt - @t'),
                 1: Loop(['0 <= @i <= nt', 'forall t i:int [@this.d_md[t][i]]. 1 <= t < @t -> 0 <= i < nt -> @this.d_md[t][i] = dist @this.d_goalpos[t] i',
                          'forall i:int [@this.d_md[@t][i]]. 0 <= i < @i -> @this.d_md[@t][i] = dist @this.d_goalpos[@t] i', '@this.d_goalpos = old @this.d_goalpos /\\ @this.d_init = old @this.d_init /\\ @this.d_ops = old @this.d_ops'], 'nt - @i')}),
        F('TilesMdist::initincr', [], req=['goals @this.d_goalpos', 'mdok @this.d_md @this.d_goalpos', mv('@this.d_ops')],
          ens=[('change of the distance by a move', 'incrok @this.d_incr @this.d_goalpos'), '@this.d_goalpos = old @this.d_goalpos /\\ @this.d_init = old @this.d_init /\\ @this.d_ops = old @this.d_ops /\\ @this.d_md = old @this.d_md'],
          loops={0: Loop(['1 <= @t <= nt', 'forall t i j:int [@this.d_incr[t][i][j]]. 1 <= t < @t -> 0 <= i < nt -> 0 <= j < nt -> dist i j = 1 -> @this.d_incr[t][i][j] = dist @this.d_goalpos[t] j - dist @this.d_goalpos[t] i', INCF], 'nt - @t'),
                 1: Loop(['0 <= @nw <= nt', 'forall t i j:int [@this.d_incr[t][i][j]]. 1 <= t < @t -> 0 <= i < nt -> 0 <= j < nt -> dist i j = 1 -> @this.d_incr[t][i][j] = dist @this.d_goalpos[t] j - dist @this.d_goalpos[t] i',
                          'forall i j:int [@this.d_incr[@t][i][j]]. 0 <= i < @nw -> 0 <= j < nt -> dist i j = 1 -> @this.d_incr[@t][i][j] = dist @this.d_goalpos[@t] j - dist @this.d_goalpos[@t] i', INCF], 'nt - @nw',
                         begin='assert { moves @this.d_ops[@nw] @nw };'),
                 2: Loop(['0 <= @n <= @this.d_ops[@nw].anon_ops_n', 'forall t i j:int [@this.d_incr[t][i][j]]. 1 <= t < @t -> 0 <= i < nt -> 0 <= j < nt -> dist i j = 1 -> @this.d_incr[t][i][j] = dist @this.d_goalpos[t] j - dist @this.d_goalpos[t] i',
                          'forall i j:int [@this.d_incr[@t][i][j]]. 0 <= i < @nw -> 0 <= j < nt -> dist i j = 1 -> @this.d_incr[@t][i][j] = dist @this.d_goalpos[@t] j - dist @this.d_goalpos[@t] i',
                          'forall k:int. 0 <= k < @n -> let j = @this.d_ops[@nw].anon_ops_mvs[k] in @this.d_incr[@t][@nw][j] = dist @this.d_goalpos[@t] j - dist @this.d_goalpos[@t] @nw', INCF], '@this.d_ops[@nw].anon_ops_n - @n')}),
        F('Tiles::inithashvec', [], mode='val', cfg={'nothis': 1}),
        F('Tiles::readruml', ['in'], mode='val', writes=['this'], ens=['goals @this.b_goalpos']),
        F('Tiles::Tiles', ['in'], nparams=1, sig='void (FILE *)', ens=['goals @this.b_goalpos', mv('@this.b_ops')]),
        F('TilesMdist::TilesMdist', ['in'], ens=[('the tables are right', x) for x in dom('@this')]),
        F('TilesMdist::initialstate', [], req=['0 <= !blank < nt', one('d')] + dom('@this'), ens=[('a state of the instance', ST('result', '@this')), ('the tiles start as given', '!st_b[result] = !blank /\\ forall i:int. 0 <= i < nt -> !st_ts[result][i] = @this.d_init[i]')],
          loops={0: Loop(['0 <= @i <= nt', '@i > !blank -> !st_b[@s] = !blank', 'forall i:int. 0 <= i < @i -> !st_ts[@s][i] = @this.d_init[i]', '!st_h[@s] = hs @this.d_goalpos !st_ts[@s] !blank @i'], 'nt - @i',
                 begin='let b_ts = it (pure { !st_ts[@s] }) in', end='hs_frame (it (pure { @this.d_goalpos })) b_ts (it (pure { !st_ts[@s] })) !blank (it (pure { @i })); hs_bound (it (pure { @this.d_goalpos })) (it (pure { !st_ts[@s] })) !blank (it (pure { @i }));')}),
        F('TilesMdist::Edge::Edge', ['d', 's', 'op'], sig=None, req=dom('@d') + [ST('@s'), ('a neighbour of the blank, or the identity', '@op = -2 \\/ (0 <= @op < nt /\\ dist !st_b[@s] @op = 1)')],
          ens=[('still a state', ST('@s')), ('the tile moves into the blank', '@op <> -2 -> !st_b[@s] = @op /\\ !st_ts[@s] = (old !st_ts[@s])[old !st_b[@s] <- old !st_ts[@s][@op]]'),
               ('the identity', '@op = -2 -> !st_b[@s] = old !st_b[@s] /\\ !st_ts[@s] = old !st_ts[@s] /\\ !st_h[@s] = old !st_h[@s]'),
               ('the heuristic changes by one', '@op <> -2 -> !st_h[@s] = old !st_h[@s] + 1 \\/ !st_h[@s] = old !st_h[@s] - 1'),
               ('unit cost and the reverse move', '@this.edge_cost = 1 /\\ @this.edge_revcost = 1 /\\ @this.edge_revop = (if @op = -2 then -2 else old !st_b[@s])'),
               ('remembers the state', '@this.edge_state = @s /\\ @this.edge_oldh = old !st_h[@s]'), 'forall x:int. x <> @s -> !st_ts[x] = old !st_ts[x] /\\ !st_b[x] = old !st_b[x] /\\ !st_h[x] = old !st_h[x]'],
          hooks={'entry': 'if it (pure { if @op <> -2 then True else False }) then hs_move (it (pure { @d.d_goalpos })) (it (pure { !st_ts[@s] })) (it (pure { !st_b[@s] })) (it (pure { @op })) nt;'}),
        F('undo', ['d', 's', 'op'], req=dom('@d') + [ST('@s'), '@op = -2 \\/ (0 <= @op < nt /\\ dist !st_b[@s] @op = 1)'],
          ens=[('the state is restored', 'same (old !st_ts[@s]) (old !st_b[@s]) !st_ts[@s] !st_b[@s] /\\ !st_h[@s] = old !st_h[@s]'), ST('@s')]),
        F('nops', ['d', 's'], req=dom('@d') + [ST('@s')], ens=[('all of the moves', 'result = @d.d_ops[!st_b[@s]].anon_ops_n')]),
        F('opat', ['d', 's', 'i'], req=dom('@d') + [ST('@s'), '0 <= @i < @d.d_ops[!st_b[@s]].anon_ops_n'], ens=[('a neighbour of the blank', '0 <= result < nt /\\ dist !st_b[@s] result = 1 /\\ result = @d.d_ops[!st_b[@s]].anon_ops_mvs[@i]')]),
        F('vals', ['d', 's'], req=dom('@d') + [ST('@s')], ens=[('heuristic and goal test', 'result = 2 * hs @d.d_goalpos !st_ts[@s] !st_b[@s] nt + (if solved @d.d_goalpos !st_ts[@s] !st_b[@s] then 1 else 0)')],
          hooks={'entry': 'hs_bound (it (pure { @d.d_goalpos })) (it (pure { !st_ts[@s] })) (it (pure { !st_b[@s] })) nt;'}),
        F('TilesMdist::State::operator==', ['o'], req=['@this <> 0', '0 <= !st_b[@this] < nt'], ens=[('equality of states', 'result = True <-> same !st_ts[@this] !st_b[@this] !st_ts[@o] !st_b[@o]')],
          loops={0: Loop(['0 <= @i <= nt', 'forall i:int. 0 <= i < @i -> i <> !st_b[@this] -> !st_ts[@this][i] = !st_ts[@o][i]'], 'nt - @i')}),
        ] + ([] if n > 16 else [
        F('PackedTiles64::pack', ['ts'], cfg=dict(ptr_val=(0,), ptr_len={0: n}), req=['forall i:int. 0 <= i < nt -> 0 <= @ts[i] < 16'], ens=[('one digit per place', '@this.pkd_word = pk @ts nt')],
          loops={0: Loop(['0 <= @i <= nt', '@this.pkd_word = pk @ts @i'], 'nt - @i', begin='p16_le (it (pure { @i })) 15; pk_bound (it (pure { @ts })) (it (pure { @i })); p16_16 ();')}),
        F('PackedTiles64::unpack_md', ['md', 'ts', 'hp'], cfg=dict(ptr_val=(0,), ptr_ref=(1, 2), ptr_len={0: n, 1: n}, ptr_kind={2: 'obj'}),
          req=['@this.pkd_word = pk !gts nt', '0 <= !blank < nt /\\ forall i:int [!gts[i]]. 0 <= i < nt -> 0 <= !gts[i] < nt /\\ (!gts[i] = 0 <-> i = !blank)', 'goals !gg', 'mdok @md !gg'],
          ens=[('the tiles', 'forall i:int. 0 <= i < nt -> @ts[i] = !gts[i]'), ('the blank', 'result = !blank'), ('the heuristic', '@hp = hs !gg !gts !blank nt')],
          loops={0: Loop(['-1 <= @i < nt', '@w = pk !gts (@i + 1)', 'forall j:int. @i < j < nt -> @ts[j] = !gts[j]', '@b = (if @i < !blank then !blank else -1)', '@h = hs !gg !gts !blank nt - hs !gg !gts !blank (@i + 1)'], '@i + 1',
            begin='pk_bound !gts (it (pure { @i })); pk_bound !gts (it (pure { @i + 1 })); hs_bound !gg !gts !blank (it (pure { @i + 1 })); hs_bound !gg !gts !blank (it (pure { @i })); hs_bound !gg !gts !blank nt; hs_mono !gg !gts !blank (it (pure { @i })) nt;')}),
        F('roundtrip', ['d', 'p', 's', 'buf'], req=dom('@d') + [ST('@s'), '@s <> @buf', ('there is one blank', '0 <= @d.d_goalpos[0] < nt')],
          ens=[('unpacking a packed state gives the state', 'same (old !st_ts[@s]) (old !st_b[@s]) !st_ts[@buf] !st_b[@buf] /\\ !st_h[@buf] = old !st_h[@s]'), ('the packed state is kept', 'same (old !st_ts[@s]) (old !st_b[@s]) !st_ts[@s] !st_b[@s]')],
          hooks={'entry': 'gts := it (pure { (!st_ts[@s])[!st_b[@s] <- 0] }); blank := it (pure { !st_b[@s] }); gg := it (pure { @d.d_goalpos });'}),
        ]))
INCF = '@this.d_goalpos = old @this.d_goalpos /\\ @this.d_init = old @this.d_init /\\ @this.d_ops = old @this.d_ops /\\ @this.d_md = old @this.d_md'
UNITS = [unit(4, 4), unit(5, 5), unit(3, 3)]
