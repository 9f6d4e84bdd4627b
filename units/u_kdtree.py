"""C10: k-d tree (structs/kdtree.hpp), any number kk of dimensions, coordinates as real numbers."""
from tr import Unit, F, Loop
PRE = '''
constant kk : int
axiom kk_pos : 1 <= kk <= 1000000
axiom map_use : forall m:map int int, i:int [m[i]]. (m[i <- 0])[i] = 0
function sq (x : real) : real
predicate use_sq (x : real)
axiom sq_def : forall x:real [use_sq x]. use_sq x /\\ sq x = x *. x
let lemma sq_nonneg (x : real) : unit ensures { 0.0 <=. sq x } = assert { use_sq x }
(* squared Euclidean distance over the first k coordinates *)
function sqd (p q : map int real) (k : int) : real
axiom sqd_0 : forall p q. sqd p q 0 = 0.0
axiom sqd_s : forall p q, k:int. 0 <= k -> sqd p q (k+1) = sqd p q k +. sq (p[k] -. q[k])
let rec lemma sqd_nonneg (p q : map int real) (k : int) : unit
  requires { 0 <= k } ensures { 0.0 <=. sqd p q k } variant { k }
= if k > 0 then begin sqd_nonneg p q (k-1); assert { sqd p q k = sqd p q (k-1) +. sq (p[k-1] -. q[k-1]) } end
let rec lemma sqd_coord (p q : map int real) (k j : int) : unit
  requires { 0 <= j < k } ensures { sq (p[j] -. q[j]) <=. sqd p q k } variant { k }
= assert { sqd p q k = sqd p q (k-1) +. sq (p[k-1] -. q[k-1]) };
  if j < k - 1 then sqd_coord p q (k-1) j else sqd_nonneg p q (k-1)
let lemma sq_mono (x y : real) : unit requires { 0.0 <=. x <=. y } ensures { sq x <=. sq y } = assert { use_sq x }; assert { use_sq y }
let lemma sq_neg (x y : real) : unit requires { x = -. y } ensures { sq x = sq y } = assert { use_sq x }; assert { use_sq y }
(* a point on the other side of the splitting plane is at least as far as the plane *)
let lemma plane (p q : map int real) (j : int) (d : real) : unit
  requires { 0 <= j < kk /\\ 0.0 <=. d } requires { p[j] <=. q[j] -. d \\/ q[j] +. d <=. p[j] }
  ensures { sq d <=. sqd p q kk }
= sqd_coord p q kk j; if p[j] <=. q[j] then begin sq_neg (p[j] -. q[j]) (q[j] -. p[j]); sq_mono d (q[j] -. p[j]) end else sq_mono d (p[j] -. q[j])
predicate beyond (p q : map int real) (j : int) (d : real) = p[j] <=. q[j] -. d \\/ q[j] +. d <=. p[j]
lemma plane_all : forall p q j d [sqd p q kk, beyond p q j d, sq d]. 0 <= j < kk -> 0.0 <=. d -> beyond p q j d -> sq d <=. sqd p q kk
(* local shape of the tree at node y *)
predicate node (pt : map int (map int real)) (sp lf rg : map int int) (sub : map int (map int bool)) (sz : map int int) (y : int) =
  y <> 0 /\\ 0 <= sp[y] < kk /\\ sub[y][y] = True /\\ sz[y] = sz[lf[y]] + sz[rg[y]] + 1 /\\ 0 <= sz[lf[y]] /\\ 0 <= sz[rg[y]] /\\
  (lf[y] <> 0 -> sub[lf[y]][lf[y]] = True) /\\ (rg[y] <> 0 -> sub[rg[y]][rg[y]] = True) /\\
  (forall x:int [sub[y][x]]. sub[y][x] = True -> x = y \\/ sub[lf[y]][x] = True \\/ sub[rg[y]][x] = True) /\\
  (forall x:int [sub[lf[y]][x]]. sub[lf[y]][x] = True -> x <> y /\\ sub[y][x] = True /\\ sub[rg[y]][x] = False /\\ pt[x][sp[y]] <. pt[y][sp[y]]) /\\
  (forall x:int [sub[rg[y]][x]]. sub[rg[y]][x] = True -> x <> y /\\ sub[y][x] = True /\\ sub[lf[y]][x] = False /\\ pt[y][sp[y]] <=. pt[x][sp[y]]) /\\
  (forall x z:int [sub[y][x], sub[x][z]]. sub[y][x] = True /\\ sub[x][z] = True -> sub[y][z] = True)
predicate tree (pt : map int (map int real)) (sp lf rg : map int int) (sub : map int (map int bool)) (sz : map int int) (t : int) =
  sz[0] = 0 /\\ 0 <= sz[t] /\\ (forall x:int [sub[0][x]]. sub[0][x] = False) /\\ (t <> 0 -> sub[t][t] = True) /\\
  (forall y:int [sub[t][y]]. sub[t][y] = True -> node pt sp lf rg sub sz y)
lemma tree_kids : forall pt sp lf rg sub sz t [tree pt sp lf rg sub sz t]. tree pt sp lf rg sub sz t /\\ t <> 0 ->
  tree pt sp lf rg sub sz lf[t] /\\ tree pt sp lf rg sub sz rg[t] /\\ node pt sp lf rg sub sz t /\\ sz[lf[t]] < sz[t] /\\ sz[rg[t]] < sz[t]
predicate shape_same (sp lf rg : map int int) (sub : map int (map int bool)) (sz : map int int) (sp' lf' rg' : map int int) (sub' : map int (map int bool)) (sz' : map int int) (y : int) =
  sp'[y] = sp[y] /\\ lf'[y] = lf[y] /\\ rg'[y] = rg[y] /\\ sub'[y] = sub[y] /\\ sz'[y] = sz[y]
(* the nodes left to visit lie below exactly one entry of the stack; whr x is that entry *)
predicate todo (st : veci) (sub : map int (map int bool)) (whr : map int int) =
  0 <= st.len /\\ (forall i:int [st.dat[i]]. 0 <= i < st.len -> st.dat[i] <> 0) /\\
  (forall i x:int [sub[st.dat[i]][x]]. 0 <= i < st.len /\\ sub[st.dat[i]][x] = True -> whr[x] = i)
predicate rem (st : veci) (sub : map int (map int bool)) (whr : map int int) (x : int) =
  0 <= whr[x] < st.len /\\ sub[st.dat[whr[x]]][x] = True
'''
STATE = '''
val sub : ref (map int (map int bool))
val sz : ref (map int int)
val used : ref (map int bool)
val whr : ref (map int int)
val lastn : ref int
val mk_whr (w : map int int) (l r : map int bool) (il ir : int) : map int int
  ensures { forall x:int [result[x]]. result[x] = (if l[x] then il else if r[x] then ir else w[x]) }
val mk_one (i : int) : map int int ensures { forall x:int [result[x]]. result[x] = i }
val no_one () : map int bool ensures { forall x:int [result[x]]. result[x] = False }
'''
G = '!n_split !n_left !n_right !sub !sz'
TREE = 'tree !n_point %s ' % G
OLD = '(old !n_split) (old !n_left) (old !n_right) (old !sub) (old !sz)'
KD = ['tree !n_point %s @this.root' % G, 'forall x:int [!sub[@this.root][x]]. !sub[@this.root][x] = True -> !used[x] = True', '@this.num = !sz[@this.root]']
UNCH = ['!n_point = old !n_point /\\ !n_data = old !n_data /\\ !n_split = old !n_split /\\ !n_left = old !n_left /\\ !n_right = old !n_right']
UNITS = [Unit('kdtree', '/verif/drivers/kdtree.cc', heap={'N': 'n_'}, prefix={'Kdtree': '', 'iterator': 'it_'}, opaque=('Pool',), signed='math', vmax=2147483646,
              consts={'lit:1009': 'kk', 'dim:1009': 'kk'}, prelude=PRE, state=STATE,
              assumptions=['coordinates are real numbers (rounding of squared distances is not modelled)', 'the pool hands out a node not in use (C12)',
                           'fewer than 2^64 insertions, depth below 2^32'],
              contracts=[
    F('Pool::construct', [], mode='val', cfg=dict(nothis=1), writes=['n_point', 'n_data', 'n_split', 'n_left', 'n_right', 'used'],
      ens=['result <> 0', 'old !used[result] = False', '!used = (old !used)[result <- True]',
           'forall y:int. y <> result -> !n_point[y] = old !n_point[y] /\\ !n_data[y] = old !n_data[y] /\\ !n_split[y] = old !n_split[y] /\\ !n_left[y] = old !n_left[y] /\\ !n_right[y] = old !n_right[y]']),
    F('Kdtree::Kdtree', [], sig='void ()', req=['forall x:int. !sub[0][x] = False', '!sz[0] = 0'], ens=KD + [('holds nothing', '@this.root = 0 /\\ @this.num = 0')]),
    F('Kdtree::size', [], req=KD, ens=[('number of insertions', 'result = !sz[@this.root]')]),
    F('Kdtree::sqdist', ['n', 'pt'], cfg=dict(nothis=1, ptr_val=(1,), ptr_len={1: 1009}), req=['@n <> 0'], ens=[('squared distance', 'result = sqd !n_point[@n] @pt kk')] + UNCH,
      loops={0: Loop(['0 <= @i <= kk', '@s = sqd !n_point[@n] @pt @i'], 'kk - @i', end='assert { use_sq (!n_point[@n][i0] -. @pt[i0]) };', begin='let i0 = it (pure { @i }) in')}),
    F('Kdtree::insert', ['t', 'depth', 'n'], nparams=3, wname='f_ins', cfg=dict(nothis=1),
      req=[TREE + '@t', '@n <> 0 /\\ !sub[@t][@n] = False', '0 <= @depth'],
      variant='!sz[@t]',
      hooks={'exit': '''
        if it (pure { @t = 0 }) then begin
          sub := it (pure { !sub[@n <- (no1[@n <- True])] }); sz := it (pure { !sz[@n <- 1] })
        end else begin
          sub := it (pure { !sub[@t <- (!sub[@t][@n <- True])] }); sz := it (pure { !sz[@t <- !sz[@t] + 1] });
          assert { forall x:int [!sub[!n_left[@t]][x]]. !sub[!n_left[@t]][x] = True -> x <> @t /\\ node !n_point %s x };
          assert { forall x:int [!sub[!n_right[@t]][x]]. !sub[!n_right[@t]][x] = True -> x <> @t /\\ node !n_point %s x };
          assert { node !n_point %s @t };
        end;''' % (G, G, G), 'entry': 'let no1 = no_one () in'},
      ens=[('search tree', TREE + 'result'), ('root kept', 'result = (if @t = 0 then @n else @t)'), ('exactly one node more', 'forall x:int. !sub[result][x] = True <-> (x = @n \\/ old !sub[@t][x] = True)'),
           ('counted', '!sz[result] = old !sz[@t] + 1'), ('points unchanged', '!n_point = old !n_point /\\ !n_data = old !n_data'),
           ('other trees unchanged', 'forall y:int. y <> @n /\\ old !sub[@t][y] = False -> shape_same %s %s y' % (OLD, G))]),
    F('Kdtree::insert', ['pt', 'd'], nparams=2, wname='f_insert', cfg=dict(ptr_val=(0,), ptr_len={0: 1009}), req=KD + ['0 <= @this.num < 18446744073709551615'], hooks={'after:construct#0': 'lastn := @callres;'},
      loops={0: Loop(['0 <= @i <= kk', '!sub = old !sub', '@this = old @this', 'forall j:int [!n_point[@n][j]]. 0 <= j < @i -> !n_point[@n][j] = @pt[j]', 'forall y:int [!n_point[y]]. y <> @n -> !n_point[y] = old !n_point[y]'], 'kk - @i')},
      ens=KD + [('one point more', '@this.num = old @this.num + 1'), ('the point and its data are stored', 'let n = !lastn in !sub[@this.root][n] = True /\\ old !sub[old @this.root][n] = False /\\ !n_data[n] = @d /\\ (forall j:int. 0 <= j < kk -> !n_point[n][j] = @pt[j]) /\\ (forall x:int. !sub[@this.root][x] = True <-> (x = n \\/ old !sub[old @this.root][x] = True))'),
                ('other points kept', 'forall x:int. old !sub[old @this.root][x] = True -> !n_point[x] = old !n_point[x] /\\ !n_data[x] = old !n_data[x]')]),
    F('Kdtree::nearest', ['t', 'pt', 'range'], nparams=3, wname='f_near', cfg=dict(nothis=1, ptr_val=(1,), ptr_ref=(2,), ptr_kind={2: 'obj'}, ptr_len={1: 1009}),
      req=[TREE + '@t'], variant='!sz[@t]',
      hooks={'after:nearest#0': '''assert { use_sq @diff };
        assert { forall x:int [!sub[@otherSide][x]]. !sub[@otherSide][x] = True -> beyond !n_point[x] @pt !n_split[@t] @diff && sq @diff <=. sqd !n_point[x] @pt kk };
        assert { beyond !n_point[@t] @pt !n_split[@t] @diff && sq @diff <=. sqd !n_point[@t] @pt kk };'''},
      ens=UNCH + [('stored', 'result <> 0 -> !sub[@t][result] = True'),
           ('within the range', 'result <> 0 -> sqd !n_point[result] @pt kk = @range <=. old @range'),
           ('range kept', 'result = 0 -> @range = old @range'),
           ('none closer', 'forall x:int. !sub[@t][x] = True -> if result = 0 then @range <. sqd !n_point[x] @pt kk else @range <=. sqd !n_point[x] @pt kk')]),
    F('Kdtree::nearest', ['pt'], nparams=1, wname='f_nearest', cfg=dict(ptr_val=(0,), ptr_len={0: 1009}),
      req=KD + [('finite distances', 'forall x:int. !sub[@this.root][x] = True -> sqd !n_point[x] @pt kk <=. f_inf')],
      ens=UNCH + [('nothing exactly when empty', 'result = 0 <-> @this.root = 0'), ('a stored point', 'result <> 0 -> !sub[@this.root][result] = True'),
           ('at the smallest distance', 'forall x:int. !sub[@this.root][x] = True -> sqd !n_point[result] @pt kk <=. sqd !n_point[x] @pt kk')]),
    F('Kdtree::begin', [], req=KD, hooks={'exit': 'whr := mk_one 0;'},
      ens=[('everything is left to visit', 'todo result.it_nodes !sub !whr /\\ forall x:int. rem result.it_nodes !sub !whr x <-> !sub[@this.root][x] = True'), '@this = old @this']),
    F('Kdtree::end', [], ens=['result.it_nodes.len = 0']),
    F('Kdtree::iterator::operator*', [], wname='f_it_deref', cfg=dict(this_val=1), req=['0 < @this.it_nodes.len'], ens=['result = @this.it_nodes.dat[@this.it_nodes.len - 1]']),
    F('Kdtree::iterator::operator++', [], wname='f_it_incr', req=['todo @this.it_nodes !sub !whr', '0 < @this.it_nodes.len', 'forall i:int [@this.it_nodes.dat[i]]. 0 <= i < @this.it_nodes.len -> ' + TREE + '@this.it_nodes.dat[i]'],
      hooks={'entry': 'let st0 = it (pure { @this.it_nodes }) in let w0 = it (pure { !whr }) in',
             'exit': '''let tp = it (pure { st0.dat[st0.len - 1] }) in let r0 = it (pure { !n_right[tp] }) in let l0 = it (pure { !n_left[tp] }) in
        assert { !sub[tp][tp] = True };
        assert { node !n_point !n_split !n_left !n_right !sub !sz tp };
        assert { forall i:int [@this.it_nodes.dat[i]]. 0 <= i < st0.len - 1 -> @this.it_nodes.dat[i] = st0.dat[i] };
        assert { forall x:int [!sub[tp][x]]. !sub[tp][x] = True <-> (x = tp \\/ !sub[l0][x] = True \\/ !sub[r0][x] = True) };
        whr := mk_whr w0 (it (pure { !sub[l0] })) (it (pure { !sub[r0] })) (it (pure { @this.it_nodes.len - 1 })) (it (pure { st0.len - 1 }));
        whr := it (pure { !whr[tp <- -1] });'''},
      ens=[('each node once', 'todo @this.it_nodes !sub !whr'), ('only the current one is done', 'forall x:int. rem @this.it_nodes !sub !whr x <-> (rem (old @this.it_nodes) !sub (old !whr) x /\\ x <> (old @this.it_nodes).dat[(old @this.it_nodes).len - 1])'),
           'forall i:int [@this.it_nodes.dat[i]]. 0 <= i < @this.it_nodes.len -> ' + TREE + '@this.it_nodes.dat[i]']),
    ])]
