"""What the search units share: an arbitrary state space, and the open list, closed list and node pool as the
searches see them (the contracts proved for them by the units of C05, C06, C07, C12 and u_openadapt, restated over node fields)."""
from tr import Unit, F, Loop
PRETYPES = 'use set.Fset as FS\n'
DOM = '''
(* the state space: states, operators, costs, heuristic; un k is the state a packed key stands for *)
function hv int : int
predicate isgoal int
function nops int : int
function opat int int : int
function cst int int : int
function succ int int : int
function rev int int : int
function un int : int
function hashf int : int
predicate appl int int
function opix int int : int
axiom appl_ix : forall s o:int [appl s o]. appl s o -> 0 <= opix s o < nops s /\\ opat s (opix s o) = o
axiom appl_at : forall s j:int [opat s j]. 0 <= j < nops s -> appl s (opat s j)
axiom nops_range : forall s:int [nops s]. 0 <= nops s <= 4294967295
axiom cst_nonneg : forall s o:int [cst s o]. appl s o -> cst s o >= 0
axiom nop : forall s o:int [appl s o]. appl s o -> o <> -1
axiom rev_back : forall s o:int [rev s o]. appl s o -> appl (succ s o) (rev s o) -> succ (succ s o) (rev s o) = s
type path = Nil | Cons int path
predicate valid (s : int) (p : path) = match p with Nil -> true | Cons o q -> appl s o /\\ valid (succ s o) q end
function endst (s : int) (p : path) : int = match p with Nil -> s | Cons o q -> endst (succ s o) q end
function pcost (s : int) (p : path) : int = match p with Nil -> 0 | Cons o q -> cst s o + pcost (succ s o) q end
predicate goalpath (s : int) (p : path) = valid s p /\\ isgoal (endst s p)
'''
ADMISSIBLE = '''
axiom hv_nonneg : forall s:int [hv s]. hv s >= 0
axiom admissible : forall s:int, p:path [goalpath s p]. goalpath s p -> hv s <= pcost s p
'''
NODES = '''
(* nodeof: the closed list, the node of a state or 0 *)
predicate isn (nodeof : map int int) (nst : map int r_packedstate) (n : int) = n <> 0 /\\ nodeof[un nst[n].pk_k] = n
predicate nodes (nodeof : map int int) (nst : map int r_packedstate) (born : FS.fset int) =
  forall s:int [nodeof[s]]. nodeof[s] <> 0 -> un nst[nodeof[s]].pk_k = s /\\ FS.mem nodeof[s] born
(* the parent pointers form a tree of real transitions rooted in the node of the start state; rk breaks ties between zero-cost steps *)
predicate tree (nodeof : map int int) (nst : map int r_packedstate) (par op pop g rk : map int int) (s0 n0 : int) =
  nodeof[s0] = n0 /\\ n0 <> 0 /\\ par[n0] = 0 /\\ g[n0] = 0 /\\ pop[n0] = -1 /\\
  (forall s:int [nodeof[s]]. nodeof[s] <> 0 -> un nst[nodeof[s]].pk_k = s) /\\
  (forall n:int [par[n]]. isn nodeof nst n -> n <> n0 -> link nodeof nst par op pop g rk n) /\\
  (forall n:int [g[n]]. isn nodeof nst n -> g[n] >= 0 /\\ rk[n] >= 0)
'''.replace('predicate tree', '''predicate link (nodeof : map int int) (nst : map int r_packedstate) (par op pop g rk : map int int) (n : int) =
  let p = par[n] in let s = un nst[p].pk_k in
  isn nodeof nst p /\\ appl s op[n] /\\ succ s op[n] = un nst[n].pk_k /\\ pop[n] = rev s op[n] /\\ g[n] >= g[p] + cst s op[n] /\\
  (g[p] < g[n] \\/ (g[p] = g[n] /\\ rk[p] < rk[n]))
predicate tree''')
STATE = '''
val nodeof : ref (map int int)
val born : ref (FS.fset int)
val els : ref (FS.fset int)
val pend : ref int
val rk : ref (map int int)
val s0 : ref int
val n0 : ref int
'''
RK = {'entry': 'let b_g = it (pure { !n_g }) in let b_no = it (pure { !nodeof }) in let b_els = it (pure { !els }) in let b_st = it (pure { !n_state }) in let b_par = it (pure { !n_parent }) in let b_op = it (pure { !n_op }) in let b_pop = it (pure { !n_pop }) in let b_rk = it (pure { !rk }) in',
      'exit': r"""let k = it (pure { succ !vs[@state] @op }) in let kn = it (pure { !nodeof[k] }) in
  if it (pure { if b_no[k] = 0 \/ b_g[kn] > !n_g[kn] then True else False }) then rk := it (pure { !rk[kn <- !rk[@parent] + 1] });
  assert { forall s:int [!nodeof[s]]. s <> k -> !nodeof[s] = b_no[s] };
  assert { forall n:int [isn !nodeof !n_state n]. n <> kn -> isn !nodeof !n_state n -> isn b_no b_st n };
  assert { forall n:int. isn b_no b_st n -> isn !nodeof !n_state n /\ !n_state[n].pk_k = b_st[n].pk_k /\ !n_g[n] <= b_g[n] };
  assert { forall n:int. n <> kn -> isn b_no b_st n -> !n_g[n] = b_g[n] /\ !n_parent[n] = b_par[n] /\ !n_op[n] = b_op[n] /\ !n_pop[n] = b_pop[n] /\ !rk[n] = b_rk[n] };
  assert { isn b_no b_st kn -> !n_g[kn] < b_g[kn] \/ (!n_g[kn] = b_g[kn] /\ !n_parent[kn] = b_par[kn] /\ !n_op[kn] = b_op[kn] /\ !n_pop[kn] = b_pop[kn] /\ !rk[kn] = b_rk[kn]) };
  assert { kn <> !n0 -> isn b_no b_st kn -> !n_g[kn] = b_g[kn] -> link b_no b_st b_par b_op b_pop b_g b_rk kn };
  assert { kn <> !n0 -> link !nodeof !n_state !n_parent !n_op !n_pop !n_g !rk kn };
  assert { forall n:int. n <> kn -> n <> !n0 -> isn b_no b_st n -> link b_no b_st b_par b_op b_pop b_g b_rk n };
  assert { forall n:int. n <> kn -> n <> !n0 -> isn b_no b_st n -> link !nodeof !n_state !n_parent !n_op !n_pop !n_g !rk n };
  assert { !nodeof[!s0] = !n0 /\ !n0 <> 0 /\ !n_parent[!n0] = 0 /\ !n_g[!n0] = 0 /\ !n_pop[!n0] = -1 };
  assert { forall n:int [!n_parent[n]]. isn !nodeof !n_state n -> n <> !n0 -> link !nodeof !n_state !n_parent !n_op !n_pop !n_g !rk n };
  assert { forall n:int [!n_g[n]]. isn !nodeof !n_state n -> !n_g[n] >= 0 /\ !rk[n] >= 0 };
  assert { forall x:int [FS.mem x !els]. x <> kn -> (FS.mem x b_els <-> FS.mem x !els) };
  assert { isn b_no b_st kn -> !n_g[kn] = b_g[kn] \/ FS.mem kn !els };
  assert { not isn b_no b_st kn -> FS.mem kn !els };"""}
TREE = 'tree !nodeof !n_state !n_parent !n_op !n_pop !n_g !rk !s0 !n0'
NODESOK = 'nodes !nodeof !n_state !born'


def dom():
    N = {'nothis': 1}
    return [
        F('SDom::PackedState::hash', ['d'], mode='val', cfg={'this_val': 1, 'drop': (0,)}, ens=['result = hashf (un this.pk_k)']),
        F('SDom::PackedState::eq', ['d', 'o'], mode='val', cfg={'this_val': 1, 'drop': (0,)}, ens=['result = True <-> un this.pk_k = un @o.pk_k']),
        F('SDom::Operators::Operators', ['d', 's'], sig='void (const SDom &, const State &)', mode='val', cfg={'drop': (0,)}, reads=['vs'], writes=['this'], ens=['@this.os = !vs[@s]']),
        F('SDom::Operators::size', [], mode='val', cfg={'this_val': 1}, ens=['result = nops this.os']),
        F('SDom::Operators::operator[]', ['i'], mode='val', cfg={'this_val': 1}, req=[('operator index in range', '0 <= @i < nops this.os')], ens=['result = opat this.os @i']),
        F('SDom::Edge::Edge', ['d', 's', 'o'], sig='void (const SDom &, State &, int)', mode='val', cfg={'drop': (0,)}, writes=['this', 'vs'],
          req=[('operator is applicable', 'appl !vs[@s] @o')],
          ens=['@this.e_cost = cst (old !vs[@s]) @o /\\ @this.e_revop = rev (old !vs[@s]) @o /\\ @this.e_src = @s /\\ @this.e_orig = old !vs[@s]', '!vs[@this.e_state] = succ (old !vs[@s]) @o /\\ @this.e_now = succ (old !vs[@s]) @o /\\ @this.e_state <> 0',
               'forall a:int. a <> @s -> a <> @this.e_state -> !vs[a] = old !vs[a]']),
        F('SDom::Edge::~Edge', [], mode='val', req=[('the state is as the edge left it', '!vs[@this.e_state] = @this.e_now')], writes=['vs'], ens=['!vs = (old !vs)[@this.e_src <- @this.e_orig]']),
        F('SDom::h', ['s'], mode='val', cfg=N, reads=['vs'], ens=['result = hv !vs[@s]']),
        F('SDom::d', ['s'], mode='val', cfg=N, reads=['vs']),
        F('SDom::isgoal', ['s'], mode='val', cfg=N, reads=['vs'], ens=['result = True <-> isgoal !vs[@s]']),
        F('SDom::pack', ['p', 's'], mode='val', cfg=N, reads=['vs'], writes=['p_p'], ens=['un @p.pk_k = !vs[@s]']),
        F('SDom::unpack', ['b', 'p'], mode='val', cfg=N, writes=['vs'], ens=['!vs[result] = un @p.pk_k /\\ result <> 0', 'forall a:int. a <> @b -> a <> result -> !vs[a] = old !vs[a]']),
    ]




def oinv(keys, ex=''):
    """the open list's own invariant as a search sees it; keys: (ghost snapshot, current value) of what orders the nodes"""
    same = ' /\\ '.join('!%s[x] = %s[x]' % k for k in keys)
    return [('open-list indices', 'forall x:int [!n_openind[x]]. FS.mem x !born -> (FS.mem x !els <-> !n_openind[x] >= 0)'),
            ('keys of queued nodes unchanged', 'forall x:int [FS.mem x !els]. FS.mem x !els -> %s%s' % ('x <> %s -> ' % ex if ex else '', same)),
            ('queued nodes are live', 'forall x:int [FS.mem x !els]. FS.mem x !els -> FS.mem x !born')]


def keystate(keys, types=None):
    return ''.join('val %s : ref (map int %s)\n' % (k, (types or {}).get(k, 'int')) for k, _ in keys)


def lists(keys, best='true', kind='OpenList'):
    """closed list, open list and pool. best: what holds between a popped node and every other node x that was queued"""
    N = {'nothis': 1}
    K = ('stored keys unchanged', NODESOK)
    O = oinv(keys)
    W = [k for k, _ in keys]
    ADD = [('key not stored yet', '!nodeof[un !n_state[@n].pk_k] = 0'), '@n <> 0', ('a live node', 'FS.mem @n !born')]
    P0 = ('no update pending', '!pend = 0')
    BEST = 'forall x:int [FS.mem x (old !els)]. FS.mem x (old !els) -> ' + best
    out = [
        F('ClosedList::init', ['d'], mode='val', cfg={'nothis': 1, 'drop': (0,)}),
        F('ClosedList::add', ['n'], nparams=1, mode='val', cfg=N, wname='f_closed_add1', req=[K] + ADD,
          writes=['nodeof'], ens=['!nodeof = (old !nodeof)[un !n_state[@n].pk_k <- @n]']),
        F('ClosedList::add', ['n', 'h'], nparams=2, mode='val', cfg=N, wname='f_closed_add2', req=[K] + ADD + [('the hash of its key', '@h = hashf (un !n_state[@n].pk_k)')],
          writes=['nodeof'], ens=['!nodeof = (old !nodeof)[un !n_state[@n].pk_k <- @n]']),
        F('ClosedList::find', ['k', 'h'], nparams=2, mode='val', cfg=N, req=[K, ('the hash of the key', '@h = hashf (un @k.pk_k)')], reads=['nodeof', 'p_k'],
          ens=['result = !nodeof[un @k.pk_k]']),
        F('Pool::construct', [], mode='val', cfg=N, writes=['born', 'n_openind'],
          ens=['result <> 0 /\\ not FS.mem result (old !born) /\\ !born = FS.add result (old !born)', '!n_openind = (old !n_openind)[result <- -1]']),
        F('Pool::destruct', ['n'], mode='val', cfg=N, writes=['born'], req=[('destroyed once', 'FS.mem @n !born'), ('not queued', 'not FS.mem @n !els')], ens=['!born = FS.remove @n (old !born)']),
        F(kind + '::push', ['n'], mode='val', cfg=N, req=O + [P0, '@n <> 0', ('a live node', 'FS.mem @n !born'), ('not queued yet', 'not FS.mem @n !els')],
          writes=['els', 'n_openind'] + W, ens=['!els = FS.add @n (old !els)'] + O),
        F(kind + '::empty', [], mode='val', cfg=N, req=[P0], reads=['els'], ens=['result = True <-> FS.is_empty !els']),
    ]
    if kind == 'BinHeap':
        return out + [
            F('BinHeap::pop', [], mode='val', cfg=N, req=O + [P0], writes=['els', 'n_openind'],
              ens=['result.has_i = True <-> not FS.is_empty (old !els)', 'result.has_i = True -> let r = result.val_i in FS.mem r (old !els) /\\ r <> 0 /\\ !els = FS.remove r (old !els) /\\ ' + BEST.replace('result', 'r')] + O),
            F('BinHeap::pushupdate', ['n', 'i'], mode='val', cfg=N, req=[O[0]] + oinv(keys, '@n')[1:] + [P0, '@n <> 0', ('a live node', 'FS.mem @n !born'), ('its index', '@i = !n_openind[@n]')],
              writes=['els', 'n_openind'] + W, ens=['!els = FS.add @n (old !els)'] + O)]
    return out + [
        F('OpenList::pop', [], mode='val', cfg=N, req=O + [P0, ('not empty', 'not FS.is_empty !els')],
          writes=['els', 'n_openind'], ens=['FS.mem result (old !els) /\\ result <> 0', '!els = FS.remove result (old !els)', BEST] + O),
        F('OpenList::mem', ['n'], mode='val', cfg=N, req=[O[0], ('a live node', 'FS.mem @n !born')], reads=['els'], ens=['result = True <-> FS.mem @n !els']),
        F('OpenList::pre_update', ['n'], mode='val', cfg=N, req=O + [P0, ('queued', 'FS.mem @n !els')], writes=['els', 'pend', 'n_openind'],
          ens=['!els = FS.remove @n (old !els) /\\ !pend = @n /\\ @n <> 0', 'forall x:int [!n_openind[x]]. FS.mem x !born -> x <> @n -> (FS.mem x !els <-> !n_openind[x] >= 0)'] + O[1:]),
        F('OpenList::post_update', ['n'], mode='val', cfg=N, req=[('pre_update was called', '!pend = @n /\\ @n <> 0')] + O[1:], writes=['els', 'pend', 'n_openind'] + W,
          ens=['!els = FS.add @n (old !els) /\\ !pend = 0'] + O),
        F('OpenList::clear', [], mode='val', cfg=N, req=O + [P0], writes=['els', 'n_openind'], ens=['FS.is_empty !els'] + O),
    ]


QUEUED = r"""
predicate queued (els : FS.fset int) (nodeof : map int int) (nst : map int r_packedstate) =
  forall n:int [FS.mem n els]. FS.mem n els -> isn nodeof nst n
"""
PLAN = '''
(* p: the states, last one first; o: the operators between them *)
predicate step (p o : map int int) (i : int) = appl p[i+1] o[i] /\\ succ p[i+1] o[i] = p[i]
let rec ghost function plancost (p o : map int int) (k : int) : int variant { k } = if k <= 0 then 0 else plancost p o (k-1) + cst p[k] o[k-1]
let rec lemma plancost_eq (p o p2 o2 : map int int) (k : int)
  requires { forall i:int. 0 <= i <= k -> p[i] = p2[i] }
  requires { forall i:int. 0 <= i < k -> o[i] = o2[i] }
  ensures { plancost p o k = plancost p2 o2 k } variant { k }
= if k > 0 then plancost_eq p o p2 o2 (k-1)
'''
DONE = QUEUED + r"""
(* the kid of n under o is known, and unless duplicates are dropped at a cost no worse than through n *)
predicate done_ (dd : bool) (nodeof : map int int) (g : map int int) (s n o : int) =
  nodeof[succ s o] <> 0 /\\ (dd = False -> g[nodeof[succ s o]] <= g[n] + cst s o)
(* nodes that are neither queued nor the one being expanded have had all their kids considered, and are no goals *)
predicate expanded (dd : bool) (nodeof : map int int) (g : map int int) (els : FS.fset int) (cur : int) =
  forall s:int [nodeof[s]]. nodeof[s] <> 0 -> not FS.mem nodeof[s] els -> nodeof[s] <> cur ->
    not isgoal s /\\ forall o:int [succ s o]. appl s o -> done_ dd nodeof g s nodeof[s] o
""".replace('\\\\', '\\')

EXP = r"""
  assert { forall s:int. !nodeof[s] <> 0 -> not FS.mem !nodeof[s] !els -> !nodeof[s] <> @parent -> b_no[s] = !nodeof[s] /\ not FS.mem b_no[s] b_els /\ !n_g[b_no[s]] = b_g[b_no[s]] };
  assert { forall s o:int. !nodeof[s] <> 0 -> not FS.mem !nodeof[s] !els -> !nodeof[s] <> @parent -> not isgoal s /\ (appl s o -> done_ DD b_no b_g s b_no[s] o) };
  assert { forall s o n:int. b_no[s] <> 0 -> n = b_no[s] -> !n_g[n] = b_g[n] -> done_ DD b_no b_g s n o -> done_ DD !nodeof !n_g s n o };
"""
HEAP = {'Node': 'n_', 'State': ''}
PREFIX = {'PackedState': 'pk_', 'Edge': 'e_', 'Operators': '', 'Result': '', 'SearchStats': ''}
OPAQUE = ('SDom', 'ClosedList', 'OpenList', 'BinHeap', 'Pool', 'Limit')
SPACE = ['the state space: operator costs are non-negative, states that pack equally are equal, applying the reverse operator of an operator leads back (domain properties C16 to C21), destroying an edge restores the state it was made from',
         'the open list, closed list and node pool behave as their own contracts say (C05, C06, C07, C12), restated over node fields',
         'path costs are mathematical integers (no overflow), start() and finish() only take times']


def bestfirst(name, cls, driver, keys, fgh, keep, ens, prelude, best='true', kind='OpenList', dd='False', types=None, search=None, initens='', begin='', flags=(), assumptions=(), post=None, kident='', kidexit='', initexit=''):
    """the loop, expansion and generation of one best-first search"""
    I = [('tree of transitions', TREE), ('stored nodes', NODESOK)] + fgh + [('queued nodes are stored', 'queued !els !nodeof !n_state'), ('no update pending', '!pend = 0')] + oinv(keys)
    E = (lambda cur: ['expanded %s !nodeof !n_g !els %s' % (dd, cur)]) if dd else (lambda cur: [])
    P0 = ['isn !nodeof !n_state @parent'] + (['not FS.mem @parent !els'] if dd else []) + E('@parent')
    n = lambda xs: [x.replace('@parent', '@n') if isinstance(x, str) else x for x in xs]
    KEEP = ['@this.%s = old @this.%s' % (k, k) for k in ['al_nodes', 'al_res.path', 'al_res.ops'] + ['al_' + k for k in keep]]
    NN = '@this.al_nodes <> 0'
    DN = lambda s, n, o: 'done_ %s !nodeof !n_g %s %s %s' % (dd, s, n, o) if dd else 'true'
    GROW = [('stored nodes stay', 'forall s:int [!nodeof[s]]. old !nodeof[s] <> 0 -> !nodeof[s] = old !nodeof[s] /\\ !n_g[!nodeof[s]] <= old !n_g[!nodeof[s]]')]
    FRESH = ['FS.is_empty !els', 'forall s:int. !nodeof[s] = 0', '!pend = 0', NN, '@this.al_res.path.len = 0', '!over = False', 'forall x:int. FS.mem x !born -> !n_openind[x] < 0']
    cs = dom() + lists(keys, best, kind) + [
        F('SearchAlgorithm::limit', [], mode='val', cfg={'nothis': 1}, writes=['over'], ens=['result = !over']),
        F('solpath', ['d', 'n', 'res'], mode='val', cfg={'drop': (0,)}, req=[TREE, ('a stored node', 'isn !nodeof !n_state @n'), ('a goal', 'isgoal (un !n_state[@n].pk_k)')], writes=['p_res', 'gcost'],
          ens=['@res.path.len > 0', '!gcost = !n_g[@n]']),
        F(cls + '::Node::Node', [], nparams=0, ens=[('a new node is not queued', '!n_openind = (old !n_openind)[@this <- -1]')]),
        F(cls + '::init', ['d', 's0'], req=[NN] + search_req(post), hooks={'exit': initexit} if initexit else None,
          ens=['result <> 0 /\\ FS.mem result !born /\\ not FS.mem result (old !born) /\\ !born = FS.add result (old !born)', 'forall x:int. x <> result -> !n_openind[x] = old !n_openind[x]', 'un !n_state[result].pk_k = !vs[@s0]',
               '!n_parent[result] = 0 /\\ !n_pop[result] = -1 /\\ !n_g[result] = 0' + initens, '!n_openind[result] = -1'] + KEEP),
        F(cls + '::considerkid', ['d', 'parent', 'state', 'op'], hooks=dict(entry=RK['entry'] + ' ' + kident, exit=RK['exit'] + (EXP.replace('DD', dd) if dd else '') + kidexit),
          req=I + P0 + ['!vs[@state] = un !n_state[@parent].pk_k', NN, 'appl !vs[@state] @op'] + search_req(post),
          ens=I + GROW + P0 + ['!n_state[@parent].pk_k = old !n_state[@parent].pk_k', '!vs[@state] = old !vs[@state]', ('the kid is known', DN('!vs[@state]', '@parent', '@op')), '!n_g[@parent] = old !n_g[@parent]', ('only what was queued or the kid is queued', 'forall x:int [FS.mem x !els]. FS.mem x (old !els) -> FS.mem x !els')] + KEEP),
        F(cls + '::expand', ['d', 'n', 'state'], req=I + n(P0) + ['!vs[@state] = un !n_state[@n].pk_k', NN] + ([('a goal is never expanded', 'not isgoal !vs[@state]')] if dd else []) + search_req(post),
          ens=I + GROW + E('0') + KEEP,
          loops={0: Loop(I + GROW + n(P0) + ['!vs[@state] = un !n_state[@n].pk_k', '!vs[@state] = old !vs[@state]', '@ops.os = !vs[@state]', '0 <= @i <= nops !vs[@state]'] + KEEP +
                         ([('kids so far are known', 'forall j:int [opat !vs[@state] j]. 0 <= j < @i -> ' + DN('!vs[@state]', '@n', '(opat !vs[@state] j)'))] if dd else []), 'nops !vs[@state] - @i')}),
        F(cls + '::search', ['d', 's0'], req=FRESH + search_req(post), hooks={'after:init#0': 's0 := it (pure { !vs[@s0] }); n0 := @callres;'}, ens=ens,
          loops=search(I, E, KEEP) if search else {0: Loop(I + E('0') + KEEP + ['!s0 = old !vs[@s0]'], before=START, begin=begin)}),
    ]
    return Unit(name, driver, flags=flags, heap=HEAP, prefix=dict(PREFIX, **{cls: 'al_'}), pretypes=PRETYPES, prelude=prelude, opaque=OPAQUE, signed='math', dtors=('Edge',),
                state=STATE + keystate(keys, types) + 'val over : ref bool\nval gcost : ref int\n', dropcalls=('SearchAlgorithm::start', 'SearchAlgorithm::finish'), assumptions=SPACE + list(assumptions), contracts=cs)


def search_req(post):
    return list(post or [])


START = """assert { forall s:int [!nodeof[s]]. !nodeof[s] = (if s = !s0 then !n0 else 0) };
  assert { forall n:int [isn !nodeof !n_state n]. isn !nodeof !n_state n -> n = !n0 }; rk := it (pure { !rk[!n0 <- 0] });"""
