"""C26: limits and counters: the searches count every expansion and generated node, and stop in time (search/search.hpp, search.cc and the search loops)."""
from tr import Unit, F, Loop
import searchlib
from searchlib import PRETYPES, DOM, HEAP, PREFIX
STATE = '''
val born : ref (FS.fset int)
val els : ref (FS.fset int)
val gexp : ref int
val ggen : ref int
val gat : ref int
'''
M64 = '18446744073709551616'
HIT = '(%(l)s.lm_timeup <> 0 \\/ (%(l)s.lm_expd > 0 /\\ %(r)s.expd >= %(l)s.lm_expd) \\/ (%(l)s.lm_gend > 0 /\\ %(r)s.gend >= %(l)s.lm_gend))'
REACHED = HIT % dict(l='@this.al_lim', r='@this.al_res')
COUNT = ('counts are the work done', '@this.al_res.expd = !gexp /\\ @this.al_res.gend = !ggen /\\ 0 <= !gexp < %s /\\ 0 <= !ggen < %s' % (M64, M64))
KEEP = '@this.al_lim = old @this.al_lim'
E_LT = ('below the expansion limit', '@this.al_lim.lm_expd > 0 -> !gexp < @this.al_lim.lm_expd')
G_LT = ('below the generation limit', '@this.al_lim.lm_gend > 0 -> !ggen < @this.al_lim.lm_gend')
E_LE = ('at most the expansion limit', '@this.al_lim.lm_expd > 0 -> !gexp <= @this.al_lim.lm_expd')
G_AT = ('the last expansion began below the generation limit', '@this.al_lim.lm_gend > 0 -> !gexp > 0 -> !gat < @this.al_lim.lm_gend')
G_LE = ('at most the generation limit', '@this.al_lim.lm_gend > 0 -> !ggen <= @this.al_lim.lm_gend')
N = {'nothis': 1}
L = {'mode': 'val', 'cfg': N}
ASSUME = ['constructing the operators of a state is an expansion, constructing an edge is generating a node; fewer than 2^64 of each', 'the time limit flag may be set at any moment, which only stops earlier',
          'what the open list, closed list, pool and state space return is left arbitrary (non-null nodes)']


def dom():
    out = []
    for f in searchlib.dom():
        f.req = []
        if f.name.endswith('::Operators'):
            f.writes = f.writes + ['gexp', 'gat']
            f.ens = f.ens + [(None, '!gexp = old !gexp + 1 /\\ !gexp < %s /\\ !gat = !ggen' % M64)]
        elif f.name.endswith('::Edge'):
            f.writes = f.writes + ['ggen']
            f.ens = [(None, '!ggen = old !ggen + 1 /\\ !ggen < %s /\\ @this.e_state <> 0' % M64)]
        elif f.name.endswith('::size') or f.name.endswith('::unpack'):
            f.ens = f.ens[:1] if f.name.endswith('::size') else [(None, 'result <> 0')]
        elif not f.name.endswith('::h'):
            f.ens = []
        out.append(f)
    return out


def lists(kind, keys):
    W = ['els', 'n_openind']
    return [F('ClosedList::init', ['d'], mode='val', cfg={'nothis': 1, 'drop': (0,)}), F('ClosedList::add', ['n'], nparams=1, wname='f_closed_add1', **L), F('ClosedList::add', ['n', 'h'], nparams=2, wname='f_closed_add2', **L),
            F('ClosedList::find', ['k', 'h'], nparams=2, reads=['p_k'], **L), F('Pool::construct', [], writes=['born', 'n_openind'], ens=['result <> 0'], **L), F('Pool::destruct', ['n'], **L),
            F(kind + '::push', ['n'], writes=W, ens=['not FS.is_empty !els'], **L), F(kind + '::empty', [], reads=['els'], ens=['result = True <-> FS.is_empty !els'], **L)] + ([
            F('BinHeap::pop', [], writes=W, ens=['result.has_i = True <-> not FS.is_empty (old !els)', 'result.has_i = True -> result.val_i <> 0'], **L), F('BinHeap::pushupdate', ['n', 'i'], writes=W, ens=['not FS.is_empty !els'], **L)]
            if kind == 'BinHeap' else [
            F('OpenList::pop', [], writes=W, ens=['result <> 0'], **L), F('OpenList::mem', ['n'], **L), F('OpenList::pre_update', ['n'], writes=W, **L), F('OpenList::post_update', ['n'], writes=W, ens=['not FS.is_empty !els'], **L),
            F('OpenList::clear', [], writes=W, ens=['FS.is_empty !els'], **L)]) + [F('solpath', ['d', 'n', 'res'], mode='val', cfg={'drop': (0,)}, writes=['p_res'],
              ens=['@res.path.len > 0 /\\ @res.expd = old @res.expd /\\ @res.gend = old @res.gend'])]


def unit(name, cls, driver, extra, **kw):
    return Unit(name, '/verif/drivers/%s.cc' % driver, heap=HEAP, prefix=dict(PREFIX, Limit='lm_', **{cls: 'al_'}), pretypes=PRETYPES, prelude=DOM + 'axiom hv_nonneg : forall s:int [hv s]. hv s >= 0\n', opaque=('SDom', 'ClosedList', 'OpenList', 'BinHeap', 'Pool'),
                signed='math', dtors=('Edge',), state=STATE, dropcalls=('SearchAlgorithm::start', 'SearchAlgorithm::finish', 'dfrow', 'dfrowhdr'), assumptions=ASSUME, contracts=dom() + extra, **kw)


def best(name, cls, kind='OpenList', loops=None, req=(), keep=()):
    NN = '@this.al_nodes <> 0'
    K = [KEEP, '@this.al_nodes = old @this.al_nodes', '@this.al_res.path = old @this.al_res.path'] + ['@this.al_%s = old @this.al_%s' % (k, k) for k in keep]
    SAME = [('no expansion', '!gexp = old !gexp /\\ !gat = old !gat')]
    I = [COUNT, E_LE, G_AT, NN, KEEP] + list(req)
    return unit('limits-' + name, cls, name, lists(kind, []) + [
        
        F(cls + '::Node::Node', [], nparams=0),
        F(cls + '::init', ['d', 's0'], req=[NN] + list(req), ens=K + ['result <> 0', '@this.al_res = old @this.al_res', '!gexp = old !gexp /\\ !ggen = old !ggen /\\ !gat = old !gat']),
        F(cls + '::considerkid', ['d', 'parent', 'state', 'op'], req=[NN, '@parent <> 0'] + list(req), ens=K + SAME + [('one node is generated', '!ggen = old !ggen + 1 /\\ !ggen < ' + M64), '@this.al_res.expd = old @this.al_res.expd /\\ @this.al_res.gend = old @this.al_res.gend']),
        F(cls + '::expand', ['d', 'n', 'state'], req=[NN, COUNT, E_LT, G_LT, '@n <> 0'] + list(req), ens=K + I + [('one expansion', '!gexp = old !gexp + 1')],
          loops={0: Loop([COUNT, NN, '@n <> 0', '0 <= @i <= nops @ops.os', '!gexp = old !gexp + 1 /\\ !gat = old !ggen'] + K + list(req), 'nops @ops.os - @i')}),
        F(cls + '::search', ['d', 's0'], req=[NN, COUNT, '!gexp = 0 /\\ !ggen = 0', '@this.al_res.path.len = 0'] + list(req),
          ens=[COUNT, E_LE, G_AT, ('not stopped early', '@this.al_res.path.len = 0 -> FS.is_empty !els \\/ ' + REACHED)],
          loops=loops(I) if loops else {0: Loop(I + ['@this.al_res.path.len = 0'])}),
    ])


def beam(I):
    S = I + ['@this.al_res.path.len = 0 /\\ @solved = False \\/ @this.al_res.path.len > 0 /\\ @solved = True']
    B = lambda c: [('beam nodes', 'forall j:int. 0 <= j < %s -> @beam.dat[j] <> 0' % c)]
    return {0: Loop(S), 1: Loop(S + B('@c') + ['@beam.len = @this.al_width', '0 <= @c', '@c <= @this.al_width', '@solved = False'], '@this.al_width - @c'),
            2: Loop(S + B('@c') + ['0 <= @i <= @c <= @beam.len'], '@c - @i')}


IDA = unit('limits-idastar', 'Idastar', 'idastar', [
    
    F('Idastar::dfs', ['d', 's', 'pop', 'g'], diverges=True, req=[COUNT, E_LT, G_LE], ens=[COUNT, KEEP, E_LE, G_LE],
      loops={0: Loop([COUNT, KEEP, E_LE, G_LE, '0 <= @n <= nops @ops.os'], 'nops @ops.os - @n')}),
    F('Idastar::search', ['d', 's0'], req=[COUNT, '!gexp = 0 /\\ !ggen = 0'], ens=[COUNT, E_LE, G_LE], loops={0: Loop([COUNT, KEEP, E_LE, G_LE])})], copyval=True)
HIT2 = HIT % dict(l='@this', r='@r')
STATS = Unit('limits-stats', '/verif/drivers/search.cc', prefix={'Limit': 'lm_', 'SearchStats': ''}, contracts=[
    F('Limit::Limit', [], nparams=0, ens=[('no limit unless given', '@this.lm_expd = 0 /\\ @this.lm_gend = 0 /\\ @this.lm_timeup = 0 /\\ @this.lm_walltime = 0 /\\ @this.lm_cputime = 0')]),
    F('Limit::reached', ['r'], ens=[('stops exactly when a limit is reached', 'result = True <-> ' + HIT2), '@r = old @r /\\ @this = old @this']),
    F('SearchStats::SearchStats', [], nparams=0, ens=[('counts start at 0', '@this.expd = 0 /\\ @this.gend = 0 /\\ @this.dups = 0 /\\ @this.reopnd = 0')]),
    F('SearchStats::add', ['o'], ens=[('counts are added', ' /\\ '.join('@this.%s = ED.mod (old @this.%s + @o.%s) %s' % (k, k, k, M64) for k in ['expd', 'gend', 'dups', 'reopnd']))])])
UNITS = [best('astar', 'Astar'), best('wastar', 'Wastar', 'BinHeap'), best('greedy', 'Greedy'), best('beam', 'BeamSearch', loops=beam, req=[('positive width', '@this.al_width >= 1')], keep=['width']), IDA, STATS]
