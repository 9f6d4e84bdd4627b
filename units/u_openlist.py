"""C06: bucketed open list (search/search.hpp, OpenList<Ops, Node, IntOpenCost>)."""
from tr import Unit, F, Loop
PRE = '''

(* one priority's buckets, one per tie-break value: s is the set of nodes in them *)
predicate mq (q : r_maxq) (s : FS.fset int) (tie ind : map int int) =
  q.mq_fill = FS.cardinal s /\\ 1 <= q.mq_bkts.len_veci <= 2147483648 /\\ 0 <= q.mq_max < q.mq_bkts.len_veci /\\
  (forall x:int [FS.mem x s]. FS.mem x s -> x <> 0 /\\ 0 <= tie[x] <= q.mq_max /\\
     0 <= ind[x] < q.mq_bkts.dat_veci[tie[x]].len /\\ q.mq_bkts.dat_veci[tie[x]].dat[ind[x]] = x) /\\
  (forall t:int [q.mq_bkts.dat_veci[t]]. 0 <= t < q.mq_bkts.len_veci -> 0 <= q.mq_bkts.dat_veci[t].len <= 2147483648) /\\
  (forall t i:int [q.mq_bkts.dat_veci[t].dat[i]]. 0 <= t < q.mq_bkts.len_veci -> 0 <= i < q.mq_bkts.dat_veci[t].len ->
     let y = q.mq_bkts.dat_veci[t].dat[i] in FS.mem y s /\\ tie[y] = t /\\ ind[y] = i)
'''
# facts about a bucket group, proved from its definition in the first unit and all the second one knows about it
FACTS = '''
%(k)s mq_frame : forall q:r_maxq, s:FS.fset int, t1 i1 t2 i2:map int int [mq q s t1 i1, mq q s t2 i2].
  mq q s t1 i1 -> (forall x:int. FS.mem x s -> t1[x] = t2[x] /\\ i1[x] = i2[x]) -> mq q s t2 i2
%(k)s mq_same : forall q:r_maxq, s1 s2:FS.fset int, t1 i1 t2 i2:map int int [mq q s1 t1 i1, mq q s2 t2 i2].
  mq q s1 t1 i1 -> FS.is_empty s1 -> FS.is_empty s2 -> mq q s2 t2 i2
%(k)s mq_mem : forall q:r_maxq, s:FS.fset int, t i:map int int, x:int [mq q s t i, FS.mem x s].
  mq q s t i -> FS.mem x s -> x <> 0 /\\ 0 <= t[x] /\\ i[x] >= 0
'''
PRE2 = 'predicate mq (q : r_maxq) (s : FS.fset int) (tie ind : map int int)\n' + FACTS % dict(k='axiom') + '''
(* the first p groups have been cleared *)
predicate left (q : r_openlist) (p : int) (els : FS.fset int) (ind0 ind prio : map int int) =
  forall x:int [ind[x]]. if FS.mem x els /\\ prio[x] < p then ind[x] < 0 else ind[x] = ind0[x]
predicate wf (q : r_openlist) (els : FS.fset int) (pel : map int (FS.fset int)) (prio tie ind : map int int) =
  q.fill = FS.cardinal els /\\ 0 <= q.qs.len_maxq <= 2147483648 /\\ 0 <= q.min <= q.qs.len_maxq /\\
  (forall p:int [q.qs.dat_maxq[p]]. 0 <= p < q.qs.len_maxq -> mq q.qs.dat_maxq[p] pel[p] tie ind) /\\
  (forall x:int [FS.mem x els]. FS.mem x els -> 0 <= prio[x] < q.qs.len_maxq /\\ FS.mem x pel[prio[x]]) /\\
  (forall x p:int [FS.mem x pel[p]]. FS.mem x pel[p] -> prio[x] = p /\\ FS.mem x els) /\\
  (forall p:int [pel[p]]. 0 <= p < q.min -> FS.is_empty pel[p]) /\\
  (forall x:int [ind[x]]. FS.mem x els <-> ind[x] >= 0)
'''
STATE = '''
val gs : ref (FS.fset int)
val els : ref (FS.fset int)
val pel : ref (map int (FS.fset int))
val prio : ref (map int int)
val tie : ref (map int int)
val ind : ref (map int int)
'''
WF = 'wf @this !els !pel !prio !tie !ind'
MQ = 'mq @this !gs !tie !ind'
OUT = ('others unchanged', 'forall x:int. x <> %s -> (!ind[x] >= 0 <-> old !ind[x] >= 0)')
ACC = [
    F('VOps::prio', ['n'], mode='val', reads=['prio'], ens=['result = !prio[@n]']),
    F('VOps::tieprio', ['n'], mode='val', reads=['tie'], ens=['result = !tie[@n]']),
    F('VOps::getind', ['n'], mode='val', reads=['ind'], ens=['result = !ind[@n]']),
    F('VOps::setind', ['n', 'i'], mode='val', writes=['ind'], ens=['!ind = (old !ind)[@n <- @i]']),
]


def maxq(mode):
    return [
        F('OpenList::Maxq::Maxq', [], sig='void ()', mode=mode, wname='f_maxq', writes=['this'] if mode == 'val' else None, ens=[('new buckets are empty', 'forall t i:map int int. mq @this FS.empty t i')]),
            F('OpenList::Maxq::push', ['n', 'p'], mode=mode, wname='f_mqpush', writes=['this', 'ind'] if mode == 'val' else None, req=[MQ, '@n <> 0', 'not FS.mem @n !gs', '@p = !tie[@n]', '0 <= @p < 2147483648', 'FS.cardinal !gs < 2147483647'],
          ens=[('buckets', 'mq @this (FS.add @n !gs) !tie !ind'), ('in the list', '!ind[@n] >= 0'), ('others keep their place', 'forall y:int. y <> @n -> !ind[y] = old !ind[y]')]),
            F('OpenList::Maxq::pop', [], mode=mode, wname='f_mqpop', writes=['this', 'ind'] if mode == 'val' else None, req=[MQ, 'not FS.is_empty !gs'],
          loops={0: Loop(['mq @this !gs !tie !ind'], '@this.mq_max')},
          ens=[('pops a member', 'FS.mem result !gs'), ('of maximal tie-break value', 'forall y:int. FS.mem y !gs -> !tie[y] <= !tie[result]'),
               ('buckets', 'mq @this (FS.remove result !gs) !tie !ind'), ('marked out', '!ind[result] = -1'), ('others keep their place', 'forall y:int. y <> result -> !ind[y] = old !ind[y]')]),
            F('OpenList::Maxq::rm', ['n', 'p'], mode=mode, wname='f_mqrm', writes=['this', 'ind'] if mode == 'val' else None, req=[MQ, 'FS.mem @n !gs', '@p = !tie[@n]'],
          ens=[('buckets', 'mq @this (FS.remove @n !gs) !tie !ind'), ('marked out', '!ind[@n] = -1'), ('others keep their place', 'forall y:int. not FS.mem y !gs -> !ind[y] = old !ind[y]')]),
            F('OpenList::Maxq::clear', [], mode=mode, wname='f_mqclear', writes=['this', 'ind'] if mode == 'val' else None, req=['mq @this !gs !tie !ind'],
          ens=[('empty', 'forall t i:map int int, s:FS.fset int. FS.is_empty s -> mq @this s t i'), ('members told they have left', 'forall x:int. FS.mem x !gs -> !ind[x] < 0'),
               ('others keep their place', 'forall y:int. not FS.mem y !gs -> !ind[y] = old !ind[y]')],
          loops={0: Loop(['0 <= @p <= @this.mq_bkts.len_veci', '@this.mq_bkts.len_veci = old @this.mq_bkts.len_veci', 'forall k:int. 0 <= k < @p -> @this.mq_bkts.dat_veci[k].len = 0',
                          'forall k:int. @p <= k < @this.mq_bkts.len_veci -> @this.mq_bkts.dat_veci[k] = (old @this).mq_bkts.dat_veci[k]',
                          'forall x:int [!ind[x]]. FS.mem x !gs -> !tie[x] < @p -> !ind[x] < 0', 'forall x:int [!ind[x]]. not (FS.mem x !gs /\\ !tie[x] < @p) -> !ind[x] = old !ind[x]'],
                         '@this.mq_bkts.len_veci - @p'),
                 1: Loop(['0 <= @p < @this.mq_bkts.len_veci', '0 <= @i <= @this.mq_bkts.dat_veci[@p].len', '@this.mq_bkts.len_veci = old @this.mq_bkts.len_veci', 'forall k:int. 0 <= k < @p -> @this.mq_bkts.dat_veci[k].len = 0',
                          'forall k:int. @p <= k < @this.mq_bkts.len_veci -> @this.mq_bkts.dat_veci[k] = (old @this).mq_bkts.dat_veci[k]',
                          'forall x:int [!ind[x]]. FS.mem x !gs -> !tie[x] < @p -> !ind[x] < 0',
                          'forall k:int. 0 <= k < @i -> !ind[(old @this).mq_bkts.dat_veci[@p].dat[k]] = -1',
                          'forall x:int [!ind[x]]. not (FS.mem x !gs /\\ (!tie[x] < @p \\/ (!tie[x] = @p /\\ old !ind[x] < @i))) -> !ind[x] = old !ind[x]'],
                         '@this.mq_bkts.dat_veci[@p].len - @i')}),
        F('OpenList::Maxq::empty', [], mode=mode, wname='f_mqempty', cfg={'this_val': 1}, req=['mq this !gs !tie !ind'], ens=['result = True <-> FS.is_empty !gs']),
    ]


KW = dict(heap={'VNode': ''}, prefix={'Maxq': 'mq_', 'OpenList': ''}, pretypes='use set.Fset as FS', vmax=2147483648)
UNITS = [Unit('maxq', '/verif/drivers/openlist.cc', prelude=PRE, post=FACTS % dict(k='lemma'), state=STATE, inline=True, contracts=ACC + maxq('prove'), **KW),
  Unit('openlist', '/verif/drivers/openlist.cc', prelude=PRE2, state=STATE, inline=True,
  assumptions=['priorities and tie-break values are non-negative and do not change while a node is in the list, except between pre_update and post_update',
               'fewer than 2^31 nodes in the list'],
  contracts=ACC + maxq('val') + [
    F('OpenList::OpenList', [], req=['FS.is_empty !els', 'forall p:int. FS.is_empty !pel[p]', 'forall x:int. !ind[x] < 0'], ens=[('well-formed', WF)]),
    F('OpenList::push', ['n'], hooks={'before:push#0': 'gs := it (pure { !pel[!prio[@n]] });', 'exit': 'pel := it (pure { !pel[!prio[@n] <- FS.add @n !pel[!prio[@n]]] }); els := it (pure { FS.add @n !els });'}, req=[WF, '@n <> 0', 'not FS.mem @n !els', '0 <= !prio[@n] < 2147483647', '0 <= !tie[@n] < 2147483647', 'FS.cardinal !els < 2147483647'],
      ens=[('well-formed', WF), ('elements', '!els = FS.add @n (old !els)'), ('others unchanged', OUT[1] % '@n')]),
    F('OpenList::pop', [], hooks={'before:empty#0': 'gs := it (pure { !pel[@this.min] });', 'before:pop#0': 'gs := it (pure { !pel[@this.min] });', 'exit': 'pel := it (pure { !pel[!prio[result_] <- FS.remove result_ !pel[!prio[result_]]] }); els := it (pure { FS.remove result_ !els });'}, req=[WF, ('not empty', 'not FS.is_empty !els')],
      ens=[('well-formed', WF), ('pops a member', 'FS.mem result (old !els)'), ('of minimal priority', 'forall x:int. FS.mem x (old !els) -> !prio[result] <= !prio[x]'),
           ('and maximal tie-break value among those', 'forall x:int. FS.mem x (old !els) -> !prio[x] = !prio[result] -> !tie[x] <= !tie[result]'),
           ('elements', '!els = FS.remove result (old !els)'), ('others unchanged', OUT[1] % 'result'), ('marked out', '!ind[result] < 0')],
      loops={0: Loop([WF], '@this.qs.len_maxq - @this.min')}),
    F('OpenList::pre_update', ['n'], hooks={'before:rm#0': 'gs := it (pure { !pel[!prio[@n]] });', 'exit': 'pel := it (pure { !pel[!prio[@n] <- FS.remove @n !pel[!prio[@n]]] }); els := it (pure { FS.remove @n !els });'}, req=[WF],
      ens=[('well-formed', WF), ('elements', '!els = FS.remove @n (old !els)'), ('others unchanged', OUT[1] % '@n'), '!ind[@n] < 0']),
    F('OpenList::post_update', ['n'], req=[WF, '@n <> 0', '!ind[@n] < 0', '0 <= !prio[@n] < 2147483647', '0 <= !tie[@n] < 2147483647', 'FS.cardinal !els < 2147483647'],
      ens=[('well-formed', WF), ('elements', '!els = FS.add @n (old !els)'), ('others unchanged', OUT[1] % '@n')]),
    F('OpenList::empty', [], cfg={'this_val': 1}, req=['wf this !els !pel !prio !tie !ind'], ens=[('empty exactly when no node is in it', 'result = True <-> FS.is_empty !els')]),
    F('OpenList::mem', ['n'], cfg={'this_val': 1}, req=['wf this !els !pel !prio !tie !ind'], ens=[('membership', 'result = True <-> FS.mem @n !els')]),
    F('OpenList::clear', [], req=[WF], ens=[('well-formed', WF), ('nothing left', 'FS.is_empty !els'), ('nodes told they have left', 'forall x:int. FS.mem x (old !els) -> !ind[x] < 0'),
        ('others unchanged', 'forall x:int. not FS.mem x (old !els) -> !ind[x] = old !ind[x]')],
      loops={0: Loop(['0 <= @p <= @this.qs.len_maxq', 'left (old @this) @p !els (old !ind) !ind !prio', '@this.qs.len_maxq = old @this.qs.len_maxq',
                      'forall k:int. @p <= k < @this.qs.len_maxq -> @this.qs.dat_maxq[k] = (old @this).qs.dat_maxq[k]'], '@this.qs.len_maxq - @p')},
      hooks={'before:clear#0': 'gs := it (pure { !pel[@p] });', 'exit': '''
  let e0 = it (pure { !els }) in let p0 = it (pure { !pel }) in let p1 = it (pure { fun (p:int) -> FS.diff p0[p] p0[p] }) in
  assert { forall p:int [p1[p]]. p1[p] = FS.diff p0[p] p0[p] };
  els := it (pure { FS.diff e0 e0 }); pel := p1;'''}),
  ], **KW)]
