"""C05: BinHeap is a priority queue with index tracking (structs/binheap.hpp)."""
from tr import Unit, F, Loop

PRE = '''
predicate plt (x y : int)
axiom plt_asym : forall x y:int [plt x y]. plt x y -> not plt y x
axiom plt_weak : forall x y z:int [plt x y, plt y z | plt x y, plt x z | plt x z, plt z y]. not plt y x -> not plt z y -> not plt z x
predicate le (x y : int) = not plt y x
let lemma le_trans (x y z : int) requires { le x y /\\ le y z } ensures { le x z } = ()
function parent (k:int) : int = CD.div (k - 1) 2
predicate tracked (h : veci) (ind : map int int) =
  0 <= h.len <= 4294967295 /\\ forall i:int [h.dat[i]]. 0 <= i < h.len -> ind[h.dat[i]] = i
predicate inheap (h : veci) (ind : map int int) (e : int) = 0 <= ind[e] < h.len /\\ h.dat[ind[e]] = e
(* every parent/child pair whose parent index is >= lo is in order *)
predicate ord_from (h : veci) (lo : int) =
  forall k:int [h.dat[k]]. 0 < k < h.len -> lo <= parent k -> le h.dat[parent k] h.dat[k]
predicate ordered (h : veci) = ord_from h 0
(* in order except around position i: i may be out of order with its children *)
predicate down_hole (h : veci) (lo i : int) =
  (forall k:int [h.dat[k]]. 0 < k < h.len -> lo <= parent k -> parent k <> i -> le h.dat[parent k] h.dat[k]) /\\
  (i > 0 -> lo <= parent i -> forall k:int [h.dat[k]]. 0 < k < h.len -> parent k = i -> le h.dat[parent i] h.dat[k])
(* ... and with its parent *)
predicate hole (h : veci) (i : int) =
  (forall k:int [h.dat[k]]. 0 < k < h.len -> k <> i -> parent k <> i -> le h.dat[parent k] h.dat[k]) /\\
  (i > 0 -> forall k:int [h.dat[k]]. 0 < k < h.len -> parent k = i -> le h.dat[parent i] h.dat[k])
predicate kids_ok (h : veci) (i : int) =
  forall k:int [h.dat[k]]. 0 < k < h.len -> parent k = i -> le h.dat[i] h.dat[k]
predicate same_elems (h1 : veci) (i1 : map int int) (h2 : veci) (i2 : map int int) =
  h1.len = h2.len /\\ (forall x:int. inheap h2 i2 x <-> inheap h1 i1 x) /\\
  (forall x:int. not (inheap h1 i1 x) -> i2[x] = i1[x])
let rec lemma root_min (h : veci) (k : int)
  requires { ordered h /\\ 0 <= k < h.len }
  ensures { le h.dat[0] h.dat[k] }
  variant { k }
= if k > 0 then begin root_min h (CD.div (k-1) 2); assert { le (h.dat[parent k]) (h.dat[k]) }; le_trans (h.dat[0]) (h.dat[parent k]) (h.dat[k]) end
'''
WF = 'tracked @this.heap !ind'
FULL = 'tracked @this.heap !ind /\\ ordered @this.heap'
SAME = 'same_elems (old @this.heap) (old !ind) @this.heap !ind'

UNITS = [Unit(
    'binheap', '/verif/drivers/binheap.cc', heap={'VElm': ''}, prefix={'BinHeap': ''}, vmax=4294967295,
    prelude=PRE,
    contracts=[
        F('VOps::setind', ['e', 'i'], mode='val', writes=['ind'], ens=['!ind = (old !ind)[@e <- @i]']),
        F('VOps::pred', ['a', 'b'], mode='val', ens=['result = True <-> plt @a @b']),
        F('BinHeap::pullup', ['i'], req=[WF, '0 <= @i < @this.heap.len', 'hole @this.heap @i'], variant='@i',
          ens=[('index tracking', WF), ('same elements', SAME), '0 <= result < @this.heap.len',
               ('element moved', '@this.heap.dat[result] = (old @this.heap).dat[@i]'),
               ('hole moved', 'down_hole @this.heap 0 result'),
               ('heap order', 'kids_ok (old @this.heap) @i -> ordered @this.heap')]),
        F('BinHeap::pushdown', ['i'],
          req=[WF, '0 <= @i < @this.heap.len'], variant='@this.heap.len - @i',
          ens=[('index tracking', WF), ('same elements', SAME), '0 <= result < @this.heap.len',
               ('positions before i untouched', 'forall k:int. 0 <= k < @i -> @this.heap.dat[k] = (old @this.heap).dat[k]'),
               ('moves a descendant up', 'forall lo:int [ord_from @this.heap lo | down_hole (old @this.heap) lo @i]. lo <= @i -> down_hole (old @this.heap) lo @i -> ord_from @this.heap lo')]),
        F('BinHeap::push', ['e'], req=[FULL, 'not (inheap @this.heap !ind @e)'],
          ens=[('heap order and tracking', FULL), ('size', '@this.heap.len = old @this.heap.len + 1'),
               ('elements', 'forall x:int. inheap @this.heap !ind x <-> (inheap (old @this.heap) (old !ind) x \\/ x = @e)'),
               ('frame', 'forall x:int. not (inheap @this.heap !ind x) -> !ind[x] = (old !ind)[x]')]),
        F('BinHeap::pop', [], req=[FULL],
          ens=[('heap order and tracking', FULL),
               ('pops iff non-empty', 'result.has_i = True <-> old @this.heap.len > 0'),
               ('popped element is in the heap', 'result.has_i = True -> inheap (old @this.heap) (old !ind) result.val_i'),
               ('popped element is minimal', 'result.has_i = True -> forall x:int. inheap (old @this.heap) (old !ind) x -> le result.val_i x'),
               ('popped element is marked out', 'result.has_i = True -> !ind[result.val_i] = -1'),
               ('size', 'result.has_i = True -> @this.heap.len = old @this.heap.len - 1'),
               ('elements', 'result.has_i = True -> forall x:int. inheap @this.heap !ind x <-> (inheap (old @this.heap) (old !ind) x /\\ x <> result.val_i)'),
               ('frame', 'result.has_i = True -> forall x:int. not (inheap (old @this.heap) (old !ind) x) -> !ind[x] = (old !ind)[x]'),
               ('empty pop changes nothing', 'result.has_i = False -> @this = old @this /\\ !ind = old !ind')]),
        F('BinHeap::front', [], req=[FULL],
          ens=['result.has_i = True <-> @this.heap.len > 0',
               'result.has_i = True -> inheap @this.heap !ind result.val_i /\\ forall x:int. inheap @this.heap !ind x -> le result.val_i x']),
        F('BinHeap::update', ['i'], req=[WF, '0 <= @i < @this.heap.len', 'hole @this.heap @i'],
          ens=[('heap order and tracking', FULL), ('same elements', SAME)]),
        F('BinHeap::pushupdate', ['e', 'i'],
          req=['tracked @this.heap !ind', '@i < 0 -> ordered @this.heap /\\ not (inheap @this.heap !ind @e)',
               '@i >= 0 -> @i < @this.heap.len /\\ @this.heap.dat[@i] = @e /\\ hole @this.heap @i'],
          ens=[('heap order and tracking', FULL),
               ('elements', 'forall x:int. inheap @this.heap !ind x <-> (inheap (old @this.heap) (old !ind) x \\/ x = @e)'),
               ('frame', 'forall x:int. not (inheap @this.heap !ind x) -> !ind[x] = (old !ind)[x]')]),
        F('BinHeap::empty', [], cfg={'this_val': 1}, ens=['result = True <-> this.heap.len = 0']),
        F('BinHeap::size', [], cfg={'this_val': 1}, ens=['result = this.heap.len']),
        F('BinHeap::at', ['i'], req=['0 <= @i < @this.heap.len'], ens=['result = @this.heap.dat[@i]', '@this = old @this']),
        F('BinHeap::clear', [], req=[WF], ens=[('empty', '@this.heap.len = 0'), ('elements told they have left', 'forall x:int. inheap (old @this.heap) (old !ind) x -> !ind[x] = -1'),
                                     ('frame', 'forall x:int. not (inheap (old @this.heap) (old !ind) x) -> !ind[x] = (old !ind)[x]')],
          loops={0: Loop(['0 <= @i <= @this.heap.len', '@this = old @this', 'forall k:int. 0 <= k < @i -> !ind[@this.heap.dat[k]] = -1',
                          'forall k:int. @i <= k < @this.heap.len -> !ind[@this.heap.dat[k]] = k',
                          'forall x:int. not (inheap @this.heap (old !ind) x) -> !ind[x] = (old !ind)[x]'], '@this.heap.len - @i')}),
        F('BinHeap::reinit', [],
          req=['0 <= @this.heap.len <= 4294967295', 'forall i j:int. 0 <= i < j < @this.heap.len -> @this.heap.dat[i] <> @this.heap.dat[j]'],
          ens=[('heap order and tracking', FULL),
               ('elements', 'forall x:int. inheap @this.heap !ind x <-> (exists i:int. 0 <= i < old @this.heap.len /\\ (old @this.heap).dat[i] = x)'),
               ('size', '@this.heap.len = old @this.heap.len')],
          loops={0: Loop(['0 <= @i <= @this.heap.len', '@this = old @this',
                          'forall k:int. 0 <= k < @i -> !ind[@this.heap.dat[k]] = k'], '@this.heap.len - @i'),
                 1: Loop(['0 <= @i < @this.heap.len', WF, 'ord_from @this.heap (@i + 1)', '@this.heap.len = old @this.heap.len',
                          'forall x:int. inheap @this.heap !ind x <-> (exists i:int. 0 <= i < old @this.heap.len /\\ (old @this.heap).dat[i] = x)'],
                         '@i')}),
        F('BinHeap::append', ['elms'],
          req=[FULL, '@elms.len >= 0',
               'forall i j:int. 0 <= i < j < @elms.len -> @elms.dat[i] <> @elms.dat[j]',
               'forall i:int. 0 <= i < @elms.len -> not (inheap @this.heap !ind @elms.dat[i])'],
          ens=[('heap order and tracking', FULL),
               ('elements', 'forall x:int. inheap @this.heap !ind x <-> (inheap (old @this.heap) (old !ind) x \\/ exists i:int. 0 <= i < @elms.len /\\ @elms.dat[i] = x)')],
          hooks={'before:reinit#0': '''
  assert { forall x:int. inheap (old @this.heap) (old !ind) x -> 0 <= (old !ind)[x] < @this.heap.len /\\ @this.heap.dat[(old !ind)[x]] = x };
  assert { forall j:int. 0 <= j < @elms.len -> 0 <= old @this.heap.len + j < @this.heap.len /\\ @this.heap.dat[old @this.heap.len + j] = @elms.dat[j] };
  assert { forall i:int. 0 <= i < @this.heap.len -> i < old @this.heap.len -> inheap (old @this.heap) (old !ind) (@this.heap.dat[i]) };
  assert { forall i:int. 0 <= i < @this.heap.len -> i >= old @this.heap.len -> 0 <= i - old @this.heap.len < @elms.len /\\ @this.heap.dat[i] = @elms.dat[i - old @this.heap.len] };'''}),
    ])]
