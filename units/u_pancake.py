"""C17: the pancake puzzle (pancake/): flips, undo and the gap heuristic."""
from tr import Unit, F, Loop


def unit(n):
    pre = r'''
axiom map_use : forall m:map int int, i:int [m[i]]. (m[i <- 0])[i] = 0
function nc : int = %d
function iabs (x : int) : int = if x >= 0 then x else - x
(* is there a gap behind cake k? *)
function gapat (map int int) int : int
axiom gapat_def : forall c:map int int, k:int [gapat c k]. gapat c k = (if k = nc - 1 then (if c[k] <> nc - 1 then 1 else 0) else if iabs (c[k] - c[k+1]) <> 1 then 1 else 0)
let rec ghost function gs (c : map int int) (a b : int) : int variant { b - a } = if b <= a then 0 else gs c a (b-1) + pure { gapat c (b-1) }
predicate perm (c : map int int) = (forall k:int [c[k]]. 0 <= k < nc -> 0 <= c[k] < nc) /\ (forall j k:int [c[j], c[k]]. 0 <= j < k < nc -> c[j] <> c[k])
predicate state (c : map int int) (h : int) = perm c /\ h = gs c 0 nc
predicate sorted (c : map int int) = forall k:int [c[k]]. 0 <= k < nc -> c[k] = k
(* c2 is c with the first op + 1 cakes reversed *)
predicate rev (c c2 : map int int) (op : int) = forall k:int [c2[k]]. 0 <= k < nc -> c2[k] = (if k <= op then c[op - k] else c[k])
predicate same (c c2 : map int int) = forall k:int [c[k]]. 0 <= k < nc -> c[k] = c2[k]
let rec lemma gs_bound (c : map int int) (a b : int) requires { 0 <= a <= b } ensures { 0 <= gs c a b <= b - a } variant { b - a } = if a < b then gs_bound c a (b-1)
let rec lemma gs_first (c : map int int) (a b : int) requires { 0 <= a < b } ensures { gs c a b = gapat c a + gs c (a+1) b } variant { b - a } = if a < b - 1 then gs_first c a (b-1)
let rec lemma gs_split (c : map int int) (a m b : int) requires { 0 <= a <= m <= b } ensures { gs c a b = gs c a m + gs c m b } variant { b - m } = if m < b then gs_split c a m (b-1)
let rec lemma gs_frame (c c2 : map int int) (a b : int) requires { 0 <= a <= b <= nc /\ forall k:int. a <= k <= b -> k < nc -> c[k] = c2[k] } ensures { gs c a b = gs c2 a b } variant { b - a }
= if a < b then gs_frame c c2 a (b-1)
(* the gaps inside the flipped part are those of before, in the opposite order *)
let rec lemma gs_rev (c c2 : map int int) (op k : int) requires { 0 <= k <= op < nc /\ rev c c2 op } ensures { gs c2 0 k = gs c (op - k) op } variant { k }
= if k > 0 then begin gs_rev c c2 op (k-1); gs_first c (op - k) op; assert { c2[k-1] = c[op-k+1] /\ c2[k] = c[op-k] } end
let lemma flip_gaps (c c2 : map int int) (op : int) requires { 0 < op < nc /\ rev c c2 op } ensures { gs c2 0 nc = gs c 0 nc - gapat c op + gapat c2 op }
= gs_rev c c2 op op; gs_split c 0 op nc; gs_split c2 0 op nc; gs_first c op nc; gs_first c2 op nc; gs_frame c c2 (op+1) nc
let lemma rev_perm (c c2 : map int int) (op : int) requires { 0 < op < nc /\ rev c c2 op /\ perm c } ensures { perm c2 } = ()
let lemma rev_rev (c c2 c3 : map int int) (op : int) requires { 0 < op < nc /\ rev c c2 op /\ rev c2 c3 op } ensures { same c c3 } = ()
let rec lemma sorted_down (c : map int int) (k : int) requires { perm c /\ 0 <= k < nc /\ gs c k nc = 0 } ensures { forall j:int. k <= j < nc -> c[j] = j } variant { nc - k }
= gs_first c k nc; gs_bound c (k+1) nc; if k < nc - 1 then begin sorted_down c (k+1); assert { k < nc - 2 -> c[k+2] = k + 2 } end
let rec lemma sorted_up (c : map int int) (k : int) requires { sorted c /\ 0 <= k <= nc } ensures { gs c 0 k = 0 } variant { k } = if k > 0 then sorted_up c (k-1)
let lemma goal_h (c : map int int) requires { perm c } ensures { gs c 0 nc = 0 <-> sorted c } = if gs c 0 nc = 0 then sorted_down c 0 else if pure { sorted c } then sorted_up c nc
''' % n
    ST = lambda s: 'state !st_cakes[%s] !st_h[%s]' % (s, s)
    FR = lambda s: 'forall x:int. x <> %s -> !st_cakes[x] = old !st_cakes[x] /\\ !st_h[x] = old !st_h[x]' % s
    G = lambda c: 'it (pure { !st_cakes[%s] })' % c
    return Unit('pancake-%d' % n, '/verif/drivers/pancake.cc', flags=('-DNCAKES=%d' % n,), prelude=pre, heap={'Pancake::State': 'st_'}, dtors=('Edge',), prefix={'Pancake': 'd_'},
        state='val start : ref (map int int)\nval prev : ref (map int int)\n', contracts=[
        F('Pancake::gap', ['cakes', 'n'], cfg=dict(nothis=1, ptr_val=(0,), ptr_len={0: n}), req=['0 <= @n < nc', 'forall k:int. 0 <= k < nc -> 0 <= @cakes[k] < nc'], ens=[('a gap behind the cake', '(if result then 1 else 0) = gapat @cakes @n')]),
        F('Pancake::ngaps', ['cakes'], cfg=dict(nothis=1, ptr_val=(0,), ptr_len={0: n}), req=['forall k:int. 0 <= k < nc -> 0 <= @cakes[k] < nc'], ens=[('the number of gaps', 'result = gs @cakes 0 nc')],
          loops={0: Loop(['0 <= @i <= nc', '@gaps = gs @cakes 0 @i', '0 <= @gaps <= @i'], 'nc - @i')}),
        F('Pancake::initialstate', [], req=['perm @this.d_init'], ens=[('a state with its gaps counted', ST('result')), ('the stack as given', 'same @this.d_init !st_cakes[result]')],
          loops={0: Loop(['0 <= @i <= nc', 'forall k:int. 0 <= k < @i -> !st_cakes[@s][k] = @this.d_init[k]'], 'nc - @i')}),
        F('Pancake::State::flip', ['op'], req=['@this <> 0', '0 < @op < nc'], ens=[('the first cakes are reversed', 'rev (old !st_cakes[@this]) !st_cakes[@this] @op'), '!st_h[@this] = old !st_h[@this]', FR('@this')],
          loops={0: Loop(['0 <= @n <= ED.div @op 2 + 1', 'forall k:int [!st_cakes[@this][k]]. 0 <= k < nc -> !st_cakes[@this][k] = (if k < @n \\/ @op - @n < k <= @op then (old !st_cakes[@this])[@op - k] else (old !st_cakes[@this])[k])', '!st_h = old !st_h', 'forall x:int. x <> @this -> !st_cakes[x] = old !st_cakes[x]'], 'ED.div @op 2 + 1 - @n')}),
        F('Pancake::Edge::Edge', ['d', 's', 'op'], req=[ST('@s'), '0 < @op < nc'],
          ens=[('the heuristic counts the gaps', ST('@s')), ('the stack is flipped', 'rev (old !st_cakes[@s]) !st_cakes[@s] @op'), ('the heuristic changes by at most one', '- 1 <= !st_h[@s] - old !st_h[@s] <= 1'),
               ('unit cost and the reverse flip', '@this.edge_cost = 1 /\\ @this.edge_revcost = 1 /\\ @this.edge_revop = @op'), '@this.edge_state = @s /\\ @this.edge_oldh = old !st_h[@s]', FR('@s')],
          hooks={'entry': 'prev := %s; gs_bound !prev 0 nc;' % G('@s'), 'after:flip#0': 'let c2 = %s in rev_perm !prev c2 (it (pure { @op })); flip_gaps !prev c2 (it (pure { @op }));' % G('@s')}),
        F('undo', ['d', 's', 'op'], req=[ST('@s'), '0 < @op < nc'], ens=[('the stack is restored', 'same (old !st_cakes[@s]) !st_cakes[@s]'), ('and so is the heuristic', '!st_h[@s] = old !st_h[@s]'), FR('@s')]),
        F('nops', ['d', 's'], ens=[('every flip', 'result = nc - 1')]),
        F('opat', ['d', 's', 'i'], req=['0 <= @i < nc - 1'], ens=[('a flip', 'result = @i + 1')]),
        F('vals', ['d', 's'], req=[ST('@s')], ens=[('the heuristic is zero exactly at the sorted stack', 'result = 2 * gs !st_cakes[@s] 0 nc + (if sorted !st_cakes[@s] then 1 else 0)')],
          hooks={'entry': 'goal_h (%s); gs_bound (%s) 0 nc;' % (G('@s'), G('@s'))}),
        F('Pancake::State::eq', ['d', 'o'], cfg={'drop': (0,)}, req=['@this <> 0'], ens=[('equality of states', 'result = True <-> same !st_cakes[@this] !st_cakes[@o]')], loops={0: Loop(['0 <= @i <= nc', 'forall k:int. 0 <= k < @i -> !st_cakes[@this][k] = !st_cakes[@o][k]'], 'nc - @i')}),
        F('same', ['d', 's', 't'], ens=[('equality of states', 'result = True <-> same !st_cakes[@s] !st_cakes[@t]')]),
        F('roundtrip', ['d', 'p', 's'], req=['@p <> @s'], ens=[('packing copies the state', '!st_cakes[@p] = old !st_cakes[@s] /\\ !st_h[@p] = old !st_h[@s] /\\ !st_cakes[@s] = old !st_cakes[@s]')]),
        ])
UNITS = [unit(50), unit(70)]
