"""C04, C02: IDA* (search/idastar.hpp): its plan is valid and a cheapest one, and every probe restores the state."""
from tr import Unit, F, Loop
from searchlib import *
PRE = DOM + PLAN + r'''
axiom hv_nonneg : forall s:int [hv s]. hv s >= 0
let rec lemma pcost_nonneg (s : int) (p : path) requires { valid s p } ensures { pcost s p >= 0 } variant { p }
= match p with Nil -> () | Cons o q -> pcost_nonneg (succ s o) q end
'''
NB = r'''
axiom admissible : forall s:int, p:path [goalpath s p]. goalpath s p -> hv s <= pcost s p
(* paths that never undo the operator before *)
predicate nb (s pop : int) (p : path) = match p with Nil -> true | Cons o q -> appl s o /\ o <> pop /\ nb (succ s o) (rev s o) q end
let rec lemma nb_valid (s pop : int) (p : path) requires { nb s pop p } ensures { valid s p } variant { p }
= match p with Nil -> () | Cons o q -> nb_valid (succ s o) (rev s o) q end
(* cutting out steps that are undone at once *)
let rec ghost function cut (s : int) (p : path) : path
  requires { goalpath s p } ensures { nb s (-1) result /\ isgoal (endst s result) /\ pcost s result <= pcost s p } variant { p }
= match p with Nil -> Nil | Cons o q ->
    let r = cut (succ s o) q in
    match r with Cons o2 q2 -> if o2 = rev s o then begin
        assert { appl (succ s o) (rev s o) /\ succ (succ s o) (rev s o) = s };
        assert { nb s (rev (succ s o) (rev s o)) q2 };
        match q2 with Nil -> () | Cons o3 _ -> assert { appl s o3 } end; q2 end
      else begin assert { nb (succ s o) (rev s o) r }; Cons o r end
    | Nil -> assert { nb (succ s o) (rev s o) Nil }; Cons o Nil end end
let lemma cut_all (s : int) (p : path) requires { goalpath s p } ensures { exists q:path. nb s (-1) q /\ isgoal (endst s q) /\ pcost s q <= pcost s p } = let _ = cut s p in ()
(* every non-backtracking way from s to a goal costs more than the bound allows, and no less than the next bound *)
predicate out (g b m s pop : int) = forall p:path [nb s pop p]. nb s pop p -> isgoal (endst s p) -> g + pcost s p > b /\ m <> -1 /\ m <= g + pcost s p
let lemma out_less (g b m m2 s pop : int) requires { out g b m s pop /\ (m <> -1 -> m2 <> -1 /\ m2 <= m) } ensures { out g b m2 s pop } = ()
let lemma out_ops (g b m s pop : int)
  requires { not isgoal s } requires { forall o:int. appl s o -> o <> pop -> out (g + cst s o) b m (succ s o) (rev s o) } ensures { out g b m s pop }
= assert { forall p:path. nb s pop p -> isgoal (endst s p) -> match p with Nil -> false | Cons o q -> appl s o /\ o <> pop /\ nb (succ s o) (rev s o) q /\ isgoal (endst (succ s o) q) /\ pcost s p = cst s o + pcost (succ s o) q end };
  assert { forall o:int, q:path. appl s o -> o <> pop -> nb (succ s o) (rev s o) q -> isgoal (endst (succ s o) q) -> g + cst s o + pcost (succ s o) q > b /\ m <> -1 /\ m <= g + cst s o + pcost (succ s o) q }
'''
P, O = '@this.al_res.path', '@this.al_res.ops'


def plan(s, c):
    return [('one more state than operators', '%s.len = %s.len + 1 /\\ %s.len >= 0' % (P, O, O)), ('the plan starts here', '%s.dat[%s.len - 1] = %s' % (P, P, s)), ('ends in a goal', 'isgoal %s.dat[0]' % P),
            ('every operator is applicable and leads to the next state', 'forall i:int. 0 <= i < %s.len -> step %s.dat %s.dat i' % (O, P, O))] + c('plancost %s.dat %s.dat %s.len' % (P, O, O))


def ida(name, opt):
    EMPTY = [('no plan yet', '%s.len = 0 /\\ %s.len = 0' % (P, O))]
    G = lambda xs, g: [(l, '%s -> %s' % (g, x)) for l, x in xs]
    cost = (lambda c: [('costs no more than the bound allows', '@g + %s <= @this.al_bound' % c)]) if opt else (lambda c: [])
    best = (lambda c: [('the plan is a cheapest one', 'forall p:path. goalpath (old !vs[@s0]) p -> %s <= pcost (old !vs[@s0]) p' % c)]) if opt else (lambda c: [])
    MIN = [('the next bound only decreases', 'old @this.al_minoob <> -1 -> @this.al_minoob <> -1 /\\ @this.al_minoob <= old @this.al_minoob'), '@this.al_bound = old @this.al_bound'] if opt else []
    OUT = 'out @g @this.al_bound @this.al_minoob !vs[@s] @pop'
    return Unit(name, '/verif/drivers/idastar.cc', heap={'State': ''}, prefix=dict(PREFIX, Idastar='al_'), prelude=PRE + (NB if opt else ''), opaque=OPAQUE, signed='math', dtors=('Edge',), copyval=True,
        state='val over : ref bool\n', dropcalls=('SearchAlgorithm::start', 'SearchAlgorithm::finish', 'dfrow', 'dfrowhdr'),
        assumptions=SPACE[:1] + ['a limit that was reached stays reached', 'path costs are mathematical integers (no overflow); the probe is proved partially correct (it need not end, nor need the stack suffice)'] + (['the heuristic is admissible and non-negative (C16 to C21)'] if opt else []),
        contracts=dom() + [
        F('SearchAlgorithm::limit', [], mode='val', cfg={'nothis': 1}, writes=['over'], ens=['result = !over', 'old !over = True -> !over = True']),
        F('Idastar::dfs', ['d', 's', 'pop', 'g'], diverges=True, req=EMPTY + [('not stopped', '!over = False')] + ([('cost so far', '@g >= 0')] if opt else []),
          ens=[('the state is restored', '!vs[@s] = old !vs[@s]'), ('limit', 'old !over = True -> !over = True'), ('stopped probes fail', 'result = True -> !over = False')] + MIN +
              G(plan('!vs[@s]', cost), 'result = True') + G(EMPTY, 'result = False') +
              ([('a failed probe saw every way', 'result = False -> !over = False -> ' + OUT)] if opt else []),
          loops={0: Loop(EMPTY + ['!vs[@s] = old !vs[@s]', '@ops.os = !vs[@s]', '0 <= @n <= nops !vs[@s]', 'old !over = True -> !over = True'] + MIN + ([
              'not isgoal !vs[@s]', ('ways so far', '!over = False -> forall j:int [opat !vs[@s] j]. 0 <= j < @n -> opat !vs[@s] j <> @pop -> let o = opat !vs[@s] j in out (@g + cst !vs[@s] o) @this.al_bound @this.al_minoob (succ !vs[@s] o) (rev !vs[@s] o)')] if opt else []),
              'nops !vs[@s] - @n')}),
        F('Idastar::search', ['d', 's0'], req=EMPTY,
          ens=[('the start state is restored', '!vs[@s0] = old !vs[@s0]'), ('without a limit a plan was found', '!over = False -> %s.len > 0' % P)] + G(plan('old !vs[@s0]', best), P + '.len > 0'),
          loops={0: Loop(EMPTY + ['!vs[@s0] = old !vs[@s0]'] + ([('the bound is no more than the cheapest cost', '!over = False -> forall p:path. goalpath !vs[@s0] p -> @this.al_bound <= pcost !vs[@s0] p')] if opt else []))}),
    ])


UNITS = [ida('idastar', True)]
