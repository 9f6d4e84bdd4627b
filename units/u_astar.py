"""C01: A* (search/astar.hpp) returns a cheapest plan, for every state space."""
from tr import Unit, F, Loop
from searchlib import *
PRE = DOM + ADMISSIBLE + NODES + DONE + r'''
predicate fgh (nodeof : map int int) (f g : map int int) = forall s:int [nodeof[s]]. nodeof[s] <> 0 -> f[nodeof[s]] = g[nodeof[s]] + hv s
(* on the way from any stored node to a goal there is a queued node *)
let rec lemma frontier (nodeof f g : map int int) (els : FS.fset int) (s : int) (p : path)
  requires { expanded False nodeof g els 0 /\ fgh nodeof f g /\ nodeof[s] <> 0 /\ goalpath s p }
  ensures { exists m:int. FS.mem m els /\ f[m] <= g[nodeof[s]] + pcost s p }
  variant { p }
= if pure { FS.mem nodeof[s] els } then ()
  else match p with Nil -> () | Cons o q -> frontier nodeof f g els (succ s o) q end
'''
KEYS = [('kf', '!n_f'), ('kg', '!n_g')]
UNITS = [bestfirst('astar', 'Astar', '/verif/drivers/astar.cc', KEYS, [('f = g + h', 'fgh !nodeof !n_f !n_g')], [],
    [('the plan is a cheapest one', '@this.al_res.path.len > 0 -> forall p:path. goalpath (old !vs[@s0]) p -> !gcost <= pcost (old !vs[@s0]) p'),
     ('no plan only when none exists', '@this.al_res.path.len = 0 -> !over = False -> forall p:path. not goalpath (old !vs[@s0]) p')],
    PRE, best='!n_f[result] < !n_f[x] \\/ (!n_f[result] = !n_f[x] /\\ !n_g[result] >= !n_g[x])', initens=' /\\ !n_f[result] = hv !vs[@s0]',
    begin='assert { [@expl:some queued node is on the way to every goal] forall p:path. goalpath !s0 p -> exists m:int. FS.mem m !els /\\ !n_f[m] <= pcost !s0 p };',
    assumptions=['the heuristic is admissible and non-negative (C16 to C21)'])]
