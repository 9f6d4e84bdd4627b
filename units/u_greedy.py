"""C30: greedy search (search/greedy.hpp) finds a plan whenever one exists, for every state space."""
from tr import Unit, F, Loop
from searchlib import *
PRE = DOM + NODES + DONE + r'''
axiom hv_nonneg : forall s:int [hv s]. hv s >= 0
(* on the way from any stored node to a goal there is a queued node *)
let rec lemma frontier (nodeof g : map int int) (els : FS.fset int) (s : int) (p : path)
  requires { expanded True nodeof g els 0 /\ nodeof[s] <> 0 /\ goalpath s p }
  ensures { not FS.is_empty els }
  variant { p }
= if pure { FS.mem nodeof[s] els } then ()
  else match p with Nil -> () | Cons o q -> frontier nodeof g els (succ s o) q end
'''
KEYS = [('kh', '!n_h'), ('kg', '!n_g')]
UNITS = [bestfirst('greedy', 'Greedy', '/verif/drivers/greedy.cc', KEYS, [], ['dropdups'],
    [('no plan only when none exists', '@this.al_res.path.len = 0 -> !over = False -> forall p:path. not goalpath (old !vs[@s0]) p')],
    PRE, dd='True', assumptions=['the heuristic is non-negative (asserted by the search itself)'])]
