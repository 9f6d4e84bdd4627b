"""C03: weighted A* (search/wastar.hpp) returns a plan within its weight of the cheapest, for every state space."""
from tr import Unit, F, Loop
from searchlib import *
PRE = DOM + ADMISSIBLE + NODES + DONE + r'''
(* wh wt h is the product wt * h, which the solvers see only where wh_def is called *)
function wh real int : real
val wh_def (wt : real) (h : int) : unit ensures { wh wt h = wt *. from_int h }
predicate fgh (wt : real) (nodeof : map int int) (f g : map int int) (fp : map int real) = forall s:int [nodeof[s]]. nodeof[s] <> 0 ->
  f[nodeof[s]] = g[nodeof[s]] + hv s /\ fp[nodeof[s]] = from_int g[nodeof[s]] +. wh wt (hv s)
axiom map_use : forall m:map int int, i:int [m[i]]. (m[i <- 0])[i] = 0
(* a weighted estimate is at least the cost so far and at most the weight of the whole estimate *)
let lemma within (wt : real) (nodeof f g : map int int) (fp : map int real) (s : int) (c : int)
  requires { fgh wt nodeof f g fp /\ wt >=. 1.0 /\ nodeof[s] <> 0 /\ g[nodeof[s]] >= 0 }
  ensures { from_int g[nodeof[s]] <=. fp[nodeof[s]] }
  ensures { f[nodeof[s]] <= c -> fp[nodeof[s]] <=. wh wt c }
= wh_def wt c; wh_def wt (pure { hv s }); let x = from_int (pure { g[nodeof[s]] }) in let y = from_int (pure { hv s }) in
  assert { x >=. 0.0 /\ y >=. 0.0 };
  assert { y <=. wt *. y }; assert { x <=. wt *. x };
  assert { fp[nodeof[s]] = x +. wt *. y };
  assert { f[nodeof[s]] <= c -> x +. y <=. from_int c };
  assert { f[nodeof[s]] <= c -> wt *. (x +. y) <=. wt *. from_int c };
  assert { wt *. (x +. y) = wt *. x +. wt *. y }
(* on the way from any stored node to a goal there is a queued node whose estimate is no more than that way's cost *)
let rec lemma frontier (dd : bool) (nodeof g : map int int) (els : FS.fset int) (s : int) (p : path)
  requires { expanded dd nodeof g els 0 /\ nodeof[s] <> 0 /\ goalpath s p }
  ensures { not FS.is_empty els }
  ensures { dd = False -> exists t:int. nodeof[t] <> 0 /\ FS.mem nodeof[t] els /\ g[nodeof[t]] + hv t <= g[nodeof[s]] + pcost s p }
  variant { p }
= if pure { FS.mem nodeof[s] els } then ()
  else match p with Nil -> () | Cons o q -> frontier dd nodeof g els (succ s o) q end
'''
KEYS = [('kfp', '!n_fprime'), ('kf', '!n_f'), ('kg', '!n_g')]
UNITS = [bestfirst('wastar', 'Wastar', '/verif/drivers/wastar.cc', KEYS, [('weighted estimate', 'fgh @this.al_wt !nodeof !n_f !n_g !n_fprime')], ['dropdups', 'wt'],
    [('the plan is within the weight of a cheapest one', '@this.al_res.path.len > 0 -> @this.al_dropdups = False -> forall p:path. goalpath (old !vs[@s0]) p -> from_int !gcost <=. wh @this.al_wt (pcost (old !vs[@s0]) p)'),
     ('no plan only when none exists', '@this.al_res.path.len = 0 -> !over = False -> forall p:path. not goalpath (old !vs[@s0]) p')],
    PRE, kind='BinHeap', dd='@this.al_dropdups', types={'kfp': 'real'}, best='!n_fprime[result] <=. !n_fprime[x]', post=[('the weight is at least 1', '@this.al_wt >=. 1.0')],
    initens=' /\\ !n_f[result] = hv !vs[@s0] /\\ !n_fprime[result] = wh @this.al_wt (hv !vs[@s0])',
    initexit='wh_def (it (pure { @this.al_wt })) (it (pure { hv !vs[@s0] }));',
    kident='let b_f = it (pure { !n_f }) in let b_fp = it (pure { !n_fprime }) in',
    kidexit=r"""wh_def (it (pure { @this.al_wt })) (it (pure { hv k }));
  assert { forall s:int. !nodeof[s] <> 0 -> s <> k -> !nodeof[s] <> kn /\ !n_f[!nodeof[s]] = b_f[!nodeof[s]] /\ !n_fprime[!nodeof[s]] = b_fp[!nodeof[s]] /\ !n_g[!nodeof[s]] = b_g[!nodeof[s]] };
  assert { forall s:int. b_no[s] <> 0 -> b_f[b_no[s]] = b_g[b_no[s]] + hv s /\ b_fp[b_no[s]] = from_int b_g[b_no[s]] +. wh @this.al_wt (hv s) };
  assert { !n_f[kn] = !n_g[kn] + hv k /\ !n_fprime[kn] = from_int !n_g[kn] +. wh @this.al_wt (hv k) };""",
    begin=r"""assert { [@expl:some queued node is on the way to every goal] @this.al_dropdups = False -> forall p:path. goalpath !s0 p -> exists t:int. !nodeof[t] <> 0 /\ FS.mem !nodeof[t] !els /\ !n_g[!nodeof[t]] + hv t <= pcost !s0 p };
    assert { forall t:int [!nodeof[t]]. !nodeof[t] <> 0 -> from_int !n_g[!nodeof[t]] <=. !n_fprime[!nodeof[t]] /\ forall c:int. !n_g[!nodeof[t]] + hv t <= c -> !n_fprime[!nodeof[t]] <=. wh @this.al_wt c };
    assert { [@expl:with a weighted estimate within the weight] @this.al_dropdups = False -> forall p:path. goalpath !s0 p -> exists m:int. FS.mem m !els /\ !n_fprime[m] <=. wh @this.al_wt (pcost !s0 p) };""",
    assumptions=['the heuristic is admissible and non-negative (C16 to C21)', 'the weighted estimates are real numbers (double rounding is ignored)'])]
