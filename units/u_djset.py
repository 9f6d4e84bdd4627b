"""C11: disjoint sets (structs/djset.hpp)."""
from tr import Unit, F, Loop
PRE = '''
(* alive: constructed sets; rt: representative of the class; dp: bound on the length of the parent chain *)
predicate wf (parent rt dp : map int int) (alive : map int bool) =
  forall x:int [parent[x]]. alive[x] = True ->
    x <> 0 /\\ alive[parent[x]] = True /\\ rt[parent[x]] = rt[x] /\\ dp[x] >= 0 /\\ (parent[x] = x <-> rt[x] = x) /\\
    (parent[x] <> x -> dp[parent[x]] < dp[x])
predicate roots (rt : map int int) (alive : map int bool) =
  forall x:int [rt[x]]. alive[x] = True -> alive[rt[x]] = True /\\ rt[rt[x]] = rt[x]
predicate root_low (rt dp : map int int) (alive : map int bool) =
  forall x:int [dp[x]]. alive[x] = True -> rt[x] <> x -> dp[rt[x]] < dp[x]
predicate same_class (rt : map int int) (x y : int) = rt[x] = rt[y]
'''
STATE = '''
val rt : ref (map int int)
val dp : ref (map int int)
val alive : ref (map int bool)
'''
WF = 'wf !parent !rt !dp !alive /\\ roots !rt !alive /\\ root_low !rt !dp !alive'
LIVE = '!alive[@this] = True'
UNITS = [Unit('djset', '/verif/drivers/djset.cc', heap={'Djset': ''}, prelude=PRE, state=STATE, contracts=[
    F('Djset::Djset', [], req=[WF, '@this <> 0 /\\ not (!alive[@this] = True)', 'forall x:int. !alive[x] = True -> !rt[x] <> @this'],
      hooks={'exit': 'alive := it (pure { !alive[@this <- True] }); rt := it (pure { !rt[@this <- @this] }); dp := it (pure { !dp[@this <- 0] });'},
      ens=[('well-formed', WF), ('represents itself', '!parent[@this] = @this /\\ !rt[@this] = @this'), ('aux is null', '!aux[@this] = 0'),
           ('others untouched', 'forall x:int. x <> @this -> !rt[x] = old !rt[x] /\\ !alive[x] = old !alive[x]')]),
    F('Djset::clear', [], req=[WF, LIVE, ('cleared sets are singletons', 'forall x:int. !alive[x] = True -> !rt[x] = !rt[@this] -> x = @this')],
      hooks={'exit': 'rt := it (pure { !rt[@this <- @this] }); dp := it (pure { !dp[@this <- 0] });'},
      ens=[('well-formed', WF), ('represents itself', '!parent[@this] = @this /\\ !rt[@this] = @this'),
           ('others untouched', 'forall x:int. x <> @this -> !rt[x] = old !rt[x]'), '!alive = old !alive']),
    F('Djset::find', [], req=[WF, LIVE], variant='!dp[@this]',
      ens=[('well-formed', WF), ('result is the representative', 'result = !rt[@this] /\\ !alive[result] = True'),
           ('classes unchanged', '!rt = old !rt /\\ !alive = old !alive /\\ !dp = old !dp')]),
    F('Djset::join', ['o'], req=[WF, LIVE, '!alive[@o] = True'],
      hooks={'exit': '''
  let r1 = it (pure { !rt[@this] }) in let r2 = it (pure { !rt[@o] }) in
  let n = it (pure { if !parent[r1] = r1 then r1 else r2 }) in let l = it (pure { if !parent[r1] = r1 then r2 else r1 }) in
  if r1 <> r2 then begin
    let rt0 = it (pure { !rt }) in let dp0 = it (pure { !dp }) in
    let rt1 = it (pure { fun (x:int) -> if rt0[x] = l then n else rt0[x] }) in
    let dp1 = it (pure { fun (x:int) -> if rt0[x] = l then dp0[x] + dp0[n] + 1 else dp0[x] }) in
    rt := rt1; dp := dp1;
    assert { forall x:int [rt1[x]]. rt1[x] = if rt0[x] = l then n else rt0[x] };
    assert { forall x:int [dp1[x]]. dp1[x] = if rt0[x] = l then dp0[x] + dp0[n] + 1 else dp0[x] };
    assert { rt0[n] = n /\\ rt0[l] = l /\\ n <> l /\\ !alive[n] = True /\\ !alive[l] = True /\\ !parent[n] = n /\\ !parent[l] = n };
    assert { forall x:int [!parent[x]]. !alive[x] = True -> x <> l -> rt0[!parent[x]] = rt0[x] /\\ (!parent[x] = x <-> rt0[x] = x) /\\ (!parent[x] <> x -> dp0[!parent[x]] < dp0[x]) /\\ !alive[!parent[x]] = True /\\ dp0[x] >= 0 /\\ x <> 0 };
    assert { forall x:int [!parent[x]]. !alive[x] = True -> x <> l -> rt1[!parent[x]] = rt1[x] };
    assert { forall x:int [!parent[x]]. !alive[x] = True -> x <> l -> (!parent[x] = x <-> rt1[x] = x) };
    assert { forall x:int [!parent[x]]. !alive[x] = True -> x <> l -> !parent[x] <> x -> dp1[!parent[x]] < dp1[x] };
    assert { rt1[!parent[l]] = rt1[l] /\\ rt1[l] = n /\\ dp1[!parent[l]] < dp1[l] };
    assert { wf !parent rt1 dp1 !alive };
  end;'''},
      ens=[('well-formed', WF), '!alive = old !alive',
           ('exactly the two classes are merged', 'forall x y:int. !alive[x] = True -> !alive[y] = True -> (same_class !rt x y <-> (same_class (old !rt) x y \\/ '
            '(same_class (old !rt) x @this /\\ same_class (old !rt) y @o) \\/ (same_class (old !rt) x @o /\\ same_class (old !rt) y @this)))')]),
])]
