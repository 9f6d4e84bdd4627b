"""C02: solpath (search/search.hpp) turns the parent pointers into an executable plan."""
from tr import Unit, F, Loop
from searchlib import *
PS = '@res.path.dat'
OS = '@res.ops.dat'
UNITS = [Unit('solpath', '/verif/drivers/astar.cc', heap={'Node': 'n_', 'State': ''}, prefix={'PackedState': 'pk_', 'Edge': 'e_', 'Operators': '', 'Astar': 'as_', 'Result': '', 'SearchStats': ''},
    pretypes=PRETYPES, prelude=DOM + NODES + PLAN, state=STATE, opaque=('SDom', 'ClosedList', 'OpenList', 'Pool', 'Limit'), signed='math', copyval=True,
    assumptions=['the state space as in C01; the parent pointers form a tree rooted in the start node, which A* is proved to establish'],
    contracts=[x for x in dom() if 'unpack' in x.name] + [
    F('solpath', ['d', 'goal', 'res'], req=[TREE, ('a stored node', 'isn !nodeof !n_state @goal'), ('a goal', 'isgoal (un !n_state[@goal].pk_k)')],
      ens=[('one more state than operators', '@res.path.len = @res.ops.len + 1'), ('starts at the start state', '@res.path.dat[@res.path.len - 1] = !s0'),
           ('ends in a goal', 'isgoal @res.path.dat[0]'),
           ('every operator is applicable and leads to the next state', 'forall i:int. 0 <= i < @res.ops.len -> step @res.path.dat @res.ops.dat i'),
           ('costs no more than recorded for the goal node', 'plancost @res.path.dat @res.ops.dat @res.ops.len <= !n_g[@goal]')],
      hooks={'entry': 'let gn = it (pure { @goal }) in'},
      loops={0: Loop([
          '@n = 0 \\/ isn !nodeof !n_state @n', TREE, '0 <= @res.path.len', '@n <> 0 -> @res.ops.len = @res.path.len', '@n = 0 -> @res.path.len > 0 /\\ @res.ops.len = @res.path.len - 1 /\\ @res.path.dat[@res.path.len - 1] = !s0',
          '@res.path.len = 0 -> @n = gn', '@res.path.len > 0 -> isgoal @res.path.dat[0]',
          ('steps so far', 'forall i:int. 0 <= i < @res.path.len - 1 -> step @res.path.dat @res.ops.dat i'),
          ('step to come', '@n <> 0 -> @res.path.len > 0 -> let s = un !n_state[@n].pk_k in let o = @res.ops.dat[@res.path.len - 1] in appl s o /\\ succ s o = @res.path.dat[@res.path.len - 1] /\\ plancost @res.path.dat @res.ops.dat (@res.path.len - 1) + cst s o + !n_g[@n] <= !n_g[gn]'),
          ('cost so far', '@n = 0 -> plancost @res.path.dat @res.ops.dat (@res.path.len - 1) <= !n_g[gn]')],
          '(if @n = 0 then -1 else !n_g[@n]), (if @n = 0 then 0 else !rk[@n])',
          begin='let bp = it (pure { @res.path }) in let bo = it (pure { @res.ops }) in',
          end='''plancost_eq bp.dat bo.dat @res.path.dat @res.ops.dat (bp.len - 1);''')})])]
