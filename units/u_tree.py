"""C02: the best-first searches keep the parent pointers a tree of real transitions from the start state, and call solpath for stored goal nodes only."""
from tr import Unit, F, Loop
from searchlib import *
PRE = DOM + NODES + QUEUED + 'axiom hv_nonneg : forall s:int [hv s]. hv s >= 0\n'


def beam(I, E, KEEP):
    k = [x for x in KEEP if 'res.path' not in x and 'res.ops' not in x]
    S = I + k + ['!s0 = old !vs[@s0]', '@this.al_res.path.len = 0 \\/ @solved = True']
    B = lambda c: [('beam nodes are stored', 'forall j:int. 0 <= j < %s -> isn !nodeof !n_state @beam.dat[j]' % c)]
    return {0: Loop(S, before=START), 1: Loop(S + B('@c') + ['@beam.len = @this.al_width', '0 <= @c', '@c <= @this.al_width', '@solved = False'], '@this.al_width - @c'),
            2: Loop(S + B('@c') + ['0 <= @i <= @c <= @beam.len'], '@c - @i')}


def tree(name, cls, keys, keep=(), **kw):
    return bestfirst('tree-' + name, cls, '/verif/drivers/%s.cc' % name, [('k' + k, '!n_' + k) for k in keys], [], keep, [], PRE, dd=None, **kw)


UNITS = [tree('astar', 'Astar', ['f', 'g']), tree('greedy', 'Greedy', ['h', 'g']), tree('wastar', 'Wastar', ['fprime', 'f', 'g'], kind='BinHeap', types={'kfprime': 'real'}),
         tree('beam', 'BeamSearch', ['f', 'g'], ['width'], post=[('positive width', '@this.al_width >= 1')], search=beam)]
