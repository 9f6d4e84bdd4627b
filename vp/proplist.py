"""The list of properties: generates /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 vp/proplist.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, level_note=None, technique=None, level='proof'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, na=na, level_note=level_note, technique=technique, level=level))


p('C01', 'A* returns a cheapest plan, and reports no plan only when none exists',
  'When A* finishes without hitting a limit on a state space with non-negative operator costs and a heuristic that never '
  'overestimates the remaining cost, the plan it reports is a cheapest plan from the start state to a goal. If it reports no '
  'plan, then no goal is reachable.',
  ['inputs', 'programs'], 'every finite state space, start state, admissible heuristic and operator order',
  'Tests run A* on no state space at all; optimality quantifies over all graphs, heuristics, tie-breaks and reopenings.',
  ['search/astar.hpp', 'search/search.hpp', 'search/closedlist.hpp', 'structs/binheap.hpp', 'utils/pool.hpp'],
  [('best-first loop with goal test on expansion', 'search/astar.hpp Astar::search'),
   ('duplicate detection, cheaper-path update and reopening', 'search/astar.hpp Astar::considerkid')],
  [('g, f, parent, op of a node', 'cost and predecessor of the best known path to its state', 'search/astar.hpp Astar::Node')],
  ['Result::path / Result::ops'])
p('C02', 'Reported plans are executable and start at the start state, end at a goal',
  'For every search algorithm that reports a plan, the reported operators, applied in order from the start state, pass through '
  'exactly the reported states and end in a goal state. The number of reported states is one more than the number of operators.',
  ['inputs', 'programs'], 'every state space, start state and search algorithm of the library that records parent pointers',
  'No test runs a search; plan extraction follows parent pointers that are rewritten whenever a cheaper path is found.',
  ['search/search.hpp', 'search/astar.hpp', 'search/wastar.hpp', 'search/greedy.hpp', 'search/idastar.hpp', 'search/beam.hpp'],
  [('plan extraction along parent pointers', 'search/search.hpp solpath'),
   ('parent/op update together with g', 'considerkid of each search')],
  [('Result::path, Result::ops', 'plan, stored goal first', 'search/search.hpp Result')], ['Result::path / Result::ops'])
p('C03', 'Weighted A* stays within its weight of the optimal cost',
  'When weighted A* with weight w >= 1 finishes without hitting a limit and without dropping duplicates, on a state space with '
  'non-negative costs and an admissible heuristic, its plan costs at most w times the cheapest plan; if it reports no plan then '
  'no goal is reachable. With duplicate dropping enabled and weight above 1 plans are still valid.',
  ['inputs', 'programs'], 'every finite state space, start state, admissible heuristic and weight >= 1',
  'Bounded suboptimality quantifies over all graphs and heuristics; tests run no search.',
  ['search/wastar.hpp', 'search/closedlist.hpp', 'structs/binheap.hpp', 'utils/pool.hpp'],
  [('ordering on g + w*h, update of the weighted value with g', 'search/wastar.hpp Wastar::considerkid')],
  [("fprime", 'g + w*h', 'search/wastar.hpp Wastar::Node')], ['Result::path / Result::ops'])
p('C04', 'IDA* returns a cheapest plan and restores the state after every probe',
  'When IDA* stops without hitting a limit on a state space with non-negative costs and an admissible heuristic, its plan is a '
  'cheapest one. Every bound it tries is at most the optimal cost, and between iterations the start state is exactly what it was.',
  ['inputs', 'programs'], 'every state space (in-place or copying edges), start state and admissible heuristic',
  'The next-bound computation must be right for every graph; no test runs IDA*.',
  ['search/idastar.hpp'],
  [('depth-first probe with minimum out-of-bound value', 'search/idastar.hpp Idastar::dfs')],
  [('bound, minoob', 'current cost bound and smallest value seen above it', 'search/idastar.hpp')], ['Result::path / Result::ops'])
p('C05', 'Binary heap: a priority queue whose elements know their index',
  'After any sequence of operations (push, pop, update, pushupdate, append, reinit, clear) the heap holds exactly the elements '
  'pushed and not popped, popping returns one that no other precedes, and every element is told its current position, with -1 once '
  'it has left the heap.',
  ['inputs', 'histories'], 'every operation sequence on every element type with a strict weak order',
  'Tests sample a handful of random pushes and pops; order and index tracking must survive every sequence, including key changes.',
  ['structs/binheap.hpp'],
  [('sift up / sift down with index updates', 'structs/binheap.hpp pullup, pushdown, swap')],
  [('heap', 'array in heap order', 'structs/binheap.hpp')], ['pop / front / setind'])
p('C06', 'Bucketed open list pops a best node and follows key changes',
  'The integer-cost open list returns a node of minimal priority and, among those, of maximal tie-break value, for every '
  'interleaving of pushes, pops and key updates; it reports membership correctly and is empty exactly when every pushed node has '
  'been popped.',
  ['inputs', 'histories'], 'every operation sequence and every assignment of non-negative integer priorities',
  'No test touches the bucketed open list; the lazily advanced minimum and swap-removal must be right after every history.',
  ['search/search.hpp'],
  [('two-level buckets with lazily moved min/max', 'search/search.hpp OpenList<Ops, Node, IntOpenCost>')],
  [('min, Maxq::max', 'no non-empty bucket lies below min / above max', 'search/search.hpp')], ['pop / mem / empty'])
p('C07', 'Closed list and hash table behave as a map over every history',
  'A lookup finds an element exactly when one with an equal key was added and not removed since, whatever the hash function, '
  'the number of resizes and the collisions; removal takes out that one element and leaves every other findable; iteration visits '
  'every stored element exactly once.',
  ['inputs', 'histories'], 'every add/find/remove/clear history, hash function and table size',
  'Tests insert a few hundred random elements in near-empty buckets; chains, resizes and removals inside chains are hardly reached.',
  ['search/closedlist.hpp', 'structs/htable.hpp'],
  [('chained buckets, rehash on resize, unlink on removal', 'closedlist.hpp add/find/remove/resize; htable.hpp add/find/rm/resize')],
  [('bins, nbins', 'every element is in the chain of its hash modulo nbins', 'closedlist.hpp, htable.hpp')], ['find / remove / iterator'])
p('C08', 'Integer priority queue pops a minimal priority and supports removal',
  'Popping returns an element of minimal priority among those pushed and not yet popped or removed, null exactly when there are '
  'none; removing an element leaves all the others in the queue; membership is reported correctly for elements pushed, popped, '
  'removed and pushed again.',
  ['inputs', 'histories'], 'every operation sequence and every assignment of priorities',
  'Tests push and pop random priorities once; removal from the middle of a bucket and re-use after clear are not sampled.',
  ['structs/intpq.hpp'],
  [('intrusive doubly linked buckets', 'structs/intpq.hpp push, pop, rm')],
  [('end', 'no non-empty bucket lies below it', 'structs/intpq.hpp')], ['pop / mem / empty'])
p('C09', 'Temporal network: exact rollback, sound bounds, no false rejection',
  'Adding a constraint fails only if the constraints are inconsistent, and then leaves the network exactly as it was; undo '
  'restores the state before the last addition. After successful additions the reported earliest and latest times satisfy every '
  'constraint and exclude no solution.',
  ['inputs', 'histories'], 'every sequence of additions and undos, every constraint and time value',
  'Tests compare a few random networks; consistency and rollback must hold for every constraint sequence, cycle and failure point.',
  ['structs/stn.cc', 'structs/stn.hpp'],
  [('recursive bound propagation with undo log', 'structs/stn.cc proplower, propupper, addarcs, undo')],
  [('tozero, fromzero', 'earliest/latest time', 'structs/stn.hpp Stn::Node'), ('undos', 'log per addition', 'structs/stn.hpp')],
  ['add / undo / lower / upper'])
p('C10', 'k-d tree: every inserted point is kept and nearest is nearest',
  'A nearest-neighbour query on a non-empty tree returns a stored point at the smallest Euclidean distance from the query, for any '
  'insertion order, duplicates and ties included; on an empty tree it returns nothing. Size counts the insertions and iteration '
  'visits every inserted point exactly once.',
  ['inputs', 'histories'], 'every sequence of insertions of finite points and every finite query point',
  'Tests try random points in general position; pruning must be right for all splits, ties and degenerate inputs.',
  ['structs/kdtree.hpp'],
  [('branch-and-bound descent', 'structs/kdtree.hpp nearest'), ('split by level coordinate', 'structs/kdtree.hpp insert')],
  [('split, left, right', 'left subtree is below the split coordinate, right is not', 'structs/kdtree.hpp N')], ['nearest / size / iterator'])
p('C11', 'Disjoint sets: same representative exactly for joined elements',
  'Two elements have the same representative exactly when they are connected by the joins made so far; finding a representative '
  'never changes which elements are connected, and a freshly created or cleared singleton represents itself.',
  ['inputs', 'histories'], 'every sequence of joins and finds over any number of sets',
  'No test covers it; path compression and union by rank must preserve the partition for every history.',
  ['structs/djset.hpp'],
  [('path compression and union by rank', 'structs/djset.hpp find, join')],
  [('parent', 'forest whose roots are the representatives', 'structs/djset.hpp')], ['find'])
p('C12', 'Object pool never hands out memory that is still in use',
  'Every object obtained from a pool is distinct from, and does not overlap, every other object obtained and not yet returned; '
  'objects keep their address and contents until returned, across any number of block allocations.',
  ['histories'], 'every sequence of get/put/construct/destruct calls and every block size',
  'No test covers the pool; all searches depend on it for node identity.',
  ['utils/pool.hpp'],
  [('block bump allocation plus free list', 'utils/pool.hpp get, put, newblk')],
  [('freed, blk, nxt', 'free slots', 'utils/pool.hpp')], ['get / put'])
p('C13', 'Run-length and control-string encodings round-trip',
  'Decoding the run-length encoding of any byte string gives that string back, and decoding the control string of any operator '
  'sequence of a grid or traffic plan (operator numbers up to 127) gives that sequence back.',
  ['inputs'], 'every byte string, of any length and with runs of any length; every operator sequence',
  'Tests use a few short strings; runs at the length limit and embedded control bytes are not settled by samples.',
  ['utils/encode.cc', 'gridnav/gridnav.cc', 'traffic/traffic.cc'],
  [('run splitting and expansion', 'utils/encode.cc runlenenc, runlendec'), ('byte packing', 'controlstr, controlvec')], (), ['runlendec(runlenenc(s))'])
p('C14', 'Base-64 encoding round-trips',
  'Decoding the base-64 encoding of any byte string gives that string back; the encoding uses only the MIME alphabet and padding '
  'and has length 4*ceil(n/3).',
  ['inputs'], 'every byte string of every length',
  'Tests sample a few strings; padding and bit packing must be right for all lengths and byte values.',
  ['utils/encode.cc'],
  [('24-bit groups with padding', 'utils/encode.cc base64enc, base64dec')], (), ['base64dec(base64enc(s))'])
p('C15', 'Permutation ranks are a perfect index',
  'Ranking permutations of n elements (or arrangements of k of n) assigns each one a number in [0, n!/(n-k)!) and never the same '
  'number to two different ones.',
  ['inputs'], 'every n and k in range and every arrangement',
  'Tests, if any, look at one size; injectivity quantifies over all pairs of arrangements.',
  ['utils/rank.cc', 'utils/math.cc', 'tiles/pdb.cc'],
  [('counting tree', 'utils/rank.cc Ranker::rank')], (), ['Ranker::rank'])
p('C16', 'Sliding tiles: moves, undo, heuristic and packing are faithful',
  'Applying a move and then retracting it restores the state exactly; the incrementally maintained heuristic always equals the '
  'Manhattan distance computed from scratch, is zero exactly at the goal and changes by one per move; packing then unpacking a state '
  'gives an equal state.',
  ['inputs', 'histories'], 'every reachable board, blank position, move and goal arrangement',
  'Nothing in the test suite exercises the tiles domain; the claims quantify over all boards and goals.',
  ['tiles/mdist.hpp', 'tiles/mdist.cc', 'tiles/tiles.hpp', 'tiles/tiles.cc', 'tiles/packed.hpp'],
  [('incremental Manhattan table', 'tiles/mdist.cc initincr, mdist.hpp Edge'), ('4-bit packing', 'tiles/packed.hpp')],
  [('h, b', 'cached heuristic and blank position', 'tiles/mdist.hpp State')], ['Edge / h / pack / unpack'])
p('C17', 'Pancake puzzle: flips undo exactly and the gap heuristic stays exact',
  'Applying a flip and retracting it restores the stack exactly; the incrementally maintained heuristic always equals the gap count '
  'computed from scratch, changes by at most one per flip, and is zero exactly for the sorted stack.',
  ['inputs', 'histories'], 'every permutation and every flip',
  'No test covers the pancake domain; exactness quantifies over all permutations and flip sequences.',
  ['pancake/pancake.hpp', 'pancake/pancake.cc'],
  [('prefix reversal and incremental gap update', 'pancake/pancake.hpp Edge, State::flip, gap')],
  [('h', 'cached gap count', 'pancake/pancake.hpp State')], ['Edge / h'])
p('C18', 'Grid navigation: legal moves only, consistent heuristics',
  'From every free cell, generated moves lead only to free cells of the map, a diagonal octile move never cuts a blocked corner, the reverse '
  'of a move leads back at the stated cost, and the heuristic is zero at the goal and never drops by more than the cost of a move, for 4-way, 8-way, unit '
  'and life costs.',
  ['inputs', 'configurations'], 'every map, start, goal, connectivity and cost model',
  'No test covers grid navigation; consistency quantifies over all maps and cells.',
  ['gridnav/gridnav.hpp', 'gridnav/gridnav.cc', 'gridnav/gridmap.hpp', 'gridnav/gridmap.cc'],
  [('border cells and precomputed move tables', 'gridnav/gridmap.cc setoctile, seteightway, setfourway, gridmap.hpp ok, gridnav.hpp Operators'), ('Manhattan, octile and life heuristics', 'gridnav/gridnav.hpp')],
  [('map.flags', 'passability', 'gridnav/gridmap.hpp')], ['Operators / Edge / h'])
p('C19', 'Vacuum world: moves, undo and heuristic are faithful',
  'Every generated action is legal, applying and retracting it restores robot position, remaining dirt and cost bookkeeping, the '
  'goal is recognised exactly when no dirt is left, and the heuristic never exceeds the cost of cleaning the remaining dirt.',
  ['inputs', 'histories'], 'every map, dirt layout and reachable state',
  'No test covers the vacuum domain.',
  ['vacuum/vacuum.hpp', 'vacuum/vacuum.cc'],
  [('operators and Edge', 'vacuum/vacuum.hpp'), ('spanning-tree heuristic', 'vacuum/vacuum.cc h')], (), ['Operators / Edge / h'])
p('C20', 'Dock robot: actions preserve the boxes and undo exactly',
  'Every action keeps each box in exactly one place (a location or the robot), is retracted by its reverse action to an equal state, '
  'and two states compare and hash equal exactly when boxes and robot are in the same places.',
  ['inputs', 'histories'], 'every instance and reachable state',
  'The tests run a few hand-made instances; preservation quantifies over all states and actions.',
  ['drobot/drobot.hpp', 'drobot/drobot.cc'],
  [('load, unload, move', 'drobot/drobot.hpp Edge')], (), ['Edge / eq / hash'])
p('C21', 'Traffic: obstacle schedule, moves and collisions are exact, h consistent',
  'Every obstacle bounces back and forth across the map, so its column and its row repeat after a full trip each; the generated moves are exactly '
  'the rest and the four steps that stay on the map and do not change places with an obstacle; a move arrives one time step later in the neighbouring '
  'cell when no obstacle is there at that time, and otherwise takes the agent back to the start at time zero; every move costs one, two states are equal exactly in the same cell at the same time, and the heuristic is '
  'zero at the goal, at most the remaining grid distance, and never drops by more than the cost of a move, collisions included.',
  ['inputs', 'histories'], 'every map, obstacle set, start, goal and time',
  'No test covers the traffic domain.',
  ['traffic/traffic.hpp', 'traffic/traffic.cc', 'traffic/gridmap.hpp', 'traffic/gridmap.cc'],
  [('obstacle positions', 'traffic/gridmap.hpp Obstacle::positionAt'), ('legal moves', 'traffic/gridmap.hpp ok, gridmap.cc setfourway'), ('operators, arrival, collision, heuristic', 'traffic/traffic.hpp Operators, Edge, computeh')], (), ['Operators / Edge / h'])
p('C22', 'Checked integer arithmetic reports exactly the overflows',
  'Checked addition, subtraction, multiplication and division either return the mathematically exact result or report an error, and '
  'report an error exactly when the exact result does not fit the operand type (or the divisor is zero), for signed and unsigned types.',
  ['inputs'], 'every pair of operands of every integer type',
  'No test covers it; it guards map and board sizes read from untrusted instance files.',
  ['utils/safeops.hpp'],
  [('range tests before each operation', 'utils/safeops.hpp ops')], (), ['safe::add/sub/mul/div, can_mul'])
p('C23', 'Integer logarithm, power and falling factorial are exact',
  'The integer logarithm ilog2(v) is the number of binary digits of v, that is the k with 2^(k-1) <= v < 2^k, and 0 for 0. The '
  'integer power and the falling factorial x(x-1)...(x-n+1) equal their mathematical values whenever these fit in 64 bits; the '
  'falling factorial is 1 for n = 0 and 0 for n > x.',
  ['inputs'], 'every pair of 32-bit arguments',
  'Tests sample ilog2 only; state packing and pattern-database sizes depend on all three.',
  ['utils/math.cc'],
  [('binary search by halves / repeated product', 'utils/math.cc ilog2, ipow, fallfact')], (), ['ilog2 / ipow / fallfact'])
p('C25', 'Attribute queues keep keys and values in step and FIFO order',
  'After any sequence of additions, removals and pops an attribute list holds each key at most once, in the order added, each bound '
  'to the value it was added with; adding a key twice is refused without effect, and removing or popping takes away exactly that pair.',
  ['inputs', 'histories'], 'every operation sequence over arbitrary strings',
  'Tests sample short scripts; database paths of experiment results are derived from these lists.',
  ['rdb/rdb.cc', 'rdb/rdb.hpp'],
  [('map plus queue updated together', 'rdb/rdb.hpp pop_front, rdb/rdb.cc push_back, push_front, rm')],
  [('pairs, keys', 'bindings and their order', 'rdb/rdb.hpp')], ['push / pop / rm / lookup'])
p('C26', 'Expansion and generation limits stop a search in time',
  'A search given an expansion limit performs at most that many expansions, and one given a generation limit generates at most one '
  'expansion\'s successors beyond it; without any limit a search is never stopped early. Reported node counts equal the work done.',
  ['inputs', 'configurations'], 'every state space and limit value, for the best-first searches',
  'No test runs a search under a limit.',
  ['search/search.hpp', 'search/search.cc', 'search/astar.hpp', 'search/wastar.hpp', 'search/greedy.hpp', 'search/idastar.hpp'],
  [('limit test in each loop', 'search/search.hpp Limit::reached, SearchAlgorithm::limit')],
  [('expd, gend', 'counters', 'search/search.hpp SearchStats')], ['SearchStats::expd / gend'])
p('C30', 'Greedy search is complete on finite state spaces',
  'When greedy best-first search finishes without hitting a limit and reports no plan, then no goal is reachable from the start '
  'state, with or without duplicate dropping.',
  ['inputs', 'programs'], 'every finite state space and heuristic',
  'No test runs a search; completeness depends on every generated state being kept once and expanded.',
  ['search/greedy.hpp', 'search/search.hpp', 'search/closedlist.hpp'],
  [('closed list keeps every generated state', 'search/greedy.hpp Greedy::considerkid')], (), ['Result::path'])
p('C24', 'Instance and result files round-trip through the datafile format',
  'Every key/value pair or row a program writes in the datafile format is read back as the same key and value by the datafile reader, '
  'whatever its length.',
  ['inputs'], 'every key and value without tabs, newlines or quotes',
  'Tests never read back written files; long lines take a separate buffer path.',
  ['utils/datafile.cc'],
  [('printf-style writers and line reader', 'utils/datafile.cc dfpair, dfrowhdr, dfrow, dfread')], (), ['dfread(dfpair(...))'])
p('C27', 'Planar geometry primitives agree with exact geometry',
  'Segment intersection, point-in-polygon, bounding boxes and arc/segment tests return the answer of exact plane geometry up to the '
  'documented tolerance, independent of argument order.',
  ['inputs'], 'all finite double coordinates', 'Tests sample random polygons; tolerance behaviour is unsettled for degenerate inputs.',
  ['utils/geom2d.hpp', 'utils/geom2d.cc'], [('line and polygon routines', 'utils/geom2d.cc')], (), ['isect / contains'])
p('C28', 'Real-time searches learn admissible heuristics and act on legal moves',
  'Each real-time search executes only legal moves, and its learned heuristic values never decrease and, started from an admissible '
  'heuristic, never exceed the true remaining cost.',
  ['inputs', 'programs', 'histories'], 'every state space, lookahead and run length',
  'No test runs a real-time search.', ['search/lsslrtastar.hpp', 'search/rtastar.hpp', 'search/dtastar.hpp'],
  [('Dijkstra-style backup of h values', 'search/lsslrtastar.hpp hCostLearning')], (), ['h values, Result::ops'])
p('C29', 'Platform and path domains: physics steps are reproducible and in bounds',
  'The platform game, visibility-graph and segment-packing domains reproduce a reported plan step by step from the initial state and '
  'their heuristics never exceed the cost of the plan found.',
  ['inputs'], 'every level and plan', 'Tests do not cover these domains.',
  ['plat2d/plat2d.hpp', 'visnav/visnav.hpp', 'segments/segments.hpp'], [('pathcost replay', 'plat2d/plat2d.cc pathcost')], (), ['pathcost'])

NA = {
    'C27': 'floating-point geometry with tolerances: the postconditions are about rounded doubles, which no back end here decides (guide: weak on floating point)',
    'C28': 'whole-history property of the real-time learning loop over double-valued heuristics and std::vector-of-pointer graphs; not within reach of per-function contracts here',
    'C29': 'floating-point physics and trigonometry; no contract over real arithmetic would be a faithful statement about the doubles that run',
}
TECH = 'contracts on the real functions (clang AST -> WhyML, mechanically on every run), obligations generated by Why3 and discharged by z3/cvc5; contract replay on the real code'
NOTE = {}


def main():
    import props
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for q in sorted(P, key=lambda q: q['id']):
            o = dict(id=q['id'], title=q['title'], statement=q['statement'], quantifier=dict(over=q['over'], text=q['text']),
                     why_tests_cant=q['why'],
                     anchors=dict(files=q['files'], state=[dict(name=a, meaning=b, where=c) for a, b, c in q['state']],
                                  mechanism=[dict(name=a, where=b) for a, b in q['mech']], observe_at=list(q['observe']), hook_needed=None))
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps(o) + '\n')
    m = dict(version=1, setup_cmd='python3 vp/setup.py', checks=[], not_applicable=[])
    for q in sorted(P, key=lambda q: q['id']):
        i = q['id']
        if i in props.PROPS:
            m['checks'].append(dict(property=i, quick_cmd='python3 vp/check.py %s' % i, thorough_cmd='python3 vp/check.py %s --thorough' % i,
                                    technique=props.PROPS[i].get('technique', TECH), level=props.PROPS[i].get('level', 'proof'), level_note=props.PROPS[i]['note']))
        else:
            m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'not yet brought under contract (work in progress)')))
    m['notes'] = 'One check per property; see DESIGN.md. No hooks in /repo: the functions are extracted from the unmodified sources.'
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
