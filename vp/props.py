"""Which units and replay harnesses decide each property."""
SRC = ['search/search.cc', 'rdb/rdb.cc', 'utils/datafile.cc','utils/encode.cc','utils/fatal.cc','utils/fs.cc','utils/geom2d.cc','utils/math.cc','utils/mem.cc','utils/rand.cc','utils/rank.cc','utils/str.cc','utils/time.cc']
PROPS = {
    'C05': dict(units=['u_binheap'], witness=[dict(src='c05.cc', time=60)],
                note='all 13 operations under contract, for every element type with a strict weak order and every history; machine ints for the stored index are assumed not to wrap (heap smaller than 2^32), vector is the assumed standard contract'),
    'C23': dict(units=['u_math'], witness=[dict(src='c23.cc', repo=['utils/math.cc'], time=60)],
                note='all three functions for every 32-bit argument, with unsigned wrap-around modelled exactly'),
    'C22': dict(units=['u_safeops'], witness=[dict(src='c22.cc', san='undefined', time=60)],
                note='add, sub, mul, div and can_mul for the 8 integer types char to long, signed and unsigned, every operand pair; absence of undefined behaviour inside the range tests is an obligation too'),
    'C11': dict(units=['u_djset'], witness=[dict(src='c11.cc', time=60)],
                note='constructor, clear, find (with termination) and join for any forest; objects are assumed not to move or die while joined'),
    'C12': dict(units=['u_pool'], witness=[dict(src='c12.cc', time=60)],
                note='newblk, constructor, get, put, construct, destruct, blocks; slots are unit-size abstract addresses, operator new[] is assumed to return fresh memory'),
    'C08': dict(units=['u_intpq'], witness=[dict(src='c08.cc', time=60)],
                note='constructor, push, pop, rm, mem, empty, clear, resize for every history; after clear() an element that was still inside keeps answering mem() with true until pushed again (excluded from the membership contract, see DESIGN.md)'),
    'C07': dict(units=['u_closed', 'u_htable'], witness=[dict(src='c07.cc', time=60)],
                note='closed list: constructor, resize, add, find, remove, clear, begin/end/++, empty, getFill; hash table: constructor, resize, add, find, rm, clear; any chain shape, any hash, sizes below 2^32'),
    'C06': dict(units=['u_openlist'], witness=[dict(src='c06.cc', time=60)],
                note='all operations of both levels of buckets under contract, for every history'),
    'C01': dict(units=['u_astar'], witness=[dict(src='c01.cc', repo=SRC, time=60, libs=['-lrt'])],
                note='search, expand, considerkid, init and Node() of Astar under contract, instantiated over a state space known only by its contracts (drivers/searchdom.hpp); partial correctness; the open list, closed list and pool are their contracts'),
    'C02': dict(units=['u_solpath', 'u_tree', 'u_idaplan'], witness=[dict(src='c02.cc', repo=SRC, time=60, libs=['-lrt']), dict(src='c02b.cc', repo=SRC, time=60, libs=['-lrt'])],
                note='proved: solpath, the tree-of-transitions invariant in A*, weighted A*, greedy and beam search, and the plan built by IDA*; bounded only (plans of the real code replayed on random graphs of up to 12 states): ARA*, NORA, Bugsy (both open lists), LSS-LRTA* and its f-hat variant'),
    'C03': dict(units=['u_wastar'], witness=[dict(src='c03.cc', repo=SRC, time=60, libs=['-lrt'])],
                note='search, expand, considerkid, init and Node() of Wastar, weights as real numbers; without -dropdups the plan is within the weight, with or without no plan means none exists'),
    'C04': dict(units=['u_idastar'], witness=[dict(src='c04.cc', repo=SRC, time=60, libs=['-lrt'])],
                note='dfs and search of Idastar, partial correctness (dfs need not terminate on zero-cost cycles)'),
    'C26': dict(units=['u_limits'], witness=[dict(src='c26.cc', repo=SRC, time=60, libs=['-lrt'])],
                note='Limit(), SearchStats(), SearchStats::add, Limit::reached, SearchAlgorithm::limit, and the loops, expansion and generation of A*, weighted A*, greedy, beam search and IDA*; the command line parsing of Limit(argc, argv) is exercised by the witness search only'),
    'C30': dict(units=['u_greedy'], witness=[dict(src='c30.cc', repo=SRC, time=60, libs=['-lrt'])],
                note='search, expand, considerkid, init and Node() of Greedy'),
    'C13': dict(units=['u_runlen', 'u_controls'], witness=[dict(src='c13.cc', repo=['utils/encode.cc'], time=60), dict(src='c13ctl.cc', repo=['gridnav/gridnav.cc', 'gridnav/gridmap.cc'] + SRC, time=60, libs=['-lrt']), dict(src='c13ctl.cc', repo=['traffic/traffic.cc', 'traffic/gridmap.cc'] + SRC, time=60, libs=['-lrt'])],
                note='cntsame, runlenenc, runlendec for every string shorter than 2^31; controlstr and controlvec of gridnav, traffic and plat2d over the contracts of the four coders; operator numbers above 127 do not survive (bytes are sign extended) and are excluded'),
    'C14': dict(units=['u_base64'], witness=[dict(src='c14.cc', repo=['utils/encode.cc'], time=60)],
                note='base64enc and base64dec for every string shorter than 2^31; | of numbers without common bits is assumed to be +; decoding strings that are not encodings is not covered'),
    'C16': dict(units=['u_tiles'], witness=[dict(src='c16.cc', repo=['tiles/tiles.cc', 'tiles/mdist.cc'] + SRC, time=60, libs=['-lrt'], flags=['-DWIDTH=%d' % w, '-DHEIGHT=%d' % h]) for w, h in ((4, 4), (5, 5), (3, 3))],
                note='the 8, 15 and 24 puzzle as built: Tiles::initops, the tables of TilesMdist, initialstate, Operators, Edge and its destructor, isgoal, operator== and pack / unpack_md (8 and 15 puzzle; the 24 puzzle has no packing in the repository); reading the instance file is assumed'),
    'C17': dict(units=['u_pancake'], witness=[dict(src='c17.cc', repo=['pancake/pancake.cc'] + SRC, time=60, libs=['-lrt'], flags=['-DNCAKES=%d' % n]) for n in (50, 10)],
                note='State::flip, State::eq, gap, ngaps, initialstate, Edge and its destructor, Operators, isgoal, pack, for the two sizes the repository builds (50 and 70 pancakes); the instance is assumed to be a permutation'),
    'C15': dict(units=['u_rank'], witness=[dict(src='c15.cc', repo=['utils/rank.cc', 'utils/math.cc', 'utils/fatal.cc'], time=60)],
                note='both constructors and Ranker::rank (and ilog2) for every n of sz below 2^29 whose ranks fit 64 bits, and every arrangement of distinct numbers below sz'),
    'C25': dict(units=['u_rdb'], witness=[dict(src='c25.cc', repo=['rdb/rdb.cc', 'utils/fatal.cc', 'utils/fs.cc', 'utils/str.cc', 'utils/mem.cc', 'utils/time.cc', 'utils/rand.cc'], time=60)],
                note='push_back, push_front, pop_front, front, size, rm, lookup, mem, getkeys for every history of arbitrary strings; strings are abstract values that are copied and compared; lookup and pop_front are called with a bound key / on a non-empty list; string() is checked by the witness search only'),
 'C10': dict(units=['u_kdtree'], witness=[dict(src='c10.cc', time=60)], note='constructor, both insert, both nearest, sqdist, size, begin, end, iterator * and ++ for any number of dimensions; coordinates are real numbers (rounding not modelled), pool is its contract (C12); depth() and iterator comparison in the witness only'),
 'C18': dict(units=['u_gridnav'], witness=[dict(src='c18.cc', repo=SRC+['gridnav/gridmap.cc','gridnav/gridnav.cc'], time=60, libs=['-lrt'])], note='move tables (reverseops, setfourway, seteightway, setoctile, Move), GridMap::ok, Operators, Edge and its destructor, life/unit costs, Manhattan, octile and the two life heuristics, h, pack, unpack for every map with an out-of-bounds border up to 16384 x 16384; costs with sqrt(2) as real numbers. The map loaders (text and seed map) are witness-only'),
 'C21': dict(units=['u_traffic'], witness=[dict(src='c21.cc', repo=SRC+['traffic/gridmap.cc','traffic/traffic.cc'], time=60)], note='GridMap Move, setfourway, index, coord, ok, Obstacle::positionAt; Traffic constructor, initialstate, Operators, Edge, Cost, manhattan, computeh, h, isgoal, pack, unpack, hash, eq for every map from 2 x 2 to 16384 x 16384, obstacles starting on it with speeds up to 1024 cells per step and times up to 2^20; loading from a file is witness-only'),
}
