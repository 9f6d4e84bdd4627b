"""C12: object pool (utils/pool.hpp)."""
from tr import Unit, F, Loop
PRE = '''
(* own: slots handed out at least once, ob: the block a slot lies in, live: handed out and not returned,
   fl: the free list, last element first in line *)
predicate pool_inv (p : r_pool) (nx : map int int) (alloc : map int bool) (own : map int bool) (ob : map int int) (live : map int bool) (fl : veci) =
  1 <= p.blksz <= 4294967295 /\\ 0 <= p.nxt <= p.blksz /\\ 1 <= p.blks.len <= 2147483646 /\\ p.blk = p.blks.len - 1 /\\
  (forall x:int [own[x]]. own[x] = True -> alloc[x] = True /\\ x <> 0 /\\ 0 <= ob[x] < p.blks.len /\\ 0 <= x - p.blks.dat[ob[x]] < p.blksz) /\\
  (forall x:int [own[x]]. p.blks.dat[p.blk] + p.nxt <= x < p.blks.dat[p.blk] + p.blksz -> own[x] = False /\\ alloc[x] = True /\\ x <> 0) /\\
  (forall x:int [live[x]]. live[x] = True -> own[x] = True) /\\
  fl.len >= 0 /\\ p.freed = (if fl.len = 0 then 0 else fl.dat[fl.len - 1]) /\\
  (forall i:int [fl.dat[i]]. 0 <= i < fl.len -> own[fl.dat[i]] = True /\\ live[fl.dat[i]] = False /\\ nx[fl.dat[i]] = (if i = 0 then 0 else fl.dat[i-1])) /\\
  (forall i j:int [fl.dat[i], fl.dat[j]]. 0 <= i < j < fl.len -> fl.dat[i] <> fl.dat[j])
'''
STATE = '''
val own : ref (map int bool)
val ob : ref (map int int)
val live : ref (map int bool)
val fl : ref veci
val nctor : ref int
val ndtor : ref int
'''
INV = 'pool_inv @this !ent_nxt !alloc !own !ob !live !fl'
KEEP = ('live objects keep their contents', 'forall x:int. old !live[x] = True -> x <> %s -> !live[x] = True /\\ !ent_nxt[x] = old !ent_nxt[x]')
GET_EXIT = '''
  if it (pure { !fl.len > 0 /\\ result_ = !fl.dat[!fl.len - 1] }) then fl := it (pure { { !fl with len = !fl.len - 1 } })
  else begin own := it (pure { !own[result_ <- True] }); ob := it (pure { !ob[result_ <- @this.blk] }) end;
  live := it (pure { !live[result_ <- True] });'''
UNITS = [Unit('pool', '/verif/drivers/pool.cc', heap={'Pool::Ent': 'ent_', 'VObj': 'obj_'}, prefix={'Pool': ''}, vmax=2147483646, prelude=PRE, state=STATE,
              assumptions=['sizeof(Ent) >= sizeof(Obj): Ent is a union with a char[sizeof(Obj)] member; slots of one block are consecutive (one address unit per slot)',
                           'a pool allocates fewer than 2^31 blocks'],
              contracts=[
    F('VObj::VObj', [], nparams=0, mode='val', req=['@this <> 0'], writes=['ent_nxt', 'nctor'], ens=['forall x:int. x <> @this -> !ent_nxt[x] = old !ent_nxt[x]', '!nctor = old !nctor + 1']),
    F('VObj::~VObj', [], mode='val', req=['@this <> 0'], writes=['ent_nxt', 'ndtor'], ens=['forall x:int. x <> @this -> !ent_nxt[x] = old !ent_nxt[x]', '!ndtor = old !ndtor + 1']),
    F('Pool::newblk', [], req=['1 <= @this.blksz <= 4294967295', '@this.blk = @this.blks.len - 1', '0 <= @this.blks.len <= 2147483646'],
      ens=[('fresh block', 'forall x:int. @this.blks.dat[@this.blk] <= x < @this.blks.dat[@this.blk] + @this.blksz -> old !alloc[x] = False /\\ !alloc[x] = True /\\ x <> 0'),
           ('other memory', 'forall x:int. old !alloc[x] = True -> !alloc[x] = True'),
           ('one more block', '@this.blks.len = old @this.blks.len + 1 <= 2147483646 /\\ @this.blk = @this.blks.len - 1 /\\ @this.nxt = 0'),
           ('older blocks kept', 'forall i:int. 0 <= i < old @this.blks.len -> @this.blks.dat[i] = (old @this.blks).dat[i]'),
           ('rest unchanged', '@this.blksz = old @this.blksz /\\ @this.freed = old @this.freed')]),
    F('Pool::Pool', ['sz'], req=['1 <= @sz <= 4294967295', 'forall x:int. !own[x] = False /\\ !live[x] = False', '!fl.len = 0'],
      ens=[('pool invariant', INV), 'forall x:int. !live[x] = False']),
    F('Pool::get', [], req=[INV], hooks={'exit': GET_EXIT},
      ens=[('pool invariant', INV), ('new object is not in use', 'old !live[result] = False /\\ !live[result] = True /\\ result <> 0'),
           (KEEP[0], KEEP[1] % 'result'), ('nothing else handed out', 'forall x:int. x <> result -> !live[x] = old !live[x]')]),
    F('Pool::put', ['o'], req=[INV, '!live[@o] = True'],
      hooks={'exit': 'live := it (pure { !live[@o <- False] }); fl := it (pure { { len = !fl.len + 1; dat = !fl.dat[!fl.len <- @o] } });'},
      ens=[('pool invariant', INV), (KEEP[0], KEEP[1] % '@o'), ('only this one returned', '!live = old !live[@o <- False]')]),
    F('Pool::construct', [], req=[INV],
      ens=[('pool invariant', INV), ('new object is not in use', 'old !live[result] = False /\\ !live[result] = True /\\ result <> 0'),
           (KEEP[0], KEEP[1] % 'result'), ('constructed once', '!nctor = old !nctor + 1 /\\ !ndtor = old !ndtor'),
           ('nothing else handed out', 'forall x:int. x <> result -> !live[x] = old !live[x]')]),
    F('Pool::destruct', ['o'], req=[INV, '!live[@o] = True'],
      ens=[('pool invariant', INV), (KEEP[0], KEEP[1] % '@o'), ('only this one returned', '!live = old !live[@o <- False]'), ('destroyed once', '!ndtor = old !ndtor + 1 /\\ !nctor = old !nctor')]),
    F('Pool::blocks', [], ens=['result = @this.blks.len']),
    ])]
