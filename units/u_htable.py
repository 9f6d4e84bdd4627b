"""C07: hash table (structs/htable.hpp)."""
from tr import Unit, F, Loop
from u_closed import table, hit, STATE
pre, WF, resize, addreq, addens, add2, findloop = table('r_htable', False)
HAVE = '@this.nbins >= 1'
K = '@k'


def ren(x):
    """the element parameter is called e here"""
    if isinstance(x, str):
        return x.replace('@n ', '@e ').replace('@n)', '@e)').replace('@n]', '@e]').replace('@n;', '@e;')
    if isinstance(x, tuple):
        return (x[0], ren(x[1] + ' ').rstrip())
    if isinstance(x, list):
        return [ren(y + ' ').rstrip() if isinstance(y, str) else ren(y) for y in x]
    if isinstance(x, dict):
        return {k: ren(v) for k, v in x.items()}
    return x


REMEXIT = '''
  if it (pure { result_ = True }) then begin
    let x = it (pure { !gp }) in
    remove_chain @this.nbins gd0 gn0 !sq !bk !pos x;
    let c = it (pure { !bk[x] }) in let p = it (pure { !pos[x] }) in
    assert { @this.bins.dat = (if p = !sq[c].len - 1 then gd0[c <- gn0[x]] else gd0) };
    assert { !nxt = (if p = !sq[c].len - 1 then gn0 else gn0[!sq[c].dat[p+1] <- gn0[x]]) };
    pos := it (pure { lowered !bk !pos c p }); sq := it (pure { removed !sq c p }); bk := it (pure { !bk[x <- -1] });
  end;'''
c = '(ED.mod (hashf @k) @this.nbins)'
RL = Loop(['@this = old @this', '(@p = 0 /\\ forall k:int. 0 <= k < !sq[%s].len -> keyof !sq[%s].dat[k] <> @k) \\/ (@p <> 0 /\\ !bk[@p] = %s /\\ forall k:int. !pos[@p] < k < !sq[%s].len -> keyof !sq[%s].dat[k] <> @k)' % (c, c, c, c, c),
           ('predecessor', '@p <> 0 -> @q = (if !pos[@p] = !sq[%s].len - 1 then 0 else !sq[%s].dat[!pos[@p] + 1])' % (c, c))],
          '(if @p = 0 then 0 else !pos[@p] + 1)', begin='gp := it (pure { @p });')
REM = [('well-formed', WF),
       ('removed element had the key and was in the table', 'result = True -> (old !bk)[!gp] >= 0 /\\ keyof !gp = @k'),
       ('false only when no element has the key', 'result = False -> forall x:int. old !bk[x] >= 0 -> keyof x <> @k'),
       ('takes out exactly that element', 'forall x:int. !bk[x] >= 0 <-> ((old !bk)[x] >= 0 /\\ (result = False \\/ x <> !gp))'),
       ('size', '@this.fill = old @this.fill - (if result = True then 1 else 0)'), '@this.nbins = old @this.nbins']
UNITS = [Unit('htable', '/verif/drivers/closed.cc', heap={'HtableEntry': ''}, prefix={'Htable': ''}, owned=('Htable::bins',), prelude=pre, state=STATE + '''
val gdat : ref (map int int)
val gnxt : ref (map int int)
val gp : ref int
''', assumptions=['Ops::entry(e) is the link inside e: distinct elements have distinct links; Ops::key(e) does not change while e is in the table',
                  'the key comparison is equality and Ops::hash is a function of the key', 'fewer than 2^31 buckets and 2^64 elements'],
  contracts=[
    F('HOps::entry', ['e'], mode='val', ens=['result = @e']),
    F('HOps::key', ['e'], mode='val', ens=['result = keyof @e']),
    F('HOps::hash', ['k'], mode='val', ens=['result = hashf @k']),
    F('Htable::resize', ['sz'], **resize),
    F('Htable::Htable', ['sz'], req=['1 <= @sz <= 4294967295', 'forall b:int. !sq[b].len = 0', 'forall x:int. !bk[x] = -1'],
      ens=[('well-formed', WF), ('empty', 'forall x:int. !bk[x] < 0'), HAVE], hooks={'entry': 'sum_zero !sq 0;'}),
    F('Htable::add', ['e'], nparams=1, wname='f_add1', req=ren(addreq), ens=ren(addens)),
    F('Htable::add', ['e', 'h'], nparams=2, wname='f_add2', **ren(add2)),
    F('Htable::find', ['k'], nparams=1, wname='f_find1', req=[WF, HAVE], ens=hit(K) + ['@this = old @this']),
    F('Htable::find', ['k', 'h'], nparams=2, wname='f_find2', req=[WF, HAVE, '@h = hashf ' + K], ens=hit(K) + ['@this = old @this'], loops={0: findloop(K)}),
    F('Htable::rm', ['k'], nparams=1, wname='f_rm1', req=[WF, HAVE], ens=REM),
    F('Htable::rm', ['k', 'h'], nparams=2, wname='f_rm2', req=[WF, HAVE, '@h = hashf ' + K], ens=REM, loops={0: RL},
      hooks={'entry': 'let gd0 = it (pure { @this.bins.dat }) in let gn0 = it (pure { !nxt }) in sum_nonneg !sq @this.nbins;', 'exit': REMEXIT}),
    F('Htable::clear', [], req=[WF],
      loops={0: Loop(['0 <= @i <= @this.nbins', '@this.nbins = old @this.nbins', '@this.fill = 0', '@this.bins.len = @this.nbins',
                      'forall k:int. 0 <= k < @i -> @this.bins.dat[k] = 0'], '@this.nbins - @i')},
      hooks={'exit': '''
  let s0 = it (pure { !sq }) in let bk0 = it (pure { !bk }) in
  let bk1 = it (pure { fun (x:int) -> -1 + 0 * bk0[x] }) in let s1 = it (pure { fun (b:int) -> { s0[b] with len = 0 } }) in
  assert { forall x:int [bk1[x]]. bk1[x] = -1 }; assert { forall b:int [s1[b]]. s1[b].len = 0 };
  bk := bk1; sq := s1; sum_zero s1 @this.nbins;'''},
      ens=[('well-formed', WF), ('nothing left', 'forall x:int. !bk[x] = -1'), '@this.nbins = old @this.nbins']),
  ])]
