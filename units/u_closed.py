"""C07: closed list and hash table (search/closedlist.hpp, structs/htable.hpp)."""
from tr import Unit, F, Loop

SUMS = '''
(* total length of the first n chains *)
let rec ghost function sumlen (sq : map int veci) (n : int) : int variant { n }
= if n <= 0 then 0 else sumlen sq (n-1) + (sq[n-1]).len
let rec lemma sum_nonneg (sq : map int veci) (n : int)
  requires { forall b:int. 0 <= b < n -> sq[b].len >= 0 }
  ensures { sumlen sq n >= 0 }
  variant { n }
= if n > 0 then sum_nonneg sq (n-1)
let rec lemma sum_ge (sq : map int veci) (n b : int)
  requires { forall b:int. 0 <= b < n -> sq[b].len >= 0 }
  requires { 0 <= b < n }
  ensures { sumlen sq n >= sq[b].len }
  variant { n }
= if b < n-1 then sum_ge sq (n-1) b else sum_nonneg sq (n-1)
let rec lemma sum_eq (s1 s2 : map int veci) (n : int)
  requires { forall b:int. 0 <= b < n -> s1[b].len = s2[b].len }
  ensures { sumlen s1 n = sumlen s2 n }
  variant { n }
= if n > 0 then sum_eq s1 s2 (n-1)
let rec lemma sum_upd (s1 s2 : map int veci) (n b : int)
  requires { 0 <= b < n }
  requires { forall c:int. 0 <= c < n -> c <> b -> s1[c].len = s2[c].len }
  ensures { sumlen s2 n = sumlen s1 n - s1[b].len + s2[b].len }
  variant { n }
= if b < n-1 then sum_upd s1 s2 (n-1) b else sum_eq s1 s2 (n-1)
let rec lemma sum_zero (sq : map int veci) (n : int)
  requires { forall b:int. 0 <= b < n -> sq[b].len = 0 }
  ensures { sumlen sq n = 0 }
  variant { n }
= if n > 0 then sum_zero sq (n-1)
let rec lemma some_bucket (sq : map int veci) (n : int)
  requires { sumlen sq n > 0 }
  requires { forall b:int. 0 <= b < n -> sq[b].len >= 0 }
  ensures { exists b:int. 0 <= b < n /\\ sq[b].len > 0 }
  variant { n }
= if n > 0 then if pure { sq[n-1].len = 0 } then some_bucket sq (n-1)
'''
CHAINS = '''
(* sq b: the chain of bucket b, head last; bk: bucket of an element or -1; pos: its position in the chain *)
predicate lens (sq : map int veci) = forall b:int [sq[b]]. sq[b].len >= 0
predicate linked (nb : int) (nxt : map int int) (sq : map int veci) (bk pos : map int int) =
  forall b k:int [sq[b].dat[k]]. 0 <= b < nb -> 0 <= k < sq[b].len ->
    let x = sq[b].dat[k] in x <> 0 /\\ bk[x] = b /\\ pos[x] = k /\\ nxt[x] = (if k = 0 then 0 else sq[b].dat[k-1])
predicate placed (nb : int) (sq : map int veci) (bk pos : map int int) =
  forall x:int [bk[x]]. -1 <= bk[x] < nb /\\ (bk[x] >= 0 -> 0 <= pos[x] < sq[bk[x]].len /\\ sq[bk[x]].dat[pos[x]] = x)
predicate heads (nb : int) (dat : map int int) (sq : map int veci) =
  forall b:int [dat[b]]. 0 <= b < nb -> dat[b] = (if sq[b].len = 0 then 0 else sq[b].dat[sq[b].len - 1])
predicate chains (nb : int) (dat nxt : map int int) (sq : map int veci) (bk pos : map int int) =
  lens sq /\\ linked nb nxt sq bk pos /\\ placed nb sq bk pos /\\ heads nb dat sq
function pushed (sq : map int veci) (c x : int) : map int veci = sq[c <- { len = sq[c].len + 1; dat = sq[c].dat[sq[c].len <- x] }]
let lemma push_chain (nb : int) (dat nxt : map int int) (sq : map int veci) (bk pos : map int int) (c x : int)
  requires { chains nb dat nxt sq bk pos /\\ 0 <= c < nb /\\ x <> 0 /\\ bk[x] < 0 }
  ensures { chains nb dat[c <- x] nxt[x <- dat[c]] (pushed sq c x) bk[x <- c] pos[x <- sq[c].len] }
  ensures { sumlen (pushed sq c x) nb = sumlen sq nb + 1 }
= let s1 = pure { pushed sq c x } in
  sum_upd sq s1 nb c;
  assert { forall b:int [s1[b]]. s1[b] = if b = c then { len = sq[c].len + 1; dat = sq[c].dat[sq[c].len <- x] } else sq[b] };
  assert { forall b k:int [sq[b].dat[k]]. 0 <= b < nb -> 0 <= k < sq[b].len -> sq[b].dat[k] <> x }
(* taking x out: the positions above it move down by one *)
let ghost function shifted (sq : map int veci) (c p : int) : map int int = fun (k:int) -> if k < p then sq[c].dat[k] else sq[c].dat[k+1]
let ghost function removed (sq : map int veci) (c p : int) : map int veci = sq[c <- { len = sq[c].len - 1; dat = shifted sq c p }]
let ghost function lowered (bk pos : map int int) (c p : int) : map int int = fun (y:int) -> if bk[y] = c && pos[y] > p then pos[y] - 1 else pos[y]
let lemma remove_chain (nb : int) (dat nxt : map int int) (sq : map int veci) (bk pos : map int int) (x : int)
  requires { chains nb dat nxt sq bk pos /\\ bk[x] >= 0 }
  ensures { let c = bk[x] in let p = pos[x] in
    chains nb (if p = sq[c].len - 1 then dat[c <- nxt[x]] else dat) (if p = sq[c].len - 1 then nxt else nxt[sq[c].dat[p+1] <- nxt[x]])
      (removed sq c p) bk[x <- -1] (lowered bk pos c p) }
  ensures { sumlen (removed sq bk[x] pos[x]) nb = sumlen sq nb - 1 }
= let c = pure { bk[x] } in let p = pure { pos[x] } in
  let s1 = removed sq c p in let nd = shifted sq c p in let np = lowered bk pos c p in
  let bk1 = pure { bk[x <- -1] } in
  let nxt1 = pure { if p = sq[c].len - 1 then nxt else nxt[sq[c].dat[p+1] <- nxt[x]] } in
  assert { forall k:int [nd[k]]. nd[k] = if k < p then sq[c].dat[k] else sq[c].dat[k+1] };
  assert { forall y:int [np[y]]. np[y] = if bk[y] = c && pos[y] > p then pos[y] - 1 else pos[y] };
  assert { forall b:int [s1[b]]. s1[b] = if b = c then { len = sq[c].len - 1; dat = nd } else sq[b] };
  sum_upd sq s1 nb c;
  assert { forall y:int [bk1[y]]. bk1[y] = if y = x then -1 else bk[y] };
  assert { forall y:int [bk1[y]]. bk1[y] = c -> pos[y] <> p };
  assert { forall y:int [bk1[y]]. bk1[y] = c -> 0 <= np[y] < sq[c].len - 1 /\\ nd[np[y]] = y };
  assert { forall k:int [nd[k]]. 0 <= k < sq[c].len - 1 -> let y = nd[k] in y <> x /\\ y <> 0 /\\ bk1[y] = c /\\ np[y] = k };
  assert { forall k:int [nd[k]]. 0 <= k < sq[c].len - 1 -> nxt1[nd[k]] = (if k = 0 then 0 else nd[k-1]) };
  assert { forall b k:int [sq[b].dat[k]]. 0 <= b < nb -> b <> c -> 0 <= k < sq[b].len -> let y = sq[b].dat[k] in bk1[y] = b /\\ np[y] = k /\\ nxt1[y] = (if k = 0 then 0 else sq[b].dat[k-1]) };
  assert { linked nb nxt1 s1 bk1 np };
  assert { placed nb s1 bk1 np }
'''
HASH = '''
(* keys up to the equality of the domain, and a hash that is equal for equal keys *)
function keyof int : int
function hashf int : int
axiom hash_range : forall k:int [hashf k]. 0 <= hashf k <= 18446744073709551615
predicate hashed (nb : int) (bk : map int int) = forall x:int [bk[x]]. bk[x] >= 0 -> bk[x] = ED.mod (hashf (keyof x)) nb
(* what has been relinked by a resize that has reached element j of chain i *)
predicate moved (bk pos : map int int) (i j x : int) = bk[x] >= 0 /\\ (bk[x] < i \\/ (bk[x] = i /\\ pos[x] >= j))
predicate rest_linked (nb : int) (nxt : map int int) (sq : map int veci) (i j : int) =
  forall b k:int [sq[b].dat[k]]. i <= b < nb -> 0 <= k < sq[b].len -> (b = i -> k < j) -> nxt[sq[b].dat[k]] = (if k = 0 then 0 else sq[b].dat[k-1])
'''
STATE = '''
val sq : ref (map int veci)
val bk : ref (map int int)
val pos : ref (map int int)
val nsq : ref (map int veci)
val nbk : ref (map int int)
val npos : ref (map int int)
val gj : ref int
'''


def table(R, fills):
    """prelude and contracts for a chained table with record type R"""
    pre = SUMS + CHAINS + HASH + '''
predicate wf (q : %(R)s) (nxt : map int int) (sq : map int veci) (bk pos : map int int) =
  0 <= q.fill <= 18446744073709551615 /\\ 0 <= q.nbins <= 4294967295 /\\ q.bins.len = q.nbins %(F)s/\\
  chains q.nbins q.bins.dat nxt sq bk pos /\\ (q.nbins > 0 -> hashed q.nbins bk) /\\ q.fill = sumlen sq q.nbins
''' % dict(R=R, F='/\\ q.fills.len = q.nbins ' if fills else '')
    WF = 'wf @this !nxt !sq !bk !pos'
    B = '@b.len = @sz /\\ @f.len = @sz' if fills else '@b.len = @sz'
    SAME = '@this.fill = old @this.fill /\\ @this.nbins = old @this.nbins /\\ @this.bins = (old @this).bins' + (' /\\ @this.fills = (old @this).fills' if fills else '')
    resize = dict(
        req=['0 <= @this.nbins <= 4294967295', '@this.bins.len = @this.nbins \\/ (@this.nbins = 0 /\\ @this.bins.len = -1)'] +
        (['@this.fills.len = @this.nbins \\/ (@this.nbins = 0 /\\ @this.fills.len = -1)'] if fills else []) +
        ['1 <= @sz <= 4294967295', 'chains @this.nbins @this.bins.dat !nxt !sq !bk !pos', '0 <= @this.fill <= 18446744073709551615', '@this.fill = sumlen !sq @this.nbins'],
        loops={
            0: Loop(['0 <= @i <= @sz', B, SAME, '!nxt = old !nxt', 'forall k:int. 0 <= k < @i -> @b.dat[k] = 0', '!sq = old !sq /\\ !bk = old !bk /\\ !pos = old !pos'], '@sz - @i'),
            1: Loop(['0 <= @i <= @this.nbins', B, SAME, '!sq = old !sq /\\ !bk = old !bk /\\ !pos = old !pos',
                     ('new chains', 'chains @sz @b.dat !nxt !nsq !nbk !npos'), ('relinked so far', 'forall x:int [!nbk[x]]. !nbk[x] >= 0 <-> moved !bk !pos @i (!sq[@i].len) x'),
                     ('chain of its hash', 'hashed @sz !nbk'), ('rest of the old chains', 'rest_linked @this.nbins !nxt !sq @i (!sq[@i].len)'),
                     ('number relinked', 'sumlen !nsq @sz = sumlen !sq @i')], '@this.nbins - @i',
                    before='''
  let zsq = it (pure { fun (b:int) -> { !sq[b] with len = 0 } }) in let zbk = it (pure { fun (x:int) -> 0 * !bk[x] - 1 }) in
  assert { forall b:int [zsq[b]]. zsq[b].len = 0 }; assert { forall x:int [zbk[x]]. zbk[x] = -1 };
  nsq := zsq; nbk := zbk; npos := it (pure { !pos }); sum_zero zsq @sz;''',
                    begin='gj := it (pure { !sq[@i].len });',
                    end='assert { sumlen !sq (@i + 1) = sumlen !sq @i + !sq[@i].len };'),
            2: Loop(['0 <= @i < @this.nbins', B, SAME, '!sq = old !sq /\\ !bk = old !bk /\\ !pos = old !pos',
                     ('position in the old chain', '0 <= !gj <= !sq[@i].len /\\ @p = (if !gj = 0 then 0 else !sq[@i].dat[!gj - 1])'),
                     ('new chains', 'chains @sz @b.dat !nxt !nsq !nbk !npos'), ('relinked so far', 'forall x:int [!nbk[x]]. !nbk[x] >= 0 <-> moved !bk !pos @i !gj x'),
                     ('chain of its hash', 'hashed @sz !nbk'), ('rest of the old chains', 'rest_linked @this.nbins !nxt !sq @i !gj'),
                     ('number relinked', 'sumlen !nsq @sz = sumlen !sq @i + !sq[@i].len - !gj')], '!gj',
                    begin='''let ob = it (pure { @b.dat }) in let onxt = it (pure { !nxt }) in let ox = it (pure { @p }) in let oc = it (pure { ED.mod (hashf (keyof ox)) @sz }) in
  push_chain @sz ob onxt !nsq !nbk !npos oc ox;''',
                    end='''
  assert { @b.dat = ob[oc <- ox] }; assert { !nxt = onxt[ox <- ob[oc]] };
  npos := it (pure { !npos[ox <- !nsq[oc].len] }); nsq := it (pure { pushed !nsq oc ox }); nbk := it (pure { !nbk[ox <- oc] }); gj := it (pure { !gj - 1 });
  assert { !pos[ox] = !gj /\\ !bk[ox] = @i };
  assert { forall x:int [!bk[x]]. !bk[x] = @i -> !pos[x] = !gj -> x = ox };'''),
        },
        hooks={'exit': 'sq := it (pure { !nsq }); bk := it (pure { !nbk }); pos := it (pure { !npos });'},
        ens=[('well-formed', WF), ('size', '@this.nbins = @sz'), ('same number of elements', '@this.fill = old @this.fill'),
             ('same elements', 'forall x:int. !bk[x] >= 0 <-> old !bk[x] >= 0')])
    EL = ('elements', 'forall x:int. !bk[x] >= 0 <-> (old !bk[x] >= 0 \\/ x = @n)')
    addreq = [WF, '@n <> 0', '!bk[@n] < 0', '@this.nbins < 2147483648', '@this.fill < 18446744073709551615']
    addens = [('well-formed', WF), EL, ('size', '@this.fill = old @this.fill + 1'), ('number of buckets', '@this.nbins >= 1 /\\ (@this.nbins = old @this.nbins \\/ @this.nbins = 2 * old @this.nbins \\/ old @this.nbins = 0)')]
    add2 = dict(req=addreq + ['@h = hashf (keyof @n)'], ens=addens, hooks={
        'entry': 'gdat := it (pure { @this.bins.dat }); gnxt := it (pure { !nxt });',
        'after:resize#0': 'gdat := it (pure { @this.bins.dat }); gnxt := it (pure { !nxt });',
        'exit': '''
  let oc = it (pure { ED.mod (hashf (keyof @n)) @this.nbins }) in
  push_chain @this.nbins !gdat !gnxt !sq !bk !pos oc @n;
  assert { @this.bins.dat = !gdat[oc <- @n] }; assert { !nxt = !gnxt[@n <- !gdat[oc]] };
  pos := it (pure { !pos[@n <- !sq[oc].len] }); sq := it (pure { pushed !sq oc @n }); bk := it (pure { !bk[@n <- oc] });'''})
    C = '(ED.mod (hashf %s) @this.nbins)'

    def findloop(k):
        c = C % k
        return Loop(['(@p = 0 /\\ forall k:int. 0 <= k < !sq[%s].len -> keyof !sq[%s].dat[k] <> %s) \\/ (@p <> 0 /\\ !bk[@p] = %s /\\ forall k:int. !pos[@p] < k < !sq[%s].len -> keyof !sq[%s].dat[k] <> %s)' % (
            c, c, k, c, c, c, k)], '(if @p = 0 then 0 else !pos[@p] + 1)')
    return pre, WF, resize, addreq, addens, add2, findloop


def hit(k):
    return [('found element has the key and is in the table', 'result <> 0 -> !bk[result] >= 0 /\\ keyof result = %s' % k),
            ('null only when no element has the key', 'result = 0 -> forall x:int. !bk[x] >= 0 -> keyof x <> %s' % k)]


pre, WF, resize, addreq, addens, add2, findloop = table('r_closedlist', True)
HAVE = '@this.nbins >= 1'
K = '@k.k'
K = '@k.vpacked_k'
REMEXIT = '''
  if it (pure { result_ <> 0 }) then begin
    remove_chain @this.nbins gd0 gn0 !sq !bk !pos result_;
    let c = it (pure { !bk[result_] }) in let p = it (pure { !pos[result_] }) in
    assert { @this.bins.dat = (if p = !sq[c].len - 1 then gd0[c <- gn0[result_]] else gd0) };
    assert { !nxt = (if p = !sq[c].len - 1 then gn0 else gn0[!sq[c].dat[p+1] <- gn0[result_]]) };
    pos := it (pure { lowered !bk !pos c p }); sq := it (pure { removed !sq c p }); bk := it (pure { !bk[result_ <- -1] });
  end;'''


def remloop(k):
    c = '(ED.mod (hashf %s) @this.nbins)' % k
    return Loop(['@this = old @this', '(@p = 0 /\\ forall k:int. 0 <= k < !sq[%s].len -> keyof !sq[%s].dat[k] <> %s) \\/ (@p <> 0 /\\ !bk[@p] = %s /\\ forall k:int. !pos[@p] < k < !sq[%s].len -> keyof !sq[%s].dat[k] <> %s)' % (
        c, c, k, c, c, c, k),
        ('predecessor', '@p <> 0 -> if !pos[@p] = !sq[%s].len - 1 then @prev = @p else (@prev = !sq[%s].dat[!pos[@p] + 1] /\\ @prev <> @p)' % (c, c))],
        '(if @p = 0 then 0 else !pos[@p] + 1)')


def removal(k):
    return [('well-formed', WF), ('removed element had the key and was in the table', 'result <> 0 -> old !bk[result] >= 0 /\\ keyof result = %s' % k),
            ('null only when no element has the key', 'result = 0 -> forall x:int. old !bk[x] >= 0 -> keyof x <> %s' % k),
            ('takes out exactly that element', 'forall x:int. !bk[x] >= 0 <-> (old !bk[x] >= 0 /\\ (result = 0 \\/ x <> result))'),
            ('size', '@this.fill = old @this.fill - (if result = 0 then 0 else 1)'), '@this.nbins = old @this.nbins']


ITWF = '(%(i)s.it_nbins = %(n)s /\\ %(i)s.it_bins.len = %(n)s /\\ 0 <= %(i)s.it_b <= %(n)s /\\ (if %(i)s.it_b = %(n)s then %(i)s.it_n = 0 else %(i)s.it_n <> 0 /\\ !bk[%(i)s.it_n] = %(i)s.it_b))'
ITCH = '(1 <= @this.it_nbins <= 4294967295 /\\ @this.it_bins.len = @this.it_nbins /\\ chains @this.it_nbins @this.it_bins.dat !nxt !sq !bk !pos)'
CLOSED = Unit('closed', '/verif/drivers/closed.cc', heap={'ClosedEntry': ''}, prefix={'ClosedList': '', 'iterator': 'it_'},
              owned=('ClosedList::bins', 'ClosedList::fills'), views=('iterator::bins',), pretypes='', prelude=pre + '''
(* elements an iteration has yet to visit *)
predicate todo (it : r_iterator) (bk pos : map int int) (x : int) =
  bk[x] >= 0 /\\ it.it_b < it.it_nbins /\\ (bk[x] > it.it_b \\/ (bk[x] = it.it_b /\\ pos[x] <= pos[it.it_n]))
''', state=STATE + '''
val gdat : ref (map int int)
val gnxt : ref (map int int)
''',
  assumptions=['Ops::closedentry(n) is the link inside n: distinct nodes have distinct links; Ops::key(n) does not change while n is in the list',
               'the equality of packed states is an equivalence relation and the hash is equal for equal states',
               'fewer than 2^31 buckets and 2^64 elements'],
  contracts=[
    F('VOps::closedentry', ['n'], mode='val', ens=['result = @n']),
    F('VOps::key', ['n'], mode='val', ens=['result.vpacked_k = keyof @n']),
    F('VPacked::eq', ['d', 'o'], cfg={'this_val': 1, 'drop': (0,)}, mode='val', ens=['result = True <-> this.vpacked_k = @o.vpacked_k']),
    F('VPacked::hash', ['d'], cfg={'this_val': 1, 'drop': (0,)}, mode='val', ens=['result = hashf this.vpacked_k']),
    F('ClosedList::resize', ['sz'], **resize),
    F('ClosedList::ClosedList', ['szhint'], req=['1 <= @szhint <= 4294967295', 'forall b:int. !sq[b].len = 0', 'forall x:int. !bk[x] = -1'],
      ens=[('well-formed', WF), ('empty', 'forall x:int. !bk[x] < 0'), HAVE], hooks={'entry': 'sum_zero !sq 0;'}, cfg={'entry_this': 1}),
    F('ClosedList::clear', [], req=[WF],
      loops={0: Loop(['0 <= @i <= @this.nbins', '@this.nbins = old @this.nbins', '@this.fill = 0', '@this.bins.len = @this.nbins', '@this.fills.len = @this.nbins',
                      'forall k:int. 0 <= k < @i -> @this.bins.dat[k] = 0'], '@this.nbins - @i')},
      hooks={'exit': '''
  let s0 = it (pure { !sq }) in let bk0 = it (pure { !bk }) in
  let bk1 = it (pure { fun (x:int) -> -1 + 0 * bk0[x] }) in let s1 = it (pure { fun (b:int) -> { s0[b] with len = 0 } }) in
  assert { forall x:int [bk1[x]]. bk1[x] = -1 }; assert { forall b:int [s1[b]]. s1[b].len = 0 };
  bk := bk1; sq := s1; sum_zero s1 @this.nbins;'''},
      ens=[('well-formed', WF), ('nothing left', 'forall x:int. !bk[x] = -1'), '@this.nbins = old @this.nbins']),
    F('ClosedList::add', ['n'], nparams=1, wname='f_add1', req=addreq, ens=addens),
    F('ClosedList::add', ['n', 'h'], nparams=2, wname='f_add2', **add2),
    F('ClosedList::find', ['k'], nparams=1, wname='f_find1', req=[WF, HAVE], ens=hit(K) + ['@this = old @this']),
    F('ClosedList::find', ['k', 'h'], nparams=2, wname='f_find2', req=[WF, HAVE, '@h = hashf ' + K], ens=hit(K) + ['@this = old @this'], loops={0: findloop(K)}),
    F('ClosedList::remove', ['k'], nparams=1, wname='f_remove1', req=[WF, HAVE], ens=removal(K)),
    F('ClosedList::remove', ['k', 'h'], nparams=2, wname='f_remove2', req=[WF, HAVE, '@h = hashf ' + K], ens=removal(K), loops={0: remloop(K)},
      hooks={'entry': 'let gd0 = it (pure { @this.bins.dat }) in let gn0 = it (pure { !nxt }) in sum_nonneg !sq @this.nbins;', 'exit': REMEXIT}),
    F('ClosedList::iterator::nextbin', [], req=[ITCH, '0 <= @this.it_b < @this.it_nbins'], ens=[
        ('stops at the next non-empty bucket', 'old @this.it_b < @this.it_b <= @this.it_nbins /\\ (@this.it_b < @this.it_nbins -> @this.it_bins.dat[@this.it_b] <> 0)'),
        ('skips only empty buckets', 'forall b:int. old @this.it_b < b < @this.it_b -> !sq[b].len = 0'),
        '@this.it_n = old @this.it_n /\\ @this.it_bins = (old @this).it_bins /\\ @this.it_nbins = old @this.it_nbins'],
      loops={0: Loop(['old @this.it_b < @this.it_b <= @this.it_nbins', 'forall b:int. old @this.it_b < b < @this.it_b -> !sq[b].len = 0',
                      '@this.it_n = old @this.it_n /\\ @this.it_bins = (old @this).it_bins /\\ @this.it_nbins = old @this.it_nbins'], '@this.it_nbins - @this.it_b')}),
    F('ClosedList::begin', [], req=[WF, HAVE], ens=[('iterator is well-formed', ITWF % dict(i='result', n='@this.nbins')),
        ('all elements are still to be visited', 'forall x:int. !bk[x] >= 0 <-> todo result !bk !pos x'), '@this = old @this', 'result.it_bins = @this.bins']),
    F('ClosedList::end', [], req=[WF, HAVE], ens=[('end', 'result.it_b = @this.nbins /\\ result.it_n = 0'), '@this = old @this']),
    F('ClosedList::iterator::operator++', [], wname='f_iter_incr', req=[ITCH, ITWF % dict(i='@this', n='@this.it_nbins'), '@this.it_b < @this.it_nbins'],
      ens=[('iterator is well-formed', ITWF % dict(i='@this', n='@this.it_nbins')), '@this.it_bins = (old @this).it_bins', '@this.it_nbins = old @this.it_nbins',
           ('visits exactly one element per step', 'forall x:int. todo @this !bk !pos x <-> (todo (old @this) !bk !pos x /\\ x <> old @this.it_n)')]),
    F('ClosedList::iterator::operator*', [], wname='f_iter_deref', cfg={'this_val': 1}, ens=['result = this.it_n']),
    F('ClosedList::iterator::operator!=', ['o'], wname='f_iter_ne', cfg={'this_val': 1}, ens=[('end test', 'result = True <-> (this.it_n <> @o.it_n \\/ this.it_b <> @o.it_b)')]),
    F('ClosedList::empty', [], cfg={'this_val': 1}, req=['wf this !nxt !sq !bk !pos'], hooks={'entry': '''
  if it (pure { this.fill > 0 }) then begin some_bucket !sq this.nbins; assert { exists b:int. 0 <= b < this.nbins /\\ !bk[!sq[b].dat[0]] = b } end
  else assert { forall b:int. 0 <= b < this.nbins -> !sq[b].len = 0 };'''},
      ens=[('empty exactly when nothing is in it', 'result = True <-> forall x:int. !bk[x] < 0')]),
    F('ClosedList::getFill', [], cfg={'this_val': 1}, ens=['result = this.fill']),
    ])
UNITS = [CLOSED]
