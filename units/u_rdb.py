"""C25: attribute queues (rdb/rdb.hpp, rdb/rdb.cc). Strings are abstract values that are only copied and compared
(numbered from 0)."""
from tr import Unit, F, Loop
PRE = '''
(* some position of k among the first n elements of d, when there is one *)
function idxof (d : map int int) (n k : int) : int
axiom idxof_ax : forall d : map int int, n k i : int [d[i], idxof d n k]. 0 <= i < n /\\ d[i] = k -> 0 <= idxof d n k < n /\\ d[idxof d n k] = k
axiom map_use : forall m:map int int, i:int [m[i]]. (m[i <- 0])[i] = 0
predicate bound (h : map int bool) (d : map int int) (n : int) =
  forall k:int [h[k]]. h[k] = True -> 0 <= idxof d n k < n /\\ d[idxof d n k] = k
predicate listed (h : map int bool) (d : map int int) (n : int) =
  forall i:int [d[i]]. 0 <= i < n -> h[d[i]] = True /\\ 0 <= d[i]
predicate distinct_keys (d : map int int) (n : int) =
  forall i j:int [d[i], d[j]]. 0 <= i < j < n -> d[i] <> d[j]
(* the keys of the queue are exactly the keys bound, each listed once *)
predicate attrs_inv (r : r_rdbattrs) = 0 <= r.keys.len /\\
  bound r.pairs.mhas_i r.keys.dat r.keys.len /\\ listed r.pairs.mhas_i r.keys.dat r.keys.len /\\ distinct_keys r.keys.dat r.keys.len
'''
INV = ('keys and bindings in step', 'attrs_inv @this')
SAME = '(@this.keys.len = old @this.keys.len /\\ (forall i:int. 0 <= i < @this.keys.len -> @this.keys.dat[i] = (old @this.keys).dat[i]) /\\ @this.pairs = old @this.pairs)'


def push(off, newpos):
    return [INV,
            ('refused exactly when bound', 'result = True <-> (old @this.pairs).mhas_i[@key] = False'),
            ('refused without effect', 'result = False -> ' + SAME),
            ('one key more', 'result = True -> @this.keys.len = old @this.keys.len + 1 /\\ @this.keys.dat[%s] = @key' % newpos),
            ('other keys keep their order', 'result = True -> forall i:int. 0 <= i < old @this.keys.len -> @this.keys.dat[i + %s] = (old @this.keys).dat[i]' % off),
            ('bound to the value given', 'result = True -> @this.pairs.mhas_i[@key] = True /\\ @this.pairs.mval_i[@key] = @value'),
            ('other bindings unchanged', 'forall k:int. k <> @key -> @this.pairs.mhas_i[k] = (old @this.pairs).mhas_i[k] /\\ @this.pairs.mval_i[k] = (old @this.pairs).mval_i[k]')]


REST = ('other bindings unchanged', 'forall k:int. k <> %s -> @this.pairs.mhas_i[k] = (old @this.pairs).mhas_i[k] /\\ @this.pairs.mval_i[k] = (old @this.pairs).mval_i[k]')
UNITS = [Unit('rdb', '/repo/rdb/rdb.cc', prefix={'RdbAttrs': ''}, vmax=2147483646, prelude=PRE, absstr=True,
              assumptions=['strings are copied and compared only, equal exactly when they are the same value',
                           'a reference returned by lookup() or front() is read before the list is changed'],
              contracts=[
    F('RdbAttrs::push_back', ['key', 'value'], req=['attrs_inv @this', '0 <= @key'], ens=push('0', 'old @this.keys.len'),
      hooks={'entry': 'let k0 = it (pure { @this.keys }) in let h0 = it (pure { @this.pairs.mhas_i }) in',
             'exit': 'assert { @this.keys.len > k0.len -> @this.keys.dat[k0.len] = @key }; assert { forall k:int [h0[k]]. h0[k] = True -> @this.keys.dat[idxof k0.dat k0.len k] = k };'}),
    F('RdbAttrs::push_front', ['key', 'value'], req=['attrs_inv @this', '0 <= @key'], ens=push('1', '0')),
    F('RdbAttrs::pop_front', [], req=['attrs_inv @this', '0 < @this.keys.len'],
      ens=[INV, ('one key less', '@this.keys.len = old @this.keys.len - 1'),
           ('other keys keep their order', 'forall i:int. 0 <= i < @this.keys.len -> @this.keys.dat[i] = (old @this.keys).dat[i + 1]'),
           ('no longer bound', '@this.pairs.mhas_i[(old @this.keys).dat[0]] = False'), (REST[0], REST[1] % '(old @this.keys).dat[0]')]),
    F('RdbAttrs::front', [], req=['attrs_inv @this', '0 < @this.keys.len'], ens=[('first key', 'result = @this.keys.dat[0]'), ('unchanged', '@this = old @this')]),
    F('RdbAttrs::size', [], req=['attrs_inv @this'], ens=['result = @this.keys.len']),
    F('RdbAttrs::mem', ['key'], req=['attrs_inv @this'], ens=['result = @this.pairs.mhas_i[@key]']),
    F('RdbAttrs::lookup', ['key'], req=['attrs_inv @this', '@this.pairs.mhas_i[@key] = True'],
      ens=[('value bound to the key', 'result = (old @this.pairs).mval_i[@key]'), INV,
           ('unchanged', '@this.keys = old @this.keys /\\ forall k:int. @this.pairs.mhas_i[k] = (old @this.pairs).mhas_i[k] /\\ @this.pairs.mval_i[k] = (old @this.pairs).mval_i[k]')]),
    F('RdbAttrs::getkeys', [], req=['attrs_inv @this'], ens=[('keys in order', 'result.len = @this.keys.len /\\ forall i:int. 0 <= i < result.len -> result.dat[i] = @this.keys.dat[i]')]),
    F('RdbAttrs::rm', ['key'], req=['attrs_inv @this', '0 <= @key'],
      loops={0: Loop(inv=['0 <= @it <= @this.keys.len', '@this.keys = old @this.keys', '@this.pairs = p1', 'forall i:int [@this.keys.dat[i]]. 0 <= i < @it -> @this.keys.dat[i] <> @key'], variant='@this.keys.len - @it', before='let p1 = it (pure { @this.pairs }) in')},
      ens=[INV, ('present before', 'result = (old @this.pairs).mhas_i[@key]'), ('absent after', '@this.pairs.mhas_i[@key] = False'),
           ('without effect when absent', 'result = False -> ' + SAME),
           ('one key less', 'result = True -> @this.keys.len = old @this.keys.len - 1'),
           ('keys before it stay', 'result = True -> forall i j:int. 0 <= j < old @this.keys.len /\\ (old @this.keys).dat[j] = @key /\\ 0 <= i < j -> @this.keys.dat[i] = (old @this.keys).dat[i]'),
           ('keys behind it move up', 'result = True -> forall i j:int. 0 <= j < old @this.keys.len /\\ (old @this.keys).dat[j] = @key /\\ j <= i < @this.keys.len -> @this.keys.dat[i] = (old @this.keys).dat[i + 1]'),
           (REST[0], REST[1] % '@key')]),
    ])]
