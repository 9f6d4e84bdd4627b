"""C23: integer logarithm, power, falling factorial (utils/math.cc)."""
from tr import Unit, F, Loop
PRE = '''
use int.Power as IP
let lemma pow2_vals () ensures { pow2 1 = 2 /\\ pow2 2 = 4 /\\ pow2 3 = 8 /\\ pow2 4 = 16 /\\ pow2 5 = 32 /\\ pow2 6 = 64 /\\ pow2 7 = 128 /\\ pow2 8 = 256 /\\
  pow2 9 = 512 /\\ pow2 10 = 1024 /\\ pow2 11 = 2048 /\\ pow2 12 = 4096 /\\ pow2 13 = 8192 /\\ pow2 14 = 16384 /\\ pow2 15 = 32768 /\\ pow2 16 = 65536 /\\
  pow2 17 = 131072 /\\ pow2 18 = 262144 /\\ pow2 19 = 524288 /\\ pow2 20 = 1048576 /\\ pow2 21 = 2097152 /\\ pow2 22 = 4194304 /\\ pow2 23 = 8388608 /\\
  pow2 24 = 16777216 /\\ pow2 25 = 33554432 /\\ pow2 26 = 67108864 /\\ pow2 27 = 134217728 /\\ pow2 28 = 268435456 /\\ pow2 29 = 536870912 /\\
  pow2 30 = 1073741824 /\\ pow2 31 = 2147483648 /\\ pow2 32 = 4294967296 }
= let ref k = 0 in
  assert { pow2 (0+1) = 2 * pow2 0 }; assert { pow2 (1+1) = 2 * pow2 1 }; assert { pow2 (2+1) = 2 * pow2 2 };
  assert { pow2 (3+1) = 2 * pow2 3 }; assert { pow2 (4+1) = 2 * pow2 4 }; assert { pow2 (5+1) = 2 * pow2 5 };
  assert { pow2 (6+1) = 2 * pow2 6 }; assert { pow2 (7+1) = 2 * pow2 7 }; assert { pow2 (8+1) = 2 * pow2 8 };
  assert { pow2 (9+1) = 2 * pow2 9 }; assert { pow2 (10+1) = 2 * pow2 10 }; assert { pow2 (11+1) = 2 * pow2 11 };
  assert { pow2 (12+1) = 2 * pow2 12 }; assert { pow2 (13+1) = 2 * pow2 13 }; assert { pow2 (14+1) = 2 * pow2 14 };
  assert { pow2 (15+1) = 2 * pow2 15 }; assert { pow2 (16+1) = 2 * pow2 16 }; assert { pow2 (17+1) = 2 * pow2 17 };
  assert { pow2 (18+1) = 2 * pow2 18 }; assert { pow2 (19+1) = 2 * pow2 19 }; assert { pow2 (20+1) = 2 * pow2 20 };
  assert { pow2 (21+1) = 2 * pow2 21 }; assert { pow2 (22+1) = 2 * pow2 22 }; assert { pow2 (23+1) = 2 * pow2 23 };
  assert { pow2 (24+1) = 2 * pow2 24 }; assert { pow2 (25+1) = 2 * pow2 25 }; assert { pow2 (26+1) = 2 * pow2 26 };
  assert { pow2 (27+1) = 2 * pow2 27 }; assert { pow2 (28+1) = 2 * pow2 28 }; assert { pow2 (29+1) = 2 * pow2 29 };
  assert { pow2 (30+1) = 2 * pow2 30 }; assert { pow2 (31+1) = 2 * pow2 31 }
let rec lemma pow_ge1 (b n : int) requires { b >= 1 /\\ n >= 0 } ensures { IP.power b n >= 1 } variant { n }
= if n > 0 then begin pow_ge1 b (n-1); assert { IP.power b n = b * IP.power b (n-1) } end
let rec lemma pow_mono (b i e : int) requires { b >= 1 /\\ 0 <= i <= e } ensures { IP.power b i <= IP.power b e } variant { e - i }
= if i < e then begin pow_mono b (i+1) e; pow_ge1 b i; assert { IP.power b (i+1) = b * IP.power b i } end
let lemma pow_zero (n : int) requires { n >= 1 } ensures { IP.power 0 n = 0 } = assert { IP.power 0 n = 0 * IP.power 0 (n-1) }
(* x (x-1) ... (x-n+1) *)
function ff int int : int
axiom ff_0 : forall x:int. ff x 0 = 1
axiom ff_s : forall x n:int [ff x n]. n > 0 -> ff x n = ff x (n-1) * (x - n + 1)
let rec lemma ff_pos (x n : int) requires { 0 <= n <= x } ensures { ff x n >= 1 } variant { n }
= if n > 0 then begin ff_pos x (n-1); assert { ff x n = ff x (n-1) * (x - n + 1) } end
let rec lemma ff_mono (x i n : int) requires { 0 <= i <= n <= x } ensures { ff x i <= ff x n } variant { n - i }
= if i < n then begin ff_mono x (i+1) n; ff_pos x i; assert { ff x (i+1) = ff x i * (x - i) }; assert { x - i >= 1 } end
let rec lemma ff_zero (x n : int) requires { 0 <= x < n } ensures { ff x n = 0 } variant { n }
= if n > x + 1 then begin ff_zero x (n-1); assert { ff x n = ff x (n-1) * (x - n + 1) } end
  else assert { ff x n = ff x (n-1) * (x - n + 1) }
'''
M64 = '18446744073709551616'
UNITS = [Unit('math', '/repo/utils/math.cc', prelude=PRE,
              contracts=[
    F('ilog2', ['v'], req=['0 <= @v < 4294967296'],
      ens=[('zero', '@v = 0 -> result = 0'), ('number of binary digits', '@v > 0 -> 1 <= result <= 32 /\\ pow2 (result - 1) <= @v < pow2 result')]),
    F('ipow', ['b', 'e'], req=['0 <= @b < 4294967296', '0 <= @e < 4294967296'],
      ens=[('power when representable', 'IP.power @b @e < %s -> result = IP.power @b @e' % M64)],
      loops={0: Loop(['0 <= @i <= @e', 'IP.power @b @e < %s -> @r = IP.power @b @i' % M64], '@e - @i',
                     begin='''
  assert { IP.power @b (@i+1) = @b * IP.power @b @i };
  assert { @b >= 1 -> IP.power @b (@i+1) <= IP.power @b @e };
  assert { @b = 0 -> IP.power @b (@i+1) = 0 };
  assert { IP.power @b @e < %s -> 0 <= @r * @b < %s };''' % (M64, M64))}),
    F('fallfact', ['x', 'n'], req=['0 <= @x < 4294967296', '0 <= @n < 4294967296'],
      ens=[('falling factorial when representable', '@n <= @x -> ff @x @n < %s -> result = ff @x @n' % M64),
           ('zero beyond x', '@n > @x -> result = 0')],
      loops={0: Loop(['0 <= @i <= @n', '@n <= @x -> ff @x @n < %s -> @f = ff @x @i' % M64,
                      '@i > @x -> @f = 0'], '@n - @i',
                     begin='''
  assert { ff @x (@i+1) = ff @x @i * (@x - @i) };
  assert { @n <= @x -> ff @x @n < %s -> 0 <= ff @x (@i + 1) < %s };
  assert { @n <= @x -> ff @x @n < %s -> @f * (@x - @i) = ff @x (@i + 1) /\\ w_u32 (@x - @i) = @x - @i };
  assert { @n <= @x -> ff @x @n < %s -> w_u64 (@f * (@x - @i)) = @f * (@x - @i) };''' % (M64, M64, M64, M64))}),
])]
