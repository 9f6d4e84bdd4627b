"""C22: checked integer arithmetic (utils/safeops.hpp)."""
from tr import Unit, F, Loop
PRE = '''
(* everything the range tests compare, for one pair of operands; proved once, used at every function entry *)
let lemma div_pos (m a b : int)
  requires { m > 0 /\\ a > 0 /\\ b > 0 }
  ensures { (CD.div m b < a) <-> (a * b > m) }
  ensures { (CD.div m a < b) <-> (a * b > m) }
= let q = CD.div m b in let r = CD.mod m b in
  assert { m = b * q + r /\\ 0 <= r < b };
  assert { q < a -> (q + 1) * b <= a * b by q + 1 <= a };
  assert { q >= a -> a * b <= q * b };
  let q2 = CD.div m a in let r2 = CD.mod m a in
  assert { m = a * q2 + r2 /\\ 0 <= r2 < a };
  assert { q2 < b -> (q2 + 1) * a <= a * b by q2 + 1 <= b };
  assert { q2 >= b -> a * b <= q2 * a }
let lemma div_neg (m a b : int)
  requires { m > 0 /\\ a < 0 /\\ b < 0 }
  ensures { (CD.div m b > a) <-> (a * b > m) }
  ensures { (CD.div m a > b) <-> (a * b > m) }
= let na = 0 - a in let nb = 0 - b in
  div_pos m na nb; assert { na * nb = a * b };
  assert { CD.div m b = - CD.div m nb by m = nb * CD.div m nb + CD.mod m nb /\\ m = b * CD.div m b + CD.mod m b /\\ 0 <= CD.mod m nb < nb /\\ 0 <= CD.mod m b < nb };
  assert { CD.div m a = - CD.div m na by m = na * CD.div m na + CD.mod m na /\\ m = a * CD.div m a + CD.mod m a /\\ 0 <= CD.mod m na < na /\\ 0 <= CD.mod m a < na }
(* l < 0: the lower limit; a > 0 > b *)
let lemma div_low (l a b : int)
  requires { l < 0 /\\ a > 0 /\\ b < 0 }
  ensures { (CD.div l a > b) <-> (a * b < l) }
  ensures { b < -1 -> ((CD.div l b < a) <-> (a * b < l)) }
= let ml = 0 - l in let nb = 0 - b in
  div_pos ml a nb; assert { a * nb = - (a * b) };
  assert { CD.div l a = - CD.div ml a by ml = a * CD.div ml a + CD.mod ml a /\\ l = a * CD.div l a + CD.mod l a /\\ 0 <= CD.mod ml a < a /\\ - a < CD.mod l a <= 0 };
  assert { CD.div l b = CD.div ml nb by ml = nb * CD.div ml nb + CD.mod ml nb /\\ l = b * CD.div l b + CD.mod l b /\\ 0 <= CD.mod ml nb < nb /\\ - nb < CD.mod l b <= 0 }
let lemma mul_ge (x y : int) requires { x >= 0 /\\ y >= 1 } ensures { x * y >= x } = assert { x * y - x = x * (y - 1) }
let lemma div_le (a b : int) requires { a >= 0 /\\ b > 0 } ensures { 0 <= CD.div a b <= a }
= if CD.div a b > a then mul_ge (CD.div a b) b
let lemma div_abs (a b : int) requires { b <> 0 } ensures { a >= 0 -> b > 0 -> 0 <= CD.div a b <= a } ensures { a >= 0 -> b < 0 -> - a <= CD.div a b <= 0 }
  ensures { a <= 0 -> b > 0 -> a <= CD.div a b <= 0 } ensures { a <= 0 -> b < -1 -> 0 <= CD.div a b <= - a } ensures { b = -1 -> CD.div a b = - a }
= let na = 0 - a in let nb = 0 - b in
  if a >= 0 && b > 0 then div_le a b;
  if a >= 0 && b < 0 then begin div_le a nb; assert { CD.div a b = - CD.div a nb by a = nb * CD.div a nb + CD.mod a nb /\\ a = b * CD.div a b + CD.mod a b /\\ 0 <= CD.mod a nb < nb /\\ 0 <= CD.mod a b < nb } end;
  if a <= 0 && b > 0 then begin div_le na b; assert { CD.div a b = - CD.div na b by na = b * CD.div na b + CD.mod na b /\\ a = b * CD.div a b + CD.mod a b /\\ 0 <= CD.mod na b < b /\\ - b < CD.mod a b <= 0 } end;
  if a <= 0 && b < 0 then begin div_le na nb; assert { CD.div a b = CD.div na nb by na = nb * CD.div na nb + CD.mod na nb /\\ a = b * CD.div a b + CD.mod a b /\\ 0 <= CD.mod na nb < nb /\\ - nb < CD.mod a b <= 0 } end
let ghost facts (mn mx a b : int)
  requires { (mn = 0 \\/ mn = - mx - 1) /\\ 0 < mx /\\ mn <= a <= mx /\\ mn <= b <= mx }
  ensures { a > 0 -> b > 0 -> (CD.div mx b < a <-> a * b > mx) /\\ (CD.div mx a < b <-> a * b > mx) /\\ a * b > 0 }
  ensures { a < 0 -> b < 0 -> (CD.div mx b > a <-> a * b > mx) /\\ (CD.div mx a > b <-> a * b > mx) /\\ a * b > 0 }
  ensures { mn < 0 -> a > 0 -> b < 0 -> (CD.div mn a > b <-> a * b < mn) /\\ (b < -1 -> (CD.div mn b < a <-> a * b < mn)) /\\ a * b < 0 }
  ensures { mn < 0 -> a < 0 -> b > 0 -> (CD.div mn b > a <-> a * b < mn) /\\ (a < -1 -> (CD.div mn a < b <-> a * b < mn)) /\\ a * b < 0 }
  ensures { a = 0 \\/ b = 0 -> a * b = 0 }
  ensures { a = mn -> mn < 0 -> b < 0 -> a * b > mx by b = -1 \\/ a * b >= -2 * a }
  ensures { b = mn -> mn < 0 -> a < 0 -> a * b > mx by a = -1 \\/ a * b >= -2 * b }
  ensures { mn < 0 -> b <> 0 -> not (a = mn /\\ b = -1) -> mn <= CD.div a b <= mx }
= if b <> 0 then div_abs a b;
  if mn < 0 && a < 0 && b < 0 then begin mul_ge (0 - a) (0 - b); mul_ge (0 - b) (0 - a); assert { a * b = (0 - a) * (0 - b) = (0 - b) * (0 - a) } end;
  if a > 0 && b > 0 then div_pos mx a b
  else if a < 0 && b < 0 then div_neg mx a b
  else if mn < 0 && a > 0 && b < 0 then div_low mn a b
  else if mn < 0 && a < 0 && b > 0 then div_low mn b a
'''
TY = [('int', 1, 32), ('unsigned int', 0, 32), ('long', 1, 64), ('unsigned long', 0, 64), ('short', 1, 16), ('unsigned short', 0, 16),
      ('signed char', 1, 8), ('unsigned char', 0, 8)]


def contracts():
    out = []
    for t, s, n in TY:
        mn, mx = (-(2 ** (n - 1)), 2 ** (n - 1) - 1) if s else (0, 2 ** n - 1)
        rg = ['(%d) <= @a <= %d' % (mn, mx), '(%d) <= @b <= %d' % (mn, mx)]
        w = t.replace(' ', '_')

        def fits(e):
            return '((%d) <= %s <= %d)' % (mn, e, mx)
        h = {'entry': 'facts (%d) %d @a @b;' % (mn, mx)}
        for op, e in (('add', '@a + @b'), ('sub', '@a - @b'), ('mul', '@a * @b')):
            ens = [('exact result', 'result = %s' % e), ('only when representable', fits(e))]
            rs = {'raises': [('error only on overflow', 'not ' + fits(e))]}
            out.append(F('safe::ops::' + op, ['a', 'b'], targs='ops<%s,' % t, sig='%s (%s, %s)' % (t, t, t), req=rg, ens=ens, cfg=rs, hooks=h, wname='ops_%s_%s' % (op, w)))
            out.append(F('safe::' + op, ['a', 'b'], targs=None, sig='%s (%s, %s)' % (t, t, t), req=rg, ens=ens, cfg=rs, wname='%s_%s' % (op, w)))
        ens = [('exact result', 'result = CD.div @a @b'), ('only when representable', '@b <> 0 /\\ ' + fits('(CD.div @a @b)'))]
        rs = {'raises': [('error only on zero divisor or overflow', '@b = 0 \\/ not ' + fits('(CD.div @a @b)'))]}
        out.append(F('safe::ops::div', ['a', 'b'], targs='ops<%s,' % t, sig='%s (%s, %s)' % (t, t, t), req=rg, ens=ens, cfg=rs, hooks=h, wname='ops_div_%s' % w))
        out.append(F('safe::div', ['a', 'b'], sig='%s (%s, %s)' % (t, t, t), req=rg, ens=ens, cfg=rs, wname='div_%s' % w))
        out.append(F('safe::can_mul', ['a', 'b'], sig='bool (%s, %s)' % (t, t), req=rg,
                     ens=[('tells whether the product fits', 'result = True <-> ' + fits('(@a * @b)'))], wname='can_mul_%s' % w))
    return out


UNITS = [Unit('safeops', '/verif/drivers/safeops.cc', prelude=PRE, contracts=contracts())]
