"""Contracts (assumed) of the C++ standard library and boost operations the code uses."""
import re
from cast import ExtractError, strip_targs, params
from ctypes_ import strip_ref

NOEFFECT = {'printf', 'fprintf', 'puts', 'fputs', 'dfpair', 'dfrow', 'dfrowhdr', 'dfheader', 'dffooter', 'warn', 'warnx',
            'fflush', 'fputc', 'putchar', 'putc'}


def obj_type(tr, thisnode):
    n = tr.strip(thisnode[0])
    t = strip_ref(tr.ty(n))
    if thisnode[1]:
        if t[0] == 'ptr':
            t = t[1]
    return t


def call(tr, n, name, sq, fd, thisnode, args):
    if name in ('fatal', 'fatalx', 'exit', 'abort', '_exit') and thisnode is None:
        if tr.u.fatal == 'forbidden':
            tr.emit('assert_fail_ ();')
        else:
            tr.emit('fatal_ ();')
        return Val('()', ('void',)), None
    if name in ('__builtin_va_start', '__builtin_va_end') and tr.cur.cfg.get('va'):
        if name.endswith('start'):
            tr.emit('vap := 0;')
        return Val('()', ('void',)), None
    if name == 'sqrt' and thisnode is None and len(args) == 1:
        v = tr.val(args[0])
        tm = tr.term(v)
        t = strip_ref(tr.ty(args[0]))
        return Val('(f_sqrt %s)' % (tm if t[0] == 'real' else '(from_int %s)' % tm), ('real',)), None
    if name == '__assert_fail':
        tr.emit('assert_fail_ ();')
        return Val('()', ('void',)), None
    if name in NOEFFECT and thisnode is None:
        for a in args:
            if tr.effects(a):
                tr.effect(a)
        tr.dropped.add(name)
        t = strip_ref(tr.ty(n))
        return (Val('()', t), None) if t[0] == 'void' else (Val(tr.anyval(t), t), None)
    if thisnode is not None:
        t = obj_type(tr, thisnode)
        if t[0] == 'vec':
            return vec_method(tr, n, name, t, thisnode, args)
        if t[0] == 'map':
            return map_method(tr, n, name, t, thisnode, args)
        if t[0] == 'str' and name == 'operator=':
            lv = tr.this_lv(thisnode)
            tr.write(lv, tr.bind(tr.term(tr.val(args[0]))))
            return Val(tr.read(lv), t), lv
        if t[0] == 'opt':
            return opt_method(tr, n, name, t, thisnode, args)
        if t[0] == 'ptr':
            return sptr_method(tr, n, name, t, thisnode, args)
        if t[0] == 'iter':
            return iter_method(tr, n, name, t, thisnode, args)
        if t[0] == 'pair':
            if name == 'operator=':
                lv = tr.this_lv(thisnode)
                tr.write(lv, tr.bind(tr.term(tr.val(args[0]))))
                return Val(tr.read(lv), t), lv
        if t[0] == 'arr':
            if name in ('operator[]', 'at'):
                lv = tr.this_lv(thisnode)
                i = tr.term(tr.val(args[0]))
                r = tr.index_lv(lv, i)
                return tr.rd(r) if r.root[0] != 'obj' else Val(None, r.t), r
            if name == 'size':
                return Val(str(t[2]), ('int', 64, False)), None
            if name in ('begin', 'end'):
                lv = tr.this_lv(thisnode)
                return Val(None, ('ptr', t[1]), plv=lv, off='0' if name == 'begin' else str(t[2])), None
        return None
    if not (sq.startswith('std::') or sq.startswith('boost::') or sq.startswith('__gnu_cxx') or fd is None or
            tr.ast.body(tr.ast.definition(fd['id'])) is None):
        return None
    b = name
    if b in ('max', 'min') and len(args) == 2:
        va = tr.val(args[0])
        if tr.effects(args[1]):
            tr.freeze(va)
        vb = tr.val(args[1])
        t = strip_ref(tr.ty(n))
        x, y = tr.term(va), tr.term(vb)
        if t[0] == 'real':
            le = '(%s <. %s)' % (x, y) if tr.u.float_mode == 'real' else '(flt %s %s)' % (x, y)
            gt = '(%s <. %s)' % (y, x) if tr.u.float_mode == 'real' else '(flt %s %s)' % (y, x)
        else:
            le, gt = '%s < %s' % (x, y), '%s < %s' % (y, x)
        if b == 'max':
            return Val('(if %s then %s else %s)' % (le, y, x), t), None
        return Val('(if %s then %s else %s)' % (gt, y, x), t), None
    if b in ('abs', 'labs', 'llabs') and len(args) == 1:
        v = tr.val(args[0])
        t = strip_ref(tr.ty(n))
        if t[0] == 'real':
            x = tr.bind(tr.term(v))
            return Val('(if %s <. 0.0 then -. %s else %s)' % (x, x, x), t), None
        x = tr.bind(tr.term(v))
        if tr.u.signed == 'check':
            tr.assert_('%s <> %s' % (x, '(%d)' % -(1 << (t[1] - 1))), 'abs overflow')
        return Val('(if %s < 0 then - %s else %s)' % (x, x, x), t), None
    if b in ('fabs', 'fabsf'):
        x = tr.bind(tr.term(tr.val(args[0])))
        if tr.u.float_mode == 'real':
            return Val('(if %s <. 0.0 then -. %s else %s)' % (x, x, x), ('real',)), None
        return Val('(fabs_ %s)' % x, ('real',)), None
    if b == 'swap' and len(args) == 2:
        la = tr.lval(args[0])
        lb = tr.lval(args[1])
        x = tr.bind(tr.read(la))
        y = tr.bind(tr.read(lb))
        tr.write(la, y)
        tr.write(lb, x)
        return Val('()', ('void',)), None
    if b in ('move', 'forward') and len(args) == 1:
        lv = tr.lval(args[0])
        return tr.rd(lv) if lv.root[0] != 'obj' else Val(lv.root[1], lv.t), lv
    if b == 'make_pair':
        t = strip_ref(tr.ty(n))
        return mk_pair(tr, t, args), None
    if b in ('infinity', 'max', 'min', 'lowest', 'epsilon') and not args:
        t = strip_ref(tr.ty(n))
        if t[0] == 'int':
            lo = -(1 << (t[1] - 1)) if t[2] else 0
            hi = (1 << (t[1] - 1)) - 1 if t[2] else (1 << t[1]) - 1
            if b == 'max':
                return Val(str(hi), t), None
            if b in ('min', 'lowest'):
                return Val('(%d)' % lo if lo < 0 else str(lo), t), None
        if t[0] == 'real':
            nm = {'infinity': 'f_inf', 'max': 'f_max', 'min': 'f_min', 'lowest': 'f_lowest', 'epsilon': 'f_eps'}[b]
            if nm in tr.u.consts:
                nm = tr.u.consts[nm]
            else:
                tr.decl_type('const ' + nm, 'val constant %s : %s' % (nm, tr.wt(t)))
            return Val(nm, t), None
        if t[0] == 'bool':
            return Val('True' if b == 'max' else 'False', t), None
    if b in ('operator==', 'operator!=') and len(args) == 2:
        ta, tb = strip_ref(tr.ty(args[0])), strip_ref(tr.ty(args[1]))
        if ta[0] in ('ptr',) or tb[0] in ('ptr',):
            va = tr.val(args[0])
            vb = tr.val(args[1])
            return tr.binop(b[8:], va, vb, ('bool',)), None
        if ta[0] == 'iter':
            return iter_cmp(tr, b[8:], args), None
        if ta[0] == 'str' and tb[0] == 'str':
            va, vb = tr.bind(tr.term(tr.val(args[0]))), tr.bind(tr.term(tr.val(args[1])))
            return Val(None, ('bool',), prop='(%s %s %s)' % (va, '=' if b == 'operator==' else '<>', vb)), None
        if ta[0] == 'vec':
            va, vb = tr.bind(tr.term(tr.val(args[0]))), tr.bind(tr.term(tr.val(args[1])))
            p = vec_eq(tr, ta, va, vb)
            return Val(None, ('bool',), prop=p if b == 'operator==' else '(not %s)' % p), None
        if ta[0] == 'pair' and ta == tb:
            va, vb = tr.bind(tr.term(tr.val(args[0]))), tr.bind(tr.term(tr.val(args[1])))
            p = '(%s = %s)' % (va, vb)
            return Val(None, ('bool',), prop=p if b == 'operator==' else '(not %s)' % p), None
    if b in ('operator<', 'operator>', 'operator<=', 'operator>=', 'operator-') and len(args) == 2:
        ta = strip_ref(tr.ty(args[0]))
        if ta[0] == 'iter':
            if b == 'operator-':
                va, vb = tr.val(args[0]), tr.val(args[1])
                return tr.binop('-', as_ptr(va), as_ptr(vb), ('int', 64, True)), None
            return iter_cmp(tr, b[8:], args), None
    if b in ('strlen',):
        return None
    if b == 'reverse' and len(args) == 2:
        return None
    if b == 'memset' and len(args) == 3:
        # integer array set to zero bytes
        a = tr.strip(args[0])
        while a['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr') and a.get('castKind') in ('BitCast', 'NoOp'):
            a = tr.strip(a['inner'][-1])
        v = tr.val(a)
        t = strip_ref(v.plv.t) if v.plv is not None else None
        if t is None or t[1][0] != 'int' or t[1][1] % 8 or t[0] not in ('vec', 'arr'):
            raise ExtractError('memset of something else than an array of integers')
        z, nb = tr.bind(tr.term(tr.val(args[1]))), tr.bind(tr.term(tr.val(args[2])))
        off = tr.bind(v.off or '0')
        sz = t[1][1] // 8
        tr.assert_('%s = 0' % z, 'memset to zero')
        k = tr.bind('ED.div %s %d' % (nb, sz))
        tr.assert_('%s = %d * %s' % (nb, sz, k), 'memset of whole elements')
        if t[0] == 'vec':
            l, d = tr.vf(t)
            ln = tr.seltext(tr.read(v.plv, raw=True), ('f', l))
            tr.assert_('0 <= %s /\\ %s + %s <= %s' % (off, off, k, ln), 'memset within the array')
            cur = tr.read(v.plv, raw=True)
            tr.write(v.plv, '{ %s with %s = mfill %s %s (%s + %s) 0 }' % (cur, d, tr.seltext(cur, ('f', d)), off, off, k))
        else:
            if t[2] is None:
                raise ExtractError('memset of an array of unknown size')
            tr.assert_('0 <= %s /\\ %s + %s <= %d' % (off, off, k, t[2]), 'memset within the array')
            tr.write(v.plv, 'mfill %s %s (%s + %s) 0' % (tr.read(v.plv, raw=True), off, off, k))
        return Val('()', ('void',)), None
    if b in ('memset', 'memcpy'):
        return None
    if b == '__builtin_expect':
        return tr.val(args[0]), None
    return None


def as_ptr(v):
    v.t = ('ptr', v.t[1] if len(v.t) > 1 else ('void',))
    return v


def iter_cmp(tr, op, args):
    va, vb = tr.val(args[0]), tr.val(args[1])
    if va.plv is not None and vb.plv is not None:
        return tr.binop(op, as_ptr(va), as_ptr(vb), ('bool',))
    raise ExtractError('iterator comparison')


def iter_method(tr, n, name, t, thisnode, args):
    from tr import LV
    b = tr.strip(thisnode[0])
    while b['kind'] in ('ImplicitCastExpr', 'MaterializeTemporaryExpr'):
        b = tr.strip(b['inner'][-1])
    bd = None
    if b['kind'] == 'DeclRefExpr':
        bd = tr.lookup(b['referencedDecl']['id'])
    if name in ('operator++', 'operator--') and bd is not None and bd[0] == 'ptr':
        old = tr.bind('!' + bd[2])
        tr.emit('%s := it (pure { !%s %s 1 });' % (bd[2], bd[2], name[-1]))
        return Val(None, ('iter', t[1]), plv=bd[1], off=old if args else '!' + bd[2]), None
    if bd is not None and bd[0] == 'ptr':
        v = Val(None, ('iter', t[1]), plv=bd[1], off='!' + bd[2])
    else:
        v = tr.val(thisnode[0])
    if v.plv is None:
        raise ExtractError('iterator value')
    if name == 'operator*':
        lv = tr.index_lv(v.plv, v.off)
        return tr.rd(lv) if lv.root[0] != 'obj' else Val(lv.root[1], lv.t), lv
    if name == 'operator->':
        lv = tr.index_lv(v.plv, v.off)
        if lv.root[0] == 'obj':
            return Val(lv.root[1], ('ptr', lv.t)), None
        return Val(None, ('ptr', lv.t), plv=lv), None
    if name in ('operator+', 'operator-') and len(args) == 1:
        a = tr.term(tr.val(args[0]))
        return Val(None, ('iter', t[1]), plv=v.plv, off='(%s %s %s)' % (v.off, name[-1], a)), None
    if name == 'operator[]':
        a = tr.term(tr.val(args[0]))
        lv = tr.index_lv(v.plv, '(%s + %s)' % (v.off, a))
        return tr.rd(lv), lv
    raise ExtractError('iterator %s' % name)


def vec_eq(tr, t, a, b):
    l, d = tr.vf(t)
    i = tr.tmp('k')
    return '(%s.%s = %s.%s /\\ (forall %s:int. 0 <= %s < %s.%s -> %s.%s[%s] = %s.%s[%s]))' % (
        a, l, b, l, i, i, a, l, a, d, i, b, d, i)


def mk_pair(tr, t, args):
    s = tr.sfx(tr.wt(t[1])) + tr.sfx(tr.wt(t[2]))
    tr.wt(t)
    va = tr.freeze(tr.val(args[0]))
    vb = tr.freeze(tr.val(args[1]))
    ta, tb = elem_conv(tr, tr.term(va), strip_ref(tr.ty(args[0])), t[1]), elem_conv(tr, tr.term(vb), strip_ref(tr.ty(args[1])), t[2])
    return Val('{ fst_%s = %s; snd_%s = %s }' % (s, ta, s, tb), t)


def elem_conv(tr, term, src, dst):
    """the conversion a templated constructor of std::pair makes of an element"""
    if src == dst or dst[0] != 'int':
        return term
    if src[0] == 'bool':
        return '(if %s = True then 1 else 0)' % term
    if src[0] != 'int':
        return term
    return tr.conv_int(term, src, dst)


def vmax(tr):
    return tr.u.vmax or 2305843009213693952


def setlen(tr, lv, t, newlen):
    l, d = tr.vf(t)
    cur = tr.read(lv)
    tr.write(lv, '{ %s with %s = %s }' % (cur, l, newlen))


def grow_limit(tr, term):
    tr.assum.add('a container never holds more than %d elements (an allocation beyond that fails instead)' % vmax(tr))
    tr.emit('assume { %s <= %d };' % (term, vmax(tr)))


def append(tr, t, lv, cur, src, a, b):
    """lv := cur followed by src[a..b)"""
    l, d = tr.vf(t)
    w = tr.wt(t)
    s = tr.sfx(tr.wt(t[1]))
    fn = 'vappend_' + s
    tr.decl_type(fn, '''val %s (v : %s) (u : %s) (a b : int) : %s
  requires { [@expl:range inserted is inside its container] 0 <= a <= b <= u.%s }
  ensures { result.%s = v.%s + (b - a) }
  ensures { forall i:int [result.%s[i]]. 0 <= i < v.%s -> result.%s[i] = v.%s[i] }
  ensures { forall i:int [result.%s[i]]. v.%s <= i < v.%s + (b - a) -> result.%s[i] = u.%s[a + (i - v.%s)] }''' % (
        fn, w, w, w, l, l, l, d, l, d, d, d, l, l, d, d, l))
    x = tr.tmp('ap')
    tr.emit('let %s = %s %s %s %s %s in' % (x, fn, cur, src, a, b))
    tr.frozen.add(x)
    grow_limit(tr, '%s.%s' % (x, l))
    tr.write(lv, x)


def cstring(tr, n):
    """(bound contents, start, end) of a string argument: a string or a NUL-terminated character array"""
    t = strip_ref(tr.ty(n))
    if t[0] == 'vec' and t[2] == 'string':
        v = tr.bind(tr.term(tr.val(n)))
        l, d = tr.vf(t)
        return v, '0', tr.bind('%s.%s' % (v, l))
    v = tr.val(n)
    if v.plv is None:
        raise ExtractError('C string')
    st = strip_ref(v.plv.t)
    src = tr.bind(tr.read(v.plv))
    if st[0] == 'arr' and st[2] is not None:
        st, n = ('vec', st[1], 'string'), st[2]
        l, d = tr.vf(st)
        src = tr.bind('{ %s = %s; %s = %s }' % (l, n, d, src))
    l, d = tr.vf(st)
    w = tr.wt(st)
    fn = 'cstrend_' + tr.sfx(w)
    tr.decl_type(fn, '''val %s (u : %s) (a : int) : int
  requires { [@expl:NUL-terminated] 0 <= a /\\ exists n:int. a <= n < u.%s /\\ u.%s[n] = 0 }
  ensures { a <= result < u.%s /\\ u.%s[result] = 0 }
  ensures { forall i:int [u.%s[i]]. a <= i < result -> u.%s[i] <> 0 }''' % (fn, w, l, d, l, d, d, d))
    a = tr.bind(v.off or '0')
    x = tr.tmp('se')
    tr.emit('let %s = %s %s %s in' % (x, fn, src, a))
    tr.frozen.add(x)
    return src, a, x


def vec_method(tr, n, name, t, thisnode, args):
    from tr import LV
    l, d = tr.vf(t)
    if t[2] == 'stack' and name in ('push', 'pop', 'top'):
        name = {'push': 'push_back', 'pop': 'pop_back', 'top': 'back'}[name]
    if name in ('size', 'length'):
        lv = tr.this_lv(thisnode)
        x = tr.bind(tr.seltext(tr.read(lv), ('f', l)))
        tr.emit('assume { 0 <= %s <= %d };' % (x, vmax(tr)))
        return Val(x, ('int', 64, False)), None
    if name == 'empty':
        lv = tr.this_lv(thisnode)
        return Val(None, ('bool',), prop='(%s = 0)' % tr.seltext(tr.read(lv), ('f', l))), None
    if name in ('operator[]', 'at'):
        lv = tr.this_lv(thisnode)
        i = tr.term(tr.val(args[0]))
        lv2 = tr.index_lv(lv, i)
        return elem(tr, lv2)
    if name in ('back', 'front'):
        lv = tr.this_lv(thisnode)
        ln = tr.seltext(tr.read(lv), ('f', l))
        i = tr.bind('(%s - 1)' % ln) if name == 'back' else '0'
        lv2 = tr.index_lv(lv, i)
        return elem(tr, lv2)
    if name in ('push_back', 'emplace_back') and (len(args) == 1 or name == 'emplace_back'):
        lv = tr.this_lv(thisnode)
        et = t[1]
        if et[0] == 'rec' and tr.heap_mode(et[1]) is not None:
            if not tr.u.copyval or len(args) != 1:
                raise ExtractError('vector of heap objects by value')
            # a copy of a one-field object is that field's value
            fs = tr.heap_fields(et[1])
            if len(fs) != 1:
                raise ExtractError('vector of heap objects by value')
            src = tr.lval(args[0])
            x = tr.bind('(!%s)[%s]' % (fs[0][1], src.root[1]))
        elif len(args) == 1:
            v = tr.val(args[0])
            x = tr.bind(tr.term(v))
        else:
            raise ExtractError('emplace_back')
        cur = tr.read(lv)
        ln = tr.bind(tr.seltext(cur, ('f', l)))
        tr.emit('assume { 0 <= %s };' % ln)
        grow_limit(tr, '%s + 1' % ln)
        tr.write(lv, '{ %s = %s + 1; %s = (%s)[%s <- %s] }' % (l, ln, d, tr.seltext(cur, ('f', d)), ln, x))
        return Val('()', ('void',)), None
    if name == 'pop_back':
        lv = tr.this_lv(thisnode)
        cur = tr.read(lv)
        ln = tr.bind(tr.seltext(cur, ('f', l)))
        tr.assert_('%s > 0' % ln, 'pop_back on a non-empty container')
        setlen(tr, lv, t, '%s - 1' % ln)
        return Val('()', ('void',)), None
    if name == 'clear':
        lv = tr.this_lv(thisnode)
        setlen(tr, lv, t, '0')
        return Val('()', ('void',)), None
    if name in ('reserve', 'shrink_to_fit'):
        for a in args:
            if tr.effects(a):
                tr.effect(a)
        return Val('()', ('void',)), None
    if name == 'capacity':
        lv = tr.this_lv(thisnode)
        x = tr.anyval(('int', 64, False))
        return Val(x, ('int', 64, False)), None
    if name == 'resize':
        lv = tr.this_lv(thisnode)
        m = tr.bind(tr.term(tr.val(args[0])))
        dv = None
        if len(args) > 1 and tr.strip(args[1])['kind'] != 'CXXDefaultArgExpr':
            dv = tr.bind(tr.term(tr.val(args[1])))
        else:
            dv = tr.default(t[1])
            if dv is None:
                try:
                    dv = tr.bind(tr.term(tr.valueinit(t[1])))
                except ExtractError:
                    dv = None
        cur = tr.bind(tr.read(lv))
        grow_limit(tr, m)
        w = tr.wt(t)
        s = tr.sfx(tr.wt(t[1]))
        fn = 'vresize_' + s
        if dv is not None:
            tr.decl_type(fn, '''val %s (v : %s) (n : int) (x : %s) : %s
  ensures { result.%s = n }
  ensures { forall i:int [result.%s[i]]. 0 <= i < v.%s /\\ i < n -> result.%s[i] = v.%s[i] }
  ensures { forall i:int [result.%s[i]]. v.%s <= i < n -> result.%s[i] = x }''' % (
                fn, w, tr.wt(t[1]), w, l, d, l, d, d, d, l, d))
            x = tr.tmp('rs')
            tr.emit('let %s = %s %s (it (pure { %s })) (it (pure { %s })) in' % (x, fn, cur, m, dv))
        else:
            fn += 'u'
            tr.decl_type(fn, '''val %s (v : %s) (n : int) : %s
  ensures { result.%s = n }
  ensures { forall i:int [result.%s[i]]. 0 <= i < v.%s /\\ i < n -> result.%s[i] = v.%s[i] }''' % (
                fn, w, w, l, d, l, d, d))
            x = tr.tmp('rs')
            tr.emit('let %s = %s %s (it (pure { %s })) in' % (x, fn, cur, m))
        tr.frozen.add(x)
        tr.write(lv, x)
        return Val('()', ('void',)), None
    if name in ('assign',) and len(args) == 2 and strip_ref(tr.ty(args[0]))[0] == 'int':
        lv = tr.this_lv(thisnode)
        m = tr.bind(tr.term(tr.val(args[0])))
        xv = tr.bind(tr.term(tr.val(args[1])))
        v = fill_vec(tr, t, m, xv)
        tr.write(lv, v)
        return Val('()', ('void',)), None
    if name in ('begin', 'end', 'cbegin', 'cend'):
        lv = tr.this_lv(thisnode)
        off = '0' if 'begin' in name else tr.seltext(tr.read(lv), ('f', l))
        return Val(None, ('iter', t[1]), plv=lv, off=off), None
    if name == 'insert' and len(args) == 3:
        lv = tr.this_lv(thisnode)
        vp, va, vb = tr.val(args[0]), tr.val(args[1]), tr.val(args[2])
        from tr import lvkey
        if vp.plv is None or lvkey(vp.plv) != lvkey(lv) or va.plv is None or vb.plv is None or lvkey(va.plv) != lvkey(vb.plv):
            raise ExtractError('insert')
        pos = tr.bind(vp.off)
        a, b = tr.bind(va.off), tr.bind(vb.off)
        src = tr.bind(tr.read(va.plv))
        cur = tr.bind(tr.read(lv))
        tr.assert_('%s = %s.%s' % (pos, cur, l), 'insert at the end')
        append(tr, t, lv, cur, src, a, b)
        return Val('()', ('void',)), None
    if name == 'push_front' or name == 'pop_front':
        lv = tr.this_lv(thisnode)
        cur = tr.bind(tr.read(lv))
        w = tr.wt(t)
        s = tr.sfx(tr.wt(t[1]))
        if name == 'push_front':
            v = tr.bind(tr.term(tr.val(args[0])))
            fn = 'vpushf_' + s
            tr.decl_type(fn, '''val %s (v : %s) (x : %s) : %s
  ensures { result.%s = v.%s + 1 /\\ result.%s[0] = x }
  ensures { forall i:int [result.%s[i]]. 0 < i <= v.%s -> result.%s[i] = v.%s[i-1] }
  ensures { forall i:int [v.%s[i]]. 0 <= i < v.%s -> result.%s[i+1] = v.%s[i] }''' % (
                fn, w, tr.wt(t[1]), w, l, l, d, d, l, d, d, d, l, d, d))
            x = tr.tmp('pf')
            tr.emit('let %s = %s %s %s in' % (x, fn, cur, v))
            grow_limit(tr, '%s.%s' % (x, l))
        else:
            tr.assert_('%s.%s > 0' % (cur, l), 'pop_front on a non-empty container')
            fn = 'vpopf_' + s
            tr.decl_type(fn, '''val %s (v : %s) : %s
  ensures { result.%s = v.%s - 1 }
  ensures { forall i:int [result.%s[i]]. 0 <= i < v.%s - 1 -> result.%s[i] = v.%s[i+1] }
  ensures { forall i:int [v.%s[i]]. 0 < i < v.%s -> result.%s[i-1] = v.%s[i] }''' % (
                fn, w, w, l, l, d, l, d, d, d, l, d, d))
            x = tr.tmp('pf')
            tr.emit('let %s = %s %s in' % (x, fn, cur))
        tr.frozen.add(x)
        tr.write(lv, x)
        return Val('()', ('void',)), None
    if name == 'erase' and len(args) == 1:
        lv = tr.this_lv(thisnode)
        from tr import lvkey
        v = tr.val(args[0])
        if v.plv is None or lvkey(v.plv) != lvkey(lv):
            raise ExtractError('erase')
        pos = tr.bind(v.off)
        cur = tr.bind(tr.read(lv))
        w = tr.wt(t)
        fn = 'verase_' + tr.sfx(tr.wt(t[1]))
        tr.assert_('0 <= %s < %s.%s' % (pos, cur, l), 'erase of an element')
        tr.decl_type(fn, '''val %s (v : %s) (p : int) : %s
  ensures { result.%s = v.%s - 1 }
  ensures { forall i:int [result.%s[i]]. 0 <= i < p -> result.%s[i] = v.%s[i] }
  ensures { forall i:int [result.%s[i]]. p <= i < v.%s - 1 -> result.%s[i] = v.%s[i+1] }
  ensures { forall i:int [v.%s[i]]. 0 <= i < p -> result.%s[i] = v.%s[i] }
  ensures { forall i:int [v.%s[i]]. p < i < v.%s -> result.%s[i-1] = v.%s[i] }''' % (
            fn, w, w, l, l, d, d, d, d, l, d, d, d, d, d, d, l, d, d))
        x = tr.tmp('er')
        tr.emit('let %s = %s %s %s in' % (x, fn, cur, pos))
        tr.frozen.add(x)
        tr.write(lv, x)
        return Val(None, ('iter', t[1]), plv=lv, off=pos), None
    if name == 'operator=':
        lv = tr.this_lv(thisnode)
        v = tr.val(args[0])
        if v.plv is not None:
            raise ExtractError('string assignment from char*')
        tr.write(lv, tr.bind(tr.term(v)))
        return Val(tr.read(lv), t), lv
    if name == 'operator+=' and len(args) == 1 and strip_ref(tr.ty(args[0]))[0] == 'int':
        lv = tr.this_lv(thisnode)
        x = tr.bind(tr.term(tr.val(args[0])))
        cur = tr.read(lv)
        ln = tr.bind(tr.seltext(cur, ('f', l)))
        tr.emit('assume { 0 <= %s };' % ln)
        grow_limit(tr, '%s + 1' % ln)
        tr.write(lv, '{ %s = %s + 1; %s = (%s)[%s <- %s] }' % (l, ln, d, tr.seltext(cur, ('f', d)), ln, x))
        return Val(tr.read(lv), t), lv
    if name in ('append', 'operator+=') and len(args) == 1:
        lv = tr.this_lv(thisnode)
        src, a, b = cstring(tr, args[0])
        append(tr, t, lv, tr.bind(tr.read(lv)), src, a, b)
        return Val(tr.read(lv), t), lv
    if name == 'swap' and len(args) == 1:
        la = tr.this_lv(thisnode)
        lb = tr.lval(args[0])
        x, y = tr.bind(tr.read(la)), tr.bind(tr.read(lb))
        tr.write(la, y)
        tr.write(lb, x)
        return Val('()', ('void',)), None
    if name in ('data', 'c_str'):
        lv = tr.this_lv(thisnode)
        return Val(None, ('ptr', t[1]), plv=lv, off='0'), None
    raise ExtractError('container method %s' % name)


def map_key(tr, n):
    """strings and numbers used as keys are numbered from 0; -1 is the end position"""
    v = tr.bind(tr.term(tr.val(n)))
    if strip_ref(tr.ty(n))[0] != 'str':
        raise ExtractError('map with keys that are not strings')
    tr.emit('assume { 0 <= %s };' % v)
    return v


def map_method(tr, n, name, t, thisnode, args):
    """std::map: the keys present and the value of each"""
    s = tr.sfx(tr.wt(t[2]))
    tr.wt(t)
    has, val = 'mhas_' + s, 'mval_' + s
    lv = tr.this_lv(thisnode)
    it = ('iter', ('mapent', t[1], t[2]))

    def put(cur, h, v):
        tr.write(lv, '{ %s = %s; %s = %s }' % (has, h, val, v))
    if name in ('end', 'cend'):
        return Val(None, it, plv=lv, off='(-1)'), None
    if name == 'find':
        k = map_key(tr, args[0])
        o = tr.bind('(if (%s)[%s] then %s else -1)' % (tr.seltext(tr.read(lv), ('f', has)), k, k))
        return Val(None, it, plv=lv, off=o), None
    if name == 'count':
        k = map_key(tr, args[0])
        return Val(tr.bind('(if (%s)[%s] then 1 else 0)' % (tr.seltext(tr.read(lv), ('f', has)), k)), ('int', 64, False)), None
    if name in ('operator[]', 'at'):
        k = map_key(tr, args[0])
        cur = tr.bind(tr.read(lv))
        if name == 'at':
            tr.assert_('%s.%s[%s] = True' % (cur, has, k), 'key present')
        else:
            put(cur, '%s.%s[%s <- True]' % (cur, has, k), '(if %s.%s[%s] then %s.%s else %s.%s[%s <- %s])' % (
                cur, has, k, cur, val, cur, val, k, tr.default(t[2])))
        lv2 = lv.sel(('vi', k, val), t[2])
        return tr.rd(lv2), lv2
    if name == 'erase' and len(args) == 1:
        from tr import lvkey
        a = strip_ref(tr.ty(args[0]))
        cur = None
        if a[0] == 'iter':
            v = tr.val(args[0])
            if v.plv is None or lvkey(v.plv) != lvkey(lv):
                raise ExtractError('erase')
            k = tr.bind(v.off)
            cur = tr.bind(tr.read(lv))
            tr.assert_('0 <= %s /\\ %s.%s[%s] = True' % (k, cur, has, k), 'erase of an entry')
            put(cur, '%s.%s[%s <- False]' % (cur, has, k), '%s.%s' % (cur, val))
            return Val('()', ('void',)), None
        k = map_key(tr, args[0])
        cur = tr.bind(tr.read(lv))
        r = tr.bind('(if %s.%s[%s] then 1 else 0)' % (cur, has, k))
        put(cur, '%s.%s[%s <- False]' % (cur, has, k), '%s.%s' % (cur, val))
        return Val(r, ('int', 64, False)), None
    if name == 'clear':
        tr.write(lv, tr.bind(tr.default(t)))
        return Val('()', ('void',)), None
    if name == 'operator=':
        v = tr.val(args[0])
        tr.write(lv, tr.bind(tr.term(v)))
        return Val(tr.read(lv), t), lv
    raise ExtractError('map %s' % name)


def elem(tr, lv):
    t = strip_ref(lv.t)
    if t[0] == 'rec' and tr.heap_mode(t[1]) is not None:
        # heap-mode object stored by value in a container: the stored int is its address
        a = tr.bind(tr.read(lv))
        o = LV(('obj', a), [], t)
        return Val(a, t), o
    # the caller reads through the lvalue when it needs the value (range facts included)
    return Val(tr.read(lv), t, path=lv), lv


def opt_method(tr, n, name, t, thisnode, args):
    s = tr.sfx(tr.wt(t[1]))
    tr.wt(t)
    lv = tr.this_lv(thisnode)
    has, val = 'has_' + s, 'val_' + s
    if name in ('operator*', 'get', 'operator->', 'value'):
        tr.assert_('%s = True' % tr.seltext(tr.read(lv), ('f', has)), 'optional has a value')
        lv2 = lv.sel(('f', val), t[1])
        if name == 'operator->':
            return Val(None, ('ptr', t[1]), plv=lv2), None
        return tr.rd(lv2), lv2
    if name in ('operator bool', 'is_initialized', 'has_value', 'operator!') or 'operator ' in name:
        p = '(%s = True)' % tr.seltext(tr.read(lv), ('f', has))
        if name == 'operator!':
            p = '(not %s)' % p
        return Val(None, ('bool',), prop=p), None
    if name == 'operator=':
        v = tr.val(args[0])
        vt = strip_ref(v.t)
        if vt == t:
            tr.write(lv, tr.bind(tr.term(v)))
        else:
            tr.write(lv, '{ %s = True; %s = %s }' % (has, val, tr.bind(tr.term(v))))
        return Val(tr.read(lv), t), lv
    raise ExtractError('optional %s' % name)


def sptr_method(tr, n, name, t, thisnode, args):
    if name in ('operator*',):
        v = tr.val(thisnode[0])
        lv = tr.deref(v)
        return tr.rd(lv) if lv.root[0] != 'obj' else Val(lv.root[1], lv.t), lv
    if name in ('operator->', 'get'):
        v = tr.val(thisnode[0])
        return v, None
    if name == 'operator bool':
        v = tr.val(thisnode[0])
        return Val(None, ('bool',), prop=tr.prop(v)), None
    if name == 'operator=':
        lv = tr.this_lv(thisnode)
        v = tr.val(args[0])
        tr.write(lv, tr.bind(tr.term(v)))
        return Val(tr.read(lv), t), lv
    if name == 'reset' and not args:
        lv = tr.this_lv(thisnode)
        tr.write(lv, '0')
        return Val('()', ('void',)), None
    raise ExtractError('smart pointer %s' % name)


def fill_vec(tr, t, m, xv):
    l, d = tr.vf(t)
    w = tr.wt(t)
    s = tr.sfx(tr.wt(t[1]))
    fn = 'vfill_' + s
    tr.decl_type(fn, '''val %s (n : int) (x : %s) : %s
  ensures { result.%s = n }
  ensures { forall i:int [result.%s[i]]. 0 <= i < n -> result.%s[i] = x }''' % (fn, tr.wt(t[1]), w, l, d, d))
    x = tr.tmp('vf')
    tr.emit('let %s = %s (it (pure { %s })) (it (pure { %s })) in' % (x, fn, m, xv))
    tr.frozen.add(x)
    grow_limit(tr, m)
    return x


def construct(tr, n, t, args):
    """value of a constructed std object"""
    args = [a for a in args if tr.strip(a)['kind'] != 'CXXDefaultArgExpr']
    if t[0] == 'vec':
        if not args:
            return Val(tr.default(t), t)
        a0 = strip_ref(tr.ty(args[0]))
        if a0[0] == 'vec' and len(args) == 1:
            v = tr.val(args[0])
            return Val(tr.term(v), t)
        if a0[0] == 'int' and len(args) in (1, 2):
            m = tr.bind(tr.term(tr.val(args[0])))
            if len(args) == 2:
                xv = tr.bind(tr.term(tr.val(args[1])))
            else:
                xv = tr.bind(tr.term(tr.valueinit(t[1])))
            return Val(fill_vec(tr, t, m, xv), t)
        if len(args) == 2 and a0[0] in ('iter', 'ptr'):
            va, vb = tr.val(args[0]), tr.val(args[1])
            from tr import lvkey
            if va.plv is not None and vb.plv is not None and lvkey(va.plv) == lvkey(vb.plv) and va.off == '0':
                src = strip_ref(va.plv.t)
                if src[0] == 'vec' and tr.wt(src) == tr.wt(t):
                    l, d = tr.vf(src)
                    cur = tr.read(va.plv)
                    if vb.off == tr.seltext(cur, ('f', l)):
                        return Val(tr.bind(cur), t)
        if len(args) == 1 and tr.strip(args[0])['kind'] in ('ImplicitCastExpr', 'StringLiteral') and t[2] == 'string':
            s = tr.strip(args[0])
            while s['kind'] == 'ImplicitCastExpr':
                s = tr.strip(s['inner'][-1])
            if s['kind'] == 'StringLiteral':
                lv = tr.strlit(s)
                l, d = tr.vf(t)
                x = tr.bind(lv.root[1])
                return Val('{ %s with len = %s.len - 1 }' % (x, x), t)
        raise ExtractError('container constructor')
    if t[0] in ('str', 'map'):
        if not args:
            return Val(tr.default(t), t)
        if len(args) == 1 and strip_ref(tr.ty(args[0])) == t:
            return Val(tr.term(tr.val(args[0])), t)
        if t[0] == 'str':
            for a in args:
                if tr.effects(a):
                    tr.effect(a)
            return Val(tr.anyval(t), t)
        raise ExtractError('map constructor')
    if t[0] == 'opt':
        s = tr.sfx(tr.wt(t[1]))
        tr.wt(t)
        if not args:
            return Val('{ has_%s = False; val_%s = %s }' % (s, s, tr.anyconst(tr.wt(t[1]))), t)
        a0 = strip_ref(tr.ty(args[0]))
        if a0 == t or a0[0] == 'opt':
            return Val(tr.term(tr.val(args[0])), t)
        if 'none_t' in str(a0):
            return Val('{ has_%s = False; val_%s = %s }' % (s, s, tr.anyconst(tr.wt(t[1]))), t)
        v = tr.val(args[0])
        return Val('{ has_%s = True; val_%s = %s }' % (s, s, tr.term(v)), t)
    if t[0] == 'pair':
        if not args:
            return tr.valueinit(t)
        if len(args) == 1:
            src = strip_ref(tr.ty(args[0]))
            tm = tr.term(tr.val(args[0]))
            if src[0] == 'pair' and src != t:
                tm = tr.bind(tm)
                a, b = (tr.sfx(tr.wt(x[1])) + tr.sfx(tr.wt(x[2])) for x in (src, t))
                tr.wt(t)
                tm = '{ fst_%s = %s; snd_%s = %s }' % (b, elem_conv(tr, '%s.fst_%s' % (tm, a), src[1], t[1]), b, elem_conv(tr, '%s.snd_%s' % (tm, a), src[2], t[2]))
            return Val(tm, t)
        return mk_pair(tr, t, args)
    if t[0] in ('ptr', 'iter'):
        if not args:
            return Val('0', t)
        v = tr.val(args[0])
        return Val(v.term, t, plv=v.plv, off=v.off)
    if t[0] == 'opaque':
        return Val(tr.anyval(t), t)
    return None


from tr import Val, LV  # noqa: E402
