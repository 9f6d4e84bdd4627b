"""C++ type strings -> small type terms."""
import re
from cast import norm, ExtractError

# type terms: tuples
#  ('int',bits,signed) ('bool',) ('real',) ('void',) ('ptr',T) ('ref',T,const) ('vec',T,kind) ('arr',T,n)
#  ('rec',qualname) ('opt',T) ('pair',A,B) ('iter',T) ('fn',) ('null',) ('opaque',name)

INTS = {
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False),
    'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
    'long int': (64, True), 'long unsigned int': (64, False),
    'wchar_t': (32, True), 'char16_t': (16, False), 'char32_t': (32, False),
    'int8_t': (8, True), 'uint8_t': (8, False), 'int16_t': (16, True), 'uint16_t': (16, False),
    'int32_t': (32, True), 'uint32_t': (32, False), 'int64_t': (64, True), 'uint64_t': (64, False),
    'size_t': (64, False), 'std::size_t': (64, False), 'ssize_t': (64, True), 'ptrdiff_t': (64, True),
    'std::ptrdiff_t': (64, True), 'uintptr_t': (64, False), 'intptr_t': (64, True),
    'size_type': (64, False), 'difference_type': (64, True), 'time_t': (64, True),
    '__int128': (128, True), 'unsigned __int128': (128, False),
}


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur:
        out.append(cur)
    return out


class Types:
    def __init__(self, ast, absstr=False):
        self.ast = ast
        self.cache = {}
        self.absstr = absstr      # std::string as an abstract value that is only copied and compared

    def parse(self, s, ctx=None):
        k = (s, ctx)
        if k not in self.cache:
            self.cache[k] = self._parse(norm(self.ast.anon_name(s)), ctx)
        return self.cache[k]

    def of(self, n, ctx=None):
        t = n['type']
        d = t.get('desugaredQualType')
        if d is not None:
            r = self.parse(d, ctx)
            if not _has_opaque(r):
                return r
            r2 = self.parse(t['qualType'], ctx)
            return r2 if not _has_opaque(r2) else r
        return self.parse(t['qualType'], ctx)

    def _parse(self, s, ctx):
        s = s.strip()
        # references / pointers / arrays at the end
        if s.endswith('&&'):
            return ('ref', self.parse(s[:-2], ctx), False)
        if s.endswith('&'):
            b = s[:-1].strip()
            const = b.startswith('const ') or b.endswith(' const') or b.endswith('*const')
            return ('ref', self.parse(b, ctx), const)
        m = re.match(r'^(.*)\*\s*(const|__restrict|volatile)?$', s)
        if m and not s.endswith(')'):
            return ('ptr', self.parse(m.group(1), ctx))
        if s.endswith(']'):
            # outermost dimension first:  T[a][b]
            i = s.index('[', _after_targs(s))
            j = s.index(']', i)
            n = s[i + 1:j]
            base = s[:i]
            rest = s[j + 1:]
            if base.endswith('(*)') or base.endswith('(&)'):
                inner = self.parse(base[:-3] + s[i:], ctx)
                return ('ptr', inner) if base.endswith('(*)') else ('ref', inner, False)
            try:
                nn = int(n) if n else None
            except ValueError:
                nn = None
            return ('arr', self.parse(base + rest, ctx), nn)
        if s.endswith(')') or s.endswith(') const') or s.endswith('noexcept'):
            return ('fn',)
        s = re.sub(r'\bconst\b|\bvolatile\b', ' ', s)
        s = re.sub(r'\s+', ' ', s).strip()
        s = re.sub(r'\s*([<>,*&()\[\]:])\s*', r'\1', s)
        if s in INTS:
            return ('int',) + INTS[s]
        if s in ('bool', '_Bool'):
            return ('bool',)
        if s in ('float', 'double', 'long double'):
            return ('real',)
        if s == 'void':
            return ('void',)
        if s == 'std::nullptr_t':
            return ('ptr', ('void',))
        m = re.match(r'^(std::)?(__cxx11::)?(basic_)?string(<.*>)?$', s)
        if m:
            if self.absstr:
                return ('str',)
            return ('vec', ('int', 8, True), 'string')
        m = re.match(r'^(?:std::)?map<(.*)>$', s)
        if m:
            a = split_args(m.group(1))
            return ('map', self.parse(a[0], ctx), self.parse(a[1], ctx))
        m = re.match(r'^(?:std::)?_Rb_tree_(?:const_)?iterator<(.*)>$', s)
        if m:
            q = self.parse(m.group(1), ctx)
            if q[0] == 'pair':
                return ('iter', ('mapent', q[1], q[2]))
        m = re.match(r'^(?:std::)?(?:__cxx11::)?(vector|deque|list|stack|initializer_list)<(.*)>$', s)
        if m:
            return ('vec', self.parse(split_args(m.group(2))[0], ctx), m.group(1))
        m = re.match(r'^(?:std::|boost::)?array<(.*)>$', s)
        if m:
            a = split_args(m.group(1))
            return ('arr', self.parse(a[0], ctx), int(a[1]) if a[1].isdigit() else None)
        m = re.match(r'^(?:boost::)?optional<(.*)>$', s)
        if m:
            return ('opt', self.parse(split_args(m.group(1))[0], ctx))
        m = re.match(r'^(?:std::)?pair<(.*)>$', s)
        if m:
            a = split_args(m.group(1))
            return ('pair', self.parse(a[0], ctx), self.parse(a[1], ctx))
        m = re.match(r'^(?:std::|boost::)?(?:shared_ptr|unique_ptr)<(.*)>$', s)
        if m:
            return ('ptr', self.parse(split_args(m.group(1))[0], ctx))
        m = re.match(r'^(?:__gnu_cxx::)?__normal_iterator<(.*)>$', s)
        if m:
            p = self.parse(split_args(m.group(1))[0], ctx)
            return ('iter', p[1])
        m = re.match(r'^(.*)::(const_)?iterator$', s)
        if m:
            v = self.parse(m.group(1), ctx)
            if v[0] == 'vec':
                return ('iter', v[1])
            if v[0] == 'map':
                return ('iter', ('mapent', v[1], v[2]))
        m = re.match(r'^std::_Deque_iterator<(.*)>$', s)
        if m:
            return ('iter', self.parse(split_args(m.group(1))[0], ctx))
        m = re.match(r'^(.*)::(value_type|const_reference|reference|size_type)$', s)
        if m:
            if m.group(2) == 'size_type':
                return ('int', 64, False)
            v = self.parse(m.group(1), ctx)
            if v[0] in ('vec', 'arr'):
                return v[1]
        # enums
        e = self._lookup(self.ast.enums, s, ctx)
        if e is not None:
            ft = e.get('fixedUnderlyingType')
            if ft:
                return self.parse(ft.get('desugaredQualType') or ft['qualType'], ctx)
            return ('int', 32, False) if False else ('int', 32, True)
        if '(unnamed enum' in s or '(anonymous enum' in s or s.startswith('(unnamedenum') or 'unnamed at' in s or 'unnamedat' in s:
            return ('int', 32, True)
        r = self.ast.record_of(s, ctx)
        if r is not None:
            return ('rec', self.ast.qualname(r['id']))
        td = self._lookup(self.ast.typedefs, s, ctx)
        if td is not None:
            t = td['type']
            q = self.ast.parent.get(td['id'])
            c2 = self.ast.qualname(q) if q else None
            u = t.get('desugaredQualType') or t['qualType']
            if norm(u) != s:
                return self.parse(u, c2)
        return ('opaque', s)

    def _lookup(self, table, t, ctx):
        if t in table:
            return table[t]
        q = ctx
        while q:
            for b in [q] + self.ast._basenames(q):
                k = b + '::' + t
                if k in table:
                    return table[k]
            q = q.rsplit('::', 1)[0] if '::' in q else None
        return None


def _has_opaque(t):
    if t[0] == 'opaque':
        return True
    return any(isinstance(x, tuple) and _has_opaque(x) for x in t[1:])


def _after_targs(s):
    d = 0
    last = 0
    for i, c in enumerate(s):
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
            if d == 0:
                last = i + 1
    return last


def strip_ref(t):
    while t[0] == 'ref':
        t = t[1]
    return t
