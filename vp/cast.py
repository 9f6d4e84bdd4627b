"""Load a C++ translation unit of /repo through clang's JSON AST and index it."""
import json, os, re, subprocess, hashlib, sys

CXX = 'clang++'
STD = ['-std=c++11', '-include', 'cstdint', '-include', 'algorithm', '-w']


class ExtractError(Exception):
    """The source could not be brought into the verifier (tool limit, never a violation)."""


FUNC = {'FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'}
REC = {'CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'}
SCOPE = REC | {'NamespaceDecl', 'EnumDecl'}


def norm(s):
    s = re.sub(r'\b(struct|class|enum|typename|union)\b', ' ', s)
    s = re.sub(r'\s+', ' ', s).strip()
    s = re.sub(r'\s*([<>,*&()\[\]:])\s*', r'\1', s)
    return s


class AST:
    def __init__(self, src, flags=()):
        cmd = [CXX] + STD + list(flags) + ['-fsyntax-only', '-Xclang', '-ast-dump=json', src]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.stderr = p.stderr.decode(errors='replace')
        if p.returncode != 0:
            raise ExtractError('clang failed on %s:\n%s' % (src, self.stderr[-3000:]))
        self.root = json.loads(p.stdout)
        self.decls = {}
        self.canon = {}
        self.parent = {}
        self._index()

    def _index(self):
        stack = [(self.root, None)]
        order = []
        while stack:
            n, sc = stack.pop()
            k = n.get('kind', '')
            i = n.get('id')
            nsc = sc
            if i and k.endswith('Decl'):
                if i not in self.decls or 'inner' in n or 'inner' not in self.decls[i]:
                    if i in self.decls and 'inner' in self.decls[i] and 'inner' not in n:
                        pass
                    else:
                        self.decls[i] = n
                        if i not in self.parent or 'inner' in n:
                            self.parent.setdefault(i, sc)
                        order.append(n)
                if k in SCOPE or k in FUNC:
                    nsc = i
            inner = n.get('inner')
            if inner:
                for c in reversed(inner):
                    if c:
                        stack.append((c, nsc))
        for n in order:
            p = n.get('parentDeclContextId')
            if p and p in self.decls:
                self.parent[n['id']] = p
        # canonical decl / definition
        self.redecl = {}
        for n in order:
            i = n['id']
            c = i
            seen = set()
            while self.decls.get(c, {}).get('previousDecl') and c not in seen:
                seen.add(c)
                c = self.decls[c]['previousDecl']
            self.canon[i] = c
            self.redecl.setdefault(c, []).append(i)
        # out-of-line definitions inherit the semantic parent of the first declaration
        for n in order:
            c = self.canon[n['id']]
            if n['kind'] in FUNC and c != n['id'] and c in self.parent:
                self.parent[n['id']] = self.parent[c]
        # records without a name are called after the member declared with them
        self.anon = {}
        for n in order:
            if n['kind'] not in REC:
                continue
            last = None
            for c in n.get('inner', ()):
                if c.get('kind') in REC and not c.get('name') and not c.get('isImplicit'):
                    last = c
                elif c.get('kind') == 'FieldDecl' and last is not None:
                    m = re.search(r'\(unnamed[^()]*? at ([^()]*)\)', c['type']['qualType'])
                    if m and not last.get('name'):
                        last['name'] = 'anon_' + c.get('name', '')
                        if last['id'] in self.decls:
                            self.decls[last['id']]['name'] = last['name']
                        self.anon[m.group(1)] = last['id']
        self.qn = {}
        self.records = {}
        self.funcs = {}
        self.typedefs = {}
        self.enums = {}
        self.vars = {}
        for n in order:
            k = n['kind']
            if k in REC and n.get('name') and 'inner' in n and n.get('completeDefinition', True):
                if k == 'CXXRecordDecl' and n.get('isImplicit'):
                    continue
                q = self.qualname(n['id'])
                old = self.records.get(q)
                if old is None or self._is_def(n):
                    self.records[q] = n
            elif k in FUNC and n.get('name'):
                q = self.qualname(n['id'])
                self.funcs.setdefault(q, []).append(n)
            elif k in ('TypedefDecl', 'TypeAliasDecl'):
                self.typedefs[self.qualname(n['id'])] = n
            elif k == 'EnumDecl' and n.get('name'):
                self.enums[self.qualname(n['id'])] = n
            elif k == 'VarDecl' and n.get('name'):
                self.vars.setdefault(self.qualname(n['id']), n)

    def anon_name(self, s):
        def rep(m):
            i = self.anon.get(m.group(1))
            return self.qualname(i) if i else m.group(0)
        return re.sub(r'(?:[\w:]+::)?\(unnamed[^()]*?at ([^()]*)\)', rep, s) if '(unnamed' in s else s

    def _is_def(self, n):
        return any(c.get('kind') in ('FieldDecl', 'CXXMethodDecl', 'CXXConstructorDecl') for c in n.get('inner', ()))

    def args_str(self, n):
        out = []
        for c in n.get('inner', ()):
            if c.get('kind') == 'TemplateArgument':
                out.append(self._targ(c))
        return out

    def _targ(self, c):
        if 'type' in c:
            t = c['type']
            return norm(t.get('desugaredQualType') or t['qualType'])
        if 'value' in c:
            return str(c['value'])
        if c.get('isExpr'):
            return 'expr'
        if 'decl' in c:
            return c['decl'].get('name', '?')
        return ','.join(self._targ(x) for x in c.get('inner', ()) if x.get('kind') == 'TemplateArgument')

    def localname(self, n):
        nm = n.get('name', '')
        if n['kind'] == 'ClassTemplateSpecializationDecl':
            return nm + '<' + ','.join(self.args_str(n)) + '>'
        return nm

    def qualname(self, i):
        if i in self.qn:
            return self.qn[i]
        n = self.decls[i]
        p = self.parent.get(i)
        nm = self.localname(n)
        if p is None or p not in self.decls or self.decls[p]['kind'] == 'TranslationUnitDecl':
            q = nm
        elif self.decls[p]['kind'] == 'EnumDecl' and n['kind'] == 'EnumConstantDecl':
            pp = self.parent.get(p)
            pre = self.qualname(pp) if pp and pp in self.decls else ''
            q = pre + '::' + nm if pre else nm
        else:
            pre = self.qualname(p)
            q = pre + '::' + nm if pre else nm
        self.qn[i] = q
        return q

    def body(self, n):
        for c in n.get('inner', ()):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                return c
        return None

    def definition(self, i):
        """function definition node for any redeclaration id"""
        c = self.canon.get(i, i)
        for j in self.redecl.get(c, [i]):
            n = self.decls.get(j)
            if n is not None and self.body(n) is not None:
                return n
        return self.decls.get(i)

    def find_func(self, name, nparams=None, sig=None):
        """name: qualified, template args optional (Class::m matches Class<..>::m)"""
        cands = []
        want = norm(name)
        seen = set()
        for q, ns in self.funcs.items():
            if q == want or strip_targs(q) == want:
                for n in ns:
                    d = self.definition(n['id'])
                    if d['id'] in seen:
                        continue
                    if self.in_template_pattern(d['id']):
                        continue
                    seen.add(d['id'])
                    cands.append(d)
        if nparams is not None:
            cands = [c for c in cands if len(params(c)) == nparams]
        if sig is not None:
            cands = [c for c in cands if sig in c['type']['qualType']]
        withbody = [c for c in cands if self.body(c)]
        return withbody or cands

    def in_template_pattern(self, i):
        """inside an uninstantiated class template pattern"""
        p = i
        while p is not None and p in self.decls:
            n = self.decls[p]
            if n['kind'] in FUNC and self._is_templated(n):
                return True
            if (n['kind'] == 'CXXRecordDecl' and n['id'] in self._patterns()) or n['kind'] == 'ClassTemplatePartialSpecializationDecl':
                return True
            p = self.parent.get(p)
        return False

    def _is_templated(self, n):
        return n['id'] in self._fpatterns()

    def _patterns(self):
        if not hasattr(self, '_pats'):
            self._pats = set()
            self._fpats = set()
            for n in self.decls.values():
                if n['kind'] == 'ClassTemplateDecl':
                    for c in n.get('inner', ()):
                        if c.get('kind') == 'CXXRecordDecl':
                            self._pats.add(c['id'])
                if n['kind'] == 'FunctionTemplateDecl':
                    first = True
                    for c in n.get('inner', ()):
                        if c.get('kind') in FUNC:
                            if first:
                                self._fpats.add(c['id'])
                            first = False
        return self._pats

    def _fpatterns(self):
        self._patterns()
        return self._fpats

    def record_of(self, tname, ctx=None):
        """record node by type string"""
        t = norm(tname)
        t = re.sub(r'^const ', '', t)
        if t in self.records:
            return self.records[t]
        # enclosing scopes
        q = ctx
        while q:
            for b in [q] + self._basenames(q):
                k = b + '::' + t
                if k in self.records:
                    return self.records[k]
            q = q.rsplit('::', 1)[0] if '::' in q else None
        c = [k for k in self.records if k.endswith('::' + t)]
        if len(c) == 1:
            return self.records[c[0]]
        return None

    def _basenames(self, q):
        r = self.records.get(q)
        if not r:
            return []
        out = []
        for b in r.get('bases', ()):
            t = b['type']
            nm = norm(t.get('desugaredQualType') or t['qualType'])
            if nm in self.records:
                out.append(nm)
                out += self._basenames(nm)
        return out

    def bases(self, rec):
        out = []
        for b in rec.get('bases', ()):
            t = b['type']
            r = self.record_of(t.get('desugaredQualType') or t['qualType'])
            if r is not None:
                out.append(r)
        return out

    def fields(self, rec):
        out = []
        for b in self.bases(rec):
            out += self.fields(b)
        for c in rec.get('inner', ()):
            if c.get('kind') == 'FieldDecl':
                out.append(c)
            # anonymous unions/structs: fields through IndirectField are not modelled
        return out

    def ancestor(self, i, kinds):
        p = self.parent.get(i)
        while p is not None and p in self.decls:
            if self.decls[p]['kind'] in kinds:
                return self.decls[p]
            p = self.parent.get(p)
        return None


def params(fn):
    return [c for c in fn.get('inner', ()) if c.get('kind') == 'ParmVarDecl']


def strip_targs(q):
    out = []
    d = 0
    i = 0
    while i < len(q):
        if q.startswith('operator<', i) and (i == 0 or not (q[i-1].isalnum() or q[i-1] == '_')):
            j = i + len('operator')
            while j < len(q) and q[j] in '<>=':
                j += 1
            if d == 0:
                out.append(q[i:j])
            i = j
            continue
        c = q[i]
        if q.startswith('operator->', i) or q.startswith('operator>', i):
            j = i + len('operator')
            while j < len(q) and q[j] in '->=*':
                j += 1
            if d == 0:
                out.append(q[i:j])
            i = j
            continue
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def qtype(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


def pr(x, i=0, out=sys.stdout, depth=99):
    if not x:
        print(' ' * i, '{}', file=out)
        return
    k = {a: b for a, b in x.items() if a not in ('inner', 'range', 'loc', 'mangledName', 'isUsed', 'id', 'valueCategory')}
    print(' ' * i, str(k)[:300], file=out)
    if depth:
        for y in x.get('inner', ()):
            pr(y, i + 2, out, depth - 1)


if __name__ == '__main__':
    a = AST(sys.argv[1], sys.argv[3:])
    if len(sys.argv) > 2:
        for n in a.find_func(sys.argv[2]):
            pr(n)
