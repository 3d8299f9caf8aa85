"""What the pybind11 modules bind: Python-visible names to C++ functions and the route of every argument between them."""
import re
from .cfront import params_of, body_of, line_of, AnalysisBroken

CASTS = {'ImplicitCastExpr', 'CXXReinterpretCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr',
         'ExprWithCleanups', 'CXXBindTemporaryExpr', 'CXXFunctionalCastExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr'}


def kids(n):
    return [c for c in n.get('inner', ()) if isinstance(c, dict) and c.get('kind')]


def walk(n):
    todo = [n]
    while todo:
        x = todo.pop()
        yield x
        todo.extend(reversed(kids(x)))


def strip(n):
    while n.get('kind') in CASTS and kids(n):
        n = kids(n)[-1]
    # copies of value parameters
    while n.get('kind') == 'CXXConstructExpr' and len(kids(n)) == 1:
        n = kids(n)[0]
        while n.get('kind') in CASTS and kids(n):
            n = kids(n)[-1]
    return n


def qt(n):
    return (n.get('type') or {}).get('qualType', '')


def targs(t):
    """Top-level template arguments of a type name."""
    i = t.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for c in t[i + 1:t.rfind('>')]:
        if c == '<' or c == '(':
            d += 1
        if c == '>' or c == ')':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def bare(t):
    return re.sub(r'\bbatoid::', '', t).strip()


class Bound:
    """One bound name.  route: per C++ argument ('param', i) | ('const', text) | ('expr', text); params: the Python-side parameters."""

    def __init__(self, name, loc):
        self.name, self.loc = name, loc
        self.kind = None         # 'ctor' | 'method' | 'function' | 'member' | 'lambda'
        self.target = None       # C++ name
        self.route = None
        self.nparams = None
        self.kwnames = []
        self.node = None
        self.vector = False      # broadcast over arrays


class PyClass:
    def __init__(self, cxx, bases):
        self.cxx, self.bases = cxx, bases
        self.members = {}


class Bindings:
    def __init__(self, prog):
        self.prog = prog
        self.classes = {}        # python name -> PyClass
        self.bycxx = {}
        self.functions = {}
        self.vars = {}
        for u in prog.units:
            for d in u.docs:
                for n in walk(d):
                    if n.get('kind') in ('FunctionDecl',) and body_of(n) is not None and n.get('_unit') is u:
                        f = (n.get('_beg') or ('',))[0]
                        if 'pysrc' in str(f):
                            self.unit(n)

    def unit(self, fn):
        for n in walk(body_of(fn)):
            if n.get('kind') == 'VarDecl' and 'class_<' in qt(n):
                self.vars[n.get('id')] = n
        for n in walk(body_of(fn)):
            if n.get('kind') == 'CXXTemporaryObjectExpr' and 'class_<' in qt(n) or n.get('kind') == 'CXXConstructExpr' and 'class_<' in qt(n):
                self.root(n)
        for n in walk(body_of(fn)):
            if n.get('kind') == 'CXXMemberCallExpr':
                c = kids(n)
                if c and c[0].get('kind') == 'MemberExpr' and c[0].get('name') in ('def', 'def_static', 'def_readonly', 'def_readwrite'):
                    self.entry(n, c)

    def root(self, n):
        s = [x.get('value', '').strip('"') for x in walk(n) if x.get('kind') == 'StringLiteral']
        a = targs(qt(n))
        direct = [x for x in kids(n)]
        if not a or not s or any(x.get('kind') in CASTS and 'class_<' in qt(x) and 'handle' not in qt(x) for x in direct):
            return None
        if s[0] not in self.classes:
            c = PyClass(bare(a[0]), [bare(x) for x in a[1:] if not re.search(r'(shared|unique)_ptr<', x)])
            self.classes[s[0]] = c
            self.bycxx[c.cxx] = s[0]
        return s[0]

    def owner(self, obj, depth=0):
        """Python name of the class a .def is applied to; '' for the module."""
        while obj is not None and depth < 200:
            depth += 1
            k = obj.get('kind')
            if k in ('CXXTemporaryObjectExpr', 'CXXConstructExpr'):
                lit = [x for x in kids(obj) if strip(x).get('kind') == 'StringLiteral']
                if lit:
                    return strip(lit[0]).get('value', '').strip('"')
                c = kids(obj)
                obj = c[0] if c else None
            elif k == 'CXXMemberCallExpr':
                m = kids(obj)[0]
                obj = kids(m)[0] if kids(m) else None
            elif k == 'DeclRefExpr':
                r = obj.get('referencedDecl') or {}
                v = self.vars.get(r.get('id'))
                if v is None:
                    return '' if 'module' in qt(obj) else None
                obj = kids(v)[-1] if kids(v) else None
            elif kids(obj):
                obj = kids(obj)[-1] if k != 'MemberExpr' else kids(obj)[0]
            else:
                return None
        return None

    def entry(self, call, c):
        own = self.owner(kids(c[0])[0] if kids(c[0]) else None)
        if own is None:
            return
        args = c[1:]
        if not args:
            return
        first = strip(args[0])
        ini = 'initimpl' in qt(args[0]) or 'initimpl' in qt(first)
        if first.get('kind') == 'StringLiteral' and not ini:
            name = first.get('value', '').strip('"')
            impl = args[1] if len(args) > 1 else None
            rest = args[2:]
        elif ini:
            name, impl, rest = '__init__', args[0], args[1:]
        else:
            return
        b = Bound(name, line_of(call))
        b.kwnames = [x.get('value', '').strip('"') for r in rest for x in walk(r) if x.get('kind') == 'StringLiteral' and 'arg' in qt(r)]
        if impl is not None:
            self.implement(b, impl, own)
        if own == '':
            self.functions[name] = b
        elif own in self.classes:
            self.classes[own].members[name] = b

    def implement(self, b, impl, own):
        lam = next((x for x in walk(impl) if x.get('kind') == 'LambdaExpr'), None)
        if lam is not None:
            return self.lam(b, lam)
        if b.name == '__init__':
            m = re.search(r'constructor<(.*)>', qt(strip(impl)) or qt(impl)) or re.search(r'constructor<(.*)>', qt(impl))
            if m:
                b.kind = 'ctor'
                b.target = self.classes[own].cxx if own in self.classes else None
                n = len(targs('x<%s>' % m.group(1)))
                b.nparams = n
                b.route = [('param', i) for i in range(n)]
            return
        refs = [x for x in walk(impl) if x.get('kind') == 'DeclRefExpr' and (x.get('referencedDecl') or {}).get('kind') in ('CXXMethodDecl', 'FunctionDecl', 'FieldDecl')
                and (x.get('referencedDecl') or {}).get('name') not in ('vectorize', 'init')]
        if len(refs) != 1:
            return
        r = refs[0]['referencedDecl']
        if any(x.get('kind') == 'DeclRefExpr' and (x.get('referencedDecl') or {}).get('name') == 'vectorize' for x in walk(impl)):
            b.vector = True
        if r['kind'] == 'FieldDecl':
            b.kind, b.target = 'member', r['name']
            return
        b.kind = 'method' if r['kind'] == 'CXXMethodDecl' else 'function'
        b.target = r['name']
        m = re.search(r'\((.*)\)[^()]*$', (r.get('type') or {}).get('qualType', ''))
        n = len(targs('x<%s>' % m.group(1))) if m and m.group(1).strip() else 0
        b.nparams = n
        b.route = [('param', i) for i in range(n)]
        if b.kind == 'method':
            b.self_first = True

    def lam(self, b, lam):
        """A lambda that forwards to one C++ call."""
        b.kind = 'lambda'
        op = next((x for x in walk(lam) if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()'), None)
        body = kids(lam)[-1]
        if op is None or body.get('kind') != 'CompoundStmt':
            return
        b.node = op
        b.body = body
        ps = [p.get('id') for p in params_of(op)]
        names = [p.get('name') for p in params_of(op)]
        env = {}

        def val(e, depth=0):
            e = strip(e)
            k = e.get('kind')
            if k == 'DeclRefExpr':
                d = e.get('referencedDecl') or {}
                if d.get('name') in names and d.get('kind') == 'ParmVarDecl':
                    return ('param', names.index(d['name']))
                if d.get('name') in env and depth < 8:
                    return env[d['name']]
                return ('expr', d.get('name'))
            if k in ('IntegerLiteral', 'FloatingLiteral', 'CXXBoolLiteralExpr', 'CXXNullPtrLiteralExpr'):
                return ('const', str(e.get('value')))
            if k in ('CXXMemberCallExpr',):
                m = kids(e)[0]
                o = val(kids(m)[0]) if kids(m) else None
                return ('expr', m.get('name'), o)
            return ('expr', k)
        for s in walk(body):
            if s.get('kind') == 'VarDecl' and kids(s) and 'inner' in s:
                env[s.get('name')] = val(kids(s)[-1])
        hits = []
        for s in walk(body):
            k = s.get('kind')
            c = kids(s)
            if k == 'CXXNewExpr':
                ce = next((x for x in c if x.get('kind') == 'CXXConstructExpr'), None)
                if ce is not None:
                    hits.append(('ctor', bare(qt(ce)), [val(a) for a in kids(ce)]))
            elif k == 'CXXMemberCallExpr' and c and c[0].get('kind') == 'MemberExpr':
                o = val(kids(c[0])[0]) if kids(c[0]) else None
                if o == ('param', 0) and 'batoid' in qt(strip(kids(c[0])[0])) + str((strip(kids(c[0])[0]).get('referencedDecl') or {}).get('type')) or o == ('param', 0):
                    hits.append(('method', c[0].get('name'), [val(a) for a in c[1:]]))
            elif k == 'CallExpr' and c:
                f = strip(c[0])
                d = f.get('referencedDecl') or {}
                if d.get('kind') == 'FunctionDecl':
                    hits.append(('function', d.get('name'), [val(a) for a in c[1:]]))
        b.nparams = len(ps)
        b.hits = hits
        ctors = [h for h in hits if h[0] == 'ctor']
        pick = ctors if b.name == '__init__' else [h for h in hits if h[0] != 'ctor' and h[1] not in ('size', 'make_tuple', 'get')]
        if len(pick) == 1:
            b.kind, b.target, b.route = pick[0]
            b.lambda_self = b.kind == 'method'

    def member(self, cls, name):
        """Look name up on a bound class and its bases."""
        c = self.classes.get(cls)
        if c is None:
            return None
        if name in c.members:
            return c.members[name]
        for x in c.bases:
            p = self.bycxx.get(x)
            r = self.member(p, name) if p else None
            if r is not None:
                return r
        return None
