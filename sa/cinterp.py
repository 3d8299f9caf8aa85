"""Flow-sensitive value numbering of the C++ sources.

One pass over each function body, in program order.  Control-flow joins build
gated values (no path enumeration), helper functions are inlined, loops are
summarised (trip count, induction variables, sums, or/and accumulators) and
anything the domain cannot express becomes an explicit `unknown` value.
"""
from fractions import Fraction
from . import terms as T
from .terms import V, R, ZERO, ONE
from .cfront import AnalysisBroken, body_of, params_of, line_of, FUNCS, dump, Unit

MAXDEPTH = 14
ARITH = ('double', 'float', 'int', 'long', 'size_t', 'unsigned', 'short', 'char')


def qual(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


def base_type(t):
    for w in ('const ', 'volatile ', 'struct ', 'class '):
        t = t.replace(w, '')
    return t.replace(' const', '').replace('(anonymous namespace)::', '').strip()


def is_ptr(t):
    t = base_type(t)
    return t.endswith('*') or t.endswith('*const') or t.endswith('* __restrict') or t.endswith(']')


def is_ref(t):
    return t.rstrip().endswith('&')


def is_const_ref(t):
    t = t.strip()
    return t.endswith('&') and t.startswith('const ') or t.endswith('const &')


def pointee(t):
    t = base_type(t)
    if t.endswith(']'):
        return t[:t.rindex('[')].strip()
    t = t.replace('*const', '*').replace('* __restrict', '*')
    return t[:t.rindex('*')].strip()


def is_bool(t):
    return base_type(t).rstrip('&').strip() in ('bool', '_Bool')


def is_int(t):
    b = base_type(t).rstrip('&').strip()
    return b in ('int', 'long', 'unsigned int', 'unsigned long', 'size_t', 'std::size_t', 'short', 'char',
                 'unsigned', 'long long', 'unsigned long long', 'ptrdiff_t', 'unsigned char', 'uint32_t', 'int32_t', 'int64_t')


def is_float(t):
    return base_type(t).rstrip('&').strip() in ('double', 'float', 'long double')


def is_scalar(t):
    return is_bool(t) or is_int(t) or is_float(t)


class Rec:
    """An aggregate value."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def get(self, f):
        for k, v in self.items:
            if k == f:
                return v
        return None

    def put(self, f, val):
        if any(k == f for k, _ in self.items):
            return Rec((k, val if k == f else v) for k, v in self.items)
        return Rec(self.items + ((f, val),))

    def __eq__(self, o):
        return isinstance(o, Rec) and [k for k, _ in self.items] == [k for k, _ in o.items] and \
            all(T.veq(a, b) for (_, a), (_, b) in zip(self.items, o.items))

    def __hash__(self):
        return hash(tuple(k for k, _ in self.items))

    def sub_values(self):
        return [v for _, v in self.items]

    def truth(self):
        return True

    def __repr__(self):
        return '{' + ', '.join('%s=%s' % (k, T.show(v)) for k, v in self.items) + '}'


class Lambda:
    def __init__(self, node, frame):
        self.node, self.frame = node, frame

    def truth(self):
        return True


class State:
    def __init__(self):
        self.env = {}
        self.fields = {}
        self.mem = {}
        self.ret = False
        self.retval = None
        self.brk = False
        self.cont = False

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.fields = dict(self.fields)
        s.mem = {k: list(v) for k, v in self.mem.items()}
        s.ret, s.retval, s.brk, s.cont = self.ret, self.retval, self.brk, self.cont
        return s

    def take(self, o):
        self.env, self.fields, self.mem = o.env, o.fields, o.mem
        self.ret, self.retval, self.brk, self.cont = o.ret, o.retval, o.brk, o.cont


UNDEF = ('undef',)


class Interp:
    def __init__(self, prog, dyn=None, opaque=(), transparent=()):
        self.P = prog
        self.dyn = dict(dyn or {})      # object key -> class known exactly
        self.opaque = set(opaque)       # qualified names never inlined
        self.events = []
        self.loops = []
        self.loopstack = []
        self.frame = 0
        self.frames = {0: None}
        self.thisobj = [None]
        self.depth = 0
        self.guard = True
        self.unknowns = []
        self.nframes = 0
        self.inlined = set()

    # ------------------------------------------------------------ utilities
    def unk(self, why, node=None):
        self.unknowns.append((why, line_of(node) if node else ''))
        return T.unknown(why)

    def event(self, kind, node, **kw):
        e = dict(kind=kind, node=node, guard=self.guard, loops=tuple(l['id'] for l in self.loopstack), **kw)
        self.events.append(e)
        return e

    # ---------------------------------------------------------- entry points
    def run(self, fn, args=None, this=None, st=None):
        """Abstractly execute fn.  args: name -> value (defaults are atoms)."""
        st = st or State()
        self.nframes += 1
        fr = self.nframes
        self.frames[fr] = None
        old = self.frame, list(self.thisobj)
        self.frame = fr
        self.thisobj = self.thisobj + [this]
        params = {}
        for i, p in enumerate(params_of(fn)):
            name = p.get('name') or 'arg%d' % i
            v = (args or {}).get(name, (args or {}).get(i))
            if v is None:
                v = self.default(name, qual(p))
            st.env[(fr, p['id'])] = v
            params[name] = (fr, p['id'])
        self.ctor_inits(fn, st, this)
        b = body_of(fn)
        self.exec(b, st)
        out = st.retval
        self.frame, self.thisobj = old
        return out, st, params

    def ctor_inits(self, fn, st, this):
        """Constructor member initialisers (in declaration order as clang prints them)."""
        for c in fn.get('inner', ()):
            if c.get('kind') != 'CXXCtorInitializer':
                continue
            if 'anyInit' in c:
                f = c['anyInit']['name']
                e = c.get('inner', [None])[0]
                v = self.ev(e, st) if e else self.unk('init')
                if isinstance(v, Rec) and False:
                    pass
                st.fields[(self._okey(this), f)] = v
            elif 'baseInit' in c:
                e = (c.get('inner') or [None])[0]
                if e is not None:
                    self.construct(e, st, this)

    def construct(self, e, st, this):
        while e.get('kind') in ('ExprWithCleanups', 'ImplicitCastExpr', 'MaterializeTemporaryExpr'):
            e = e['inner'][0]
        if e.get('kind') != 'CXXConstructExpr':
            return
        t = base_type(e['type']['qualType']).replace('batoid::', '')
        args = [self.ev(a, st) for a in e.get('inner', ())]
        for c in self.P.ctor(t):
            ps = params_of(c)
            if len(ps) == len(args):
                self.call_fn(c, [('val', a) for a in args], st, this)
                return

    def default(self, name, t):
        if is_ref(t):
            t2 = t.rstrip()[:-1].strip()
            if is_scalar(t2):
                return self.scalar_atom(name, t2)
            return ('obj', name)
        if is_ptr(t):
            pt = pointee(t)
            if is_scalar(pt) or is_ptr(pt) or pt.startswith('std::complex') or pt == 'void':
                return ('ptr', ('param', name), ZERO)
            return ('ptr', ('obj', name), ZERO)
        if is_scalar(t):
            return self.scalar_atom(name, t)
        return ('obj', name)

    def scalar_atom(self, name, t):
        if is_bool(t):
            return T.bool_atom('var', name)
        a = T.var(name)
        if is_int(t):
            T.flag(a, 'int')
            if base_type(t) in ('size_t', 'unsigned long', 'unsigned int', 'std::size_t', 'unsigned'):
                T.flag(a, 'nonneg')
        return a

    # -------------------------------------------------------------- lvalues
    def lookup(self, did):
        f = self.frame
        return f

    def varkey(self, did, st):
        f = self.frame
        while f is not None:
            if (f, did) in st.env:
                return (f, did)
            f = self.frames.get(f)
        return None

    def lval(self, n, st):
        k = n['kind']
        inner = n.get('inner', [])
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr'):
            return self.lval(inner[0], st)
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr') \
                and n.get('valueCategory') in ('lvalue', 'xvalue'):
            return self.lval(inner[0], st)
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            key = self.varkey(d['id'], st)
            if key is None:
                # global / static constant
                g = inner_decl(n, d['id'])
                if g is not None and g.get('kind') == 'VarDecl' and g.get('inner') and \
                        ('const' in qual(g) or g.get('constexpr')):
                    st.env[(0, d['id'])] = self.ev(g['inner'][-1], st)
                    self.frames.setdefault(0, None)
                    return ('var', (0, d['id']))
                return ('tmp', self.default(d.get('name', '?'), qual(n)))
            v = st.env[key]
            if isinstance(v, tuple) and v and v[0] == 'ref':
                return v[1]
            return ('var', key)
        if k == 'MemberExpr':
            base = inner[0]
            name = n.get('name')
            if n.get('isArrow'):
                p = self.ev(base, st)
                obj = self.deref_obj(p)
                return ('objf', obj, name, qual(n))
            b = self.lval(base, st) if base.get('valueCategory') in ('lvalue', 'xvalue') else ('tmp', self.ev(base, st))
            return ('member', b, name, qual(n))
        if k == 'ArraySubscriptExpr':
            p = self.ev(inner[0], st)
            i = self.ev(inner[1], st)
            return ('mem', p, i, qual(n))
        if k == 'UnaryOperator':
            op = n['opcode']
            if op == '*':
                return ('mem', self.ev(inner[0], st), ZERO, qual(n))
            if op in ('++', '--'):
                lv = self.lval(inner[0], st)
                self.incdec(n, st)
                return lv
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n['opcode']
            if op == ',':
                self.ev(inner[0], st)
                return self.lval(inner[1], st)
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                lv = self.assign(n, st)
                return lv
        if k == 'CXXThisExpr':
            return ('tmp', self.thisobj[-1])
        if k == 'CXXOperatorCallExpr':
            r = self.opcall_lval(n, st)
            if r is not None:
                return r
        if k == 'ConditionalOperator':
            c = T.truthv(self.ev(inner[0], st))
            return ('cond', c, self.lval(inner[1], st), self.lval(inner[2], st))
        if k in ('CallExpr', 'CXXMemberCallExpr'):
            v = self.ev(n, st)
            if isinstance(v, tuple) and v and v[0] == 'ref':
                return v[1]
            return ('tmp', v)
        return ('tmp', self.ev(n, st))

    def deref_obj(self, p):
        def f(l):
            if isinstance(l, tuple) and l and l[0] == 'ptr':
                if isinstance(l[1], tuple) and l[1][0] == 'obj':
                    if isinstance(l[2], R) and not l[2].num:
                        return l[1]
                    return ('obj', ('elem', l[1], l[2]))
                if isinstance(l[1], tuple) and l[1][0] == 'lv':
                    return ('lvobj', l[1][1])
                return ('obj', ('elem', l[1], l[2]))
            if l is None:
                return ('obj', 'NULL')
            return ('obj', l)
        return T.vmap(f, p)

    def _okey(self, obj):
        if isinstance(obj, tuple) and obj and obj[0] == 'obj':
            return obj[1] if not isinstance(obj[1], list) else tuple(obj[1])
        return obj

    def load(self, lv, st, node=None):
        k = lv[0]
        if k == 'tmp':
            return lv[1]
        if k == 'var':
            v = st.env.get(lv[1], UNDEF)
            if isinstance(v, tuple) and v and v[0] == 'ref':
                return self.load(v[1], st, node)
            if v is UNDEF:
                return self.unk('undefined variable', node)
            return v
        if k == 'cond':
            return T.ite(lv[1], self.load(lv[2], st, node), self.load(lv[3], st, node))
        if k == 'member':
            b = self.load(lv[1], st, node)

            def f(l):
                if isinstance(l, Rec):
                    v = l.get(lv[2])
                    return v if v is not None else self.unk('field ' + str(lv[2]), node)
                return self.load_field(l, lv[2], lv[3], st)
            return T.vmap(f, b)
        if k == 'objf':
            return T.vmap(lambda o: self.load_field(o, lv[2], lv[3], st), lv[1])
        if k == 'mem':
            return T.vmap(lambda p, i: self.load_mem(p, i, lv[3], st, node), lv[1], lv[2])
        return self.unk('load ' + k, node)

    def load_field(self, obj, name, t, st):
        if isinstance(obj, Rec):
            return obj.get(name)
        if isinstance(obj, tuple) and obj[0] == 'lvobj':
            v = self.load(obj[1], st)
            return T.vmap(lambda l: self.load_field(l, name, t, st), v)
        ok = self._okey(obj)
        key = (ok, name)
        if key in st.fields:
            return st.fields[key]
        return self.default_field(ok, name, t)

    def default_field(self, ok, name, t):
        tt = t.rstrip('&').strip()
        if is_ptr(tt):
            pt = pointee(tt)
            if is_scalar(pt) or is_ptr(pt) or pt.startswith('std::complex'):
                return ('ptr', ('f', ok, name), ZERO)
            return ('ptr', ('obj', ('f', ok, name)), ZERO)
        if is_bool(tt):
            return T.bool_atom('field', ('obj', ok), name)
        if is_scalar(tt):
            a = T.atom('field', (('obj', ok), name))
            if is_int(tt):
                T.flag(a, 'int')
            return a
        return ('obj', ('f', ok, name))

    def load_mem(self, p, i, t, st, node):
        if isinstance(p, tuple) and p and p[0] == 'ptr' and isinstance(i, bool):
            i = T.const(int(i))
        if not (isinstance(p, tuple) and p and p[0] == 'ptr' and isinstance(i, R)):
            if isinstance(p, tuple) and p and p[0] == 'obj':
                p = ('ptr', p, ZERO)
                if not isinstance(i, R):
                    return self.unk('array element', node)
            elif isinstance(p, Rec) and isinstance(i, R) and T.is_const(i):
                v = p.get(str(int(T.cval(i))))
                return v if v is not None else self.unk('array element', node)
            else:
                return self.unk('load through ' + T.clip(T.show(p), 60), node)
        base, off = p[1], p[2]
        if isinstance(off, V):
            return T.vmap(lambda o: self.load_mem(('ptr', base, o), i, t, st, node), off)
        idx = T.radd(off, i)
        if isinstance(base, tuple) and base[0] == 'lv':
            if idx.num:
                return self.unk('pointer arithmetic on a local', node)
            return self.load(base[1], st, node)
        self.event('load', node, base=base, idx=idx)
        return self.mem_get(base, idx, t, st, node)

    def mem_get(self, base, idx, t, st, node):
        for e in reversed(st.mem.get(base, ())):
            if e[0] == 'at':
                d = T.rsub(e[1], idx)
                if not d.num:
                    return e[2]
                if T.is_const(d) or self.distinct(d):
                    continue
                return self.unk('possibly aliased element', node)
            if e[0] == 'all':
                _, k, n, f, val = e
                ki = T.single_atom(k)
                # f = a*k + b
                a = self.linear(f, ki)
                if a is None:
                    return self.unk('element after a loop', node)
                coef, rest = a
                q = T.rdiv(T.rsub(idx, rest), coef)
                if q.den == T.P1 and T.is_const(coef) and abs(T.cval(coef)) != 1:
                    # strided: definitely another residue class?
                    if any(c.denominator != 1 for c in q.num.values()):
                        continue
                return T.vsubst(val, {ki: q})
            if e[0] == 'havoc':
                return self.unk('element possibly written by another iteration', node)
        if isinstance(base, tuple) and base[0] == 'obj' and not is_scalar(t) and not is_ptr(t):
            if not idx.num:
                return base
            return ('obj', ('elem', base, idx))
        if is_bool(t):
            return T.bool_atom('load', base, idx)
        if is_ptr(t):
            pt = pointee(t)
            if is_scalar(pt):
                return ('ptr', ('elem', base, idx), ZERO)
            return ('ptr', ('obj', ('elem', base, idx)), ZERO)
        if not is_scalar(t):
            return ('obj', ('elem', base, idx))
        return T.atom('load', (base, idx))

    def linear(self, f, ki):
        """f = coef*k + rest with coef, rest free of k; else None."""
        if not isinstance(f, R) or f.den != T.P1:
            return None
        coef, rest = {}, {}
        for m, c in f.num.items():
            d = dict(m)
            if ki in d:
                if d[ki] != 1:
                    return None
                r = tuple((a, e) for a, e in m if a != ki)
                coef[r] = coef.get(r, 0) + c
            else:
                rest[m] = c
        for p in (coef, rest):
            for a in T.atoms_of_poly(p):
                if ki in T.deep_atoms(a):
                    return None
        if not coef:
            return None
        return R(coef, T.P1), R(rest, T.P1)

    def distinct(self, d):
        """Indices differing by d certainly differ (d never 0 for integers)."""
        if d.den != T.P1:
            return False
        c = d.num.get((), Fraction(0))
        others = [v for m, v in d.num.items() if m]
        if not others:
            return c != 0
        if any(v.denominator != 1 for v in others):
            return False
        from math import gcd
        g = 0
        for v in others:
            g = gcd(g, abs(int(v)))
        return c.denominator != 1 or (g and int(c) % g != 0)

    def store(self, lv, val, st, node=None):
        k = lv[0]
        if k == 'var':
            v = st.env.get(lv[1])
            if isinstance(v, tuple) and v and v[0] == 'ref':
                return self.store(v[1], val, st, node)
            st.env[lv[1]] = val
            self.event('assign', node, key=lv[1], value=val)
            return
        if k == 'cond':
            a = self.load(lv[2], st, node)
            b = self.load(lv[3], st, node)
            self.store(lv[2], T.ite(lv[1], val, a), st, node)
            self.store(lv[3], T.ite(lv[1], b, val), st, node)
            return
        if k == 'member':
            b = self.load(lv[1], st, node)
            if isinstance(b, Rec):
                return self.store(lv[1], b.put(lv[2], val), st, node)
            if isinstance(b, V) and all(isinstance(x, Rec) for _, x in T.leaves(b)):
                return self.store(lv[1], T.vmap(lambda r: r.put(lv[2], val), b), st, node)
            if b is UNDEF or (isinstance(b, tuple) and b and b[0] == 'undefrec'):
                return self.store(lv[1], Rec([(lv[2], val)]), st, node)
            return self.store(('objf', b, lv[2], lv[3]), val, st, node)
        if k == 'objf':
            o = lv[1]
            if isinstance(o, V):
                for path, l in T.leaves(o):
                    c = True
                    for a, b in path:
                        c = T.vand(c, T.bool_atom_v(a) if b else T.vnot(T.bool_atom_v(a)))
                    old = self.load(('objf', l, lv[2], lv[3]), st, node)
                    self.store(('objf', l, lv[2], lv[3]), T.ite(c, val, old), st, node)
                return
            if isinstance(o, tuple) and o[0] == 'lvobj':
                return self.store(('member', o[1], lv[2], lv[3]), val, st, node)
            key = (self._okey(o), lv[2])
            st.fields[key] = val
            self.event('setfield', node, obj=o, field=lv[2], value=val)
            return
        if k == 'mem':
            p, i = lv[1], lv[2]
            if isinstance(p, V) or isinstance(i, V):
                for path, l in T.leaves(T.vmap(lambda a, b: ('pi', a, b), p, i)):
                    c = True
                    for a, b in path:
                        c = T.vand(c, T.bool_atom_v(a) if b else T.vnot(T.bool_atom_v(a)))
                    l2 = ('mem', l[1], l[2], lv[3])
                    self.store(l2, T.ite(c, val, self.load(l2, st, node)), st, node)
                return
            if isinstance(p, tuple) and p and p[0] == 'obj':
                p = ('ptr', p, ZERO)
            if not (isinstance(p, tuple) and p and p[0] == 'ptr' and isinstance(i, R)):
                self.unk('store through ' + T.clip(T.show(p), 60), node)
                self.event('wildstore', node, value=val)
                return
            base, idx = p[1], T.radd(p[2], i)
            if isinstance(base, tuple) and base[0] == 'lv':
                return self.store(base[1], val, st, node)
            self.event('store', node, base=base, idx=idx, value=val)
            lst = st.mem.setdefault(base, [])
            for j, e in enumerate(lst):
                if e[0] == 'at' and T.req(e[1], idx):
                    del lst[j]
                    break
            lst.append(('at', idx, val))
            return
        if k == 'tmp':
            self.event('wildstore', node, value=val)
            return

    # ----------------------------------------------------------- expressions
    def conv(self, v, t):
        if is_bool(t):
            return T.truthv(v)
        return v

    def ev(self, n, st):
        k = n.get('kind')
        m = getattr(self, 'ev_' + str(k), None)
        if m:
            return m(n, st)
        inner = n.get('inner', [])
        if k in ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr',
                 'CXXDefaultArgExpr', 'CXXDefaultInitExpr', 'MaterializeTemporaryExpr', 'FullExpr') and inner:
            return self.ev(inner[0], st)
        if n.get('valueCategory') == 'lvalue' and k in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr'):
            return self.load(self.lval(n, st), st, n)
        return self.unk('expression ' + str(k), n)

    def ev_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            return ('enum', d['name'])
        if d['kind'] in FUNCS:
            return ('func', d['id'], d['name'])
        return self.load(self.lval(n, st), st, n)

    def ev_MemberExpr(self, n, st):
        return self.load(self.lval(n, st), st, n)

    ev_ArraySubscriptExpr = ev_MemberExpr

    def ev_IntegerLiteral(self, n, st):
        return T.const(int(n['value']))

    def ev_FloatingLiteral(self, n, st):
        v = n['value']
        src = n['_unit'].snippet(n).replace("'", '').rstrip('fFlL')
        try:
            f = Fraction(src)
            if abs(float(f) - float(v)) <= 1e-5 * abs(float(v)):
                return piish(f)
        except (ValueError, ZeroDivisionError):
            pass
        try:
            return piish(Fraction(v))
        except (ValueError, OverflowError):
            return T.atom('nan' if 'nan' in v.lower() else 'inf')

    def ev_CXXBoolLiteralExpr(self, n, st):
        return bool(n['value'])

    def ev_CXXNullPtrLiteralExpr(self, n, st):
        return None

    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr

    def ev_StringLiteral(self, n, st):
        return str(n.get('value'))

    def ev_CXXThisExpr(self, n, st):
        return ('ptr', self.thisobj[-1], ZERO)

    def ev_ImplicitValueInitExpr(self, n, st):
        return False if is_bool(qual(n)) else ZERO if is_scalar(qual(n)) else None

    ev_CXXScalarValueInitExpr = ev_ImplicitValueInitExpr

    def ev_cast(self, n, st):
        inner = n['inner'][0]
        ck = n.get('castKind')
        if ck == 'LValueToRValue':
            return self.load(self.lval(inner, st), st, n)
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(inner, st)
        if ck == 'ArrayToPointerDecay':
            lv = self.lval(inner, st)
            if lv[0] == 'var':
                v = st.env.get(lv[1])
                if isinstance(v, tuple) and v and v[0] == 'ptr':
                    return v
                if isinstance(v, Rec):
                    base = ('local',) + lv[1]
                    for i, (kk, x) in enumerate(v.items):
                        st.mem.setdefault(base, []).append(('at', T.const(int(kk)), x))
                    st.env[lv[1]] = ('ptr', base, ZERO)
                    return st.env[lv[1]]
            return self.load(lv, st, n)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'NoOp', 'BaseToDerived', 'BitCast', 'ConstructorConversion',
                  'UserDefinedConversion') and n.get('valueCategory') in ('lvalue', 'xvalue'):
            return self.load(self.lval(inner, st), st, n)
        v = self.ev(inner, st)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return T.truthv(v)
        if ck == 'FloatingToIntegral':
            return T.vmap(lambda l: to_int(l), v)
        if ck == 'NullToPointer':
            return None
        if ck in ('IntegralToPointer', 'PointerToIntegral'):
            return v
        if is_bool(qual(n)) and not is_bool(qual(inner)):
            return T.truthv(v)
        return v

    ev_ImplicitCastExpr = ev_CStyleCastExpr = ev_CXXStaticCastExpr = ev_CXXFunctionalCastExpr = \
        ev_CXXReinterpretCastExpr = ev_CXXConstCastExpr = ev_cast

    def ev_ConditionalOperator(self, n, st):
        c, a, b = n['inner']
        cv = T.truthv(self.ev(c, st))
        va = self.under(cv, lambda: self.ev(a, st))
        vb = self.under(T.vnot(cv), lambda: self.ev(b, st))
        return T.ite(cv, va, vb)

    def under(self, c, f):
        old = self.guard
        self.guard = T.vand(old, c)
        try:
            return f()
        finally:
            self.guard = old

    def ev_UnaryOperator(self, n, st):
        op = n['opcode']
        e = n['inner'][0]
        if op == '&':
            if e['kind'] == 'DeclRefExpr' and e['referencedDecl']['kind'] in FUNCS:
                return ('func', e['referencedDecl']['id'], e['referencedDecl']['name'])
            lv = self.lval(e, st)
            if lv[0] == 'mem':
                return T.vmap(lambda p, i: ('ptr', p[1], T.radd(p[2], i)) if isinstance(p, tuple) and p[0] == 'ptr'
                              and isinstance(i, R) else self.unk('address', n), lv[1], lv[2])
            v = self.load(lv, st, n) if lv[0] != 'var' or lv[1] in st.env else None
            if isinstance(v, tuple) and v and v[0] == 'obj':
                return ('ptr', v, ZERO)
            return ('ptr', ('lv', lv), ZERO)
        if op in ('++', '--'):
            return self.incdec(n, st)
        if op == '*':
            return self.load(self.lval(n, st), st, n)
        v = self.ev(e, st)
        if op == '-':
            return T.vneg(v)
        if op == '+':
            return v
        if op == '!':
            return T.vnot(v)
        return self.unk('unary ' + op, n)

    def incdec(self, n, st):
        lv = self.lval(n['inner'][0], st)
        old = self.load(lv, st, n)
        one = ONE if n['opcode'] == '++' else T.const(-1)
        new = T.vmap(lambda l: self.ptradd(l, one), old)
        self.store(lv, new, st, n)
        return old if n.get('isPostfix') else new

    def ptradd(self, l, r):
        if isinstance(l, tuple) and l and l[0] == 'ptr' and isinstance(r, R):
            return ('ptr', l[1], T.radd(l[2], r))
        if isinstance(r, tuple) and r and r[0] == 'ptr' and isinstance(l, R):
            return ('ptr', r[1], T.radd(r[2], l))
        l, r = T._num(l), T._num(r)
        if isinstance(l, R) and isinstance(r, R):
            return T.radd(l, r)
        return T.atom('?add', (l, r))

    def binop(self, op, a, b, n, ints=False):
        if op == '+':
            return T.vmap(self.ptradd, a, b)
        if op == '-':
            def sub(l, r):
                if isinstance(l, tuple) and l and l[0] == 'ptr':
                    if isinstance(r, tuple) and r and r[0] == 'ptr' and l[1] == r[1]:
                        return T.rsub(l[2], r[2])
                    if isinstance(r, R):
                        return ('ptr', l[1], T.rsub(l[2], r))
                l, r = T._num(l), T._num(r)
                if isinstance(l, R) and isinstance(r, R):
                    return T.rsub(l, r)
                return T.atom('?sub', (l, r))
            return T.vmap(sub, a, b)
        if op == '*':
            return T.vmul(a, b)
        if op == '/':
            if ints:
                return T.vmap(idiv, a, b)
            return T.vdiv(a, b)
        if op == '%':
            return T.vmap(imod, a, b)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            def off(x, y):
                if isinstance(x, tuple) and x and x[0] == 'ptr' and isinstance(y, tuple) and y and y[0] == 'ptr' \
                        and x[1] == y[1]:
                    return x[2], y[2]
                return T._num(x) if not isinstance(y, bool) else x, T._num(y) if not isinstance(x, bool) else y
            def cmp(x, y):
                x, y = off(x, y)
                if op in ('==', '!='):
                    if (x is None) != (y is None):
                        o = y if x is None else x
                        r = T.vnot(T.truth(o))
                    elif isinstance(x, tuple) and isinstance(y, tuple) and x[:1] == y[:1] == ('enum',):
                        r = x == y
                    else:
                        r = T.leaf_cmp_eq(x, y)
                    return r if op == '==' else T.vnot(r)
                if isinstance(x, bool): x = T._num(x)
                if isinstance(y, bool): y = T._num(y)
                if not (isinstance(x, R) and isinstance(y, R)):
                    return T.bool_atom('cmp' + op, x, y)
                return {'<': T.lt(x, y), '>': T.lt(y, x), '<=': T.le(x, y), '>=': T.le(y, x)}[op]
            return T.vmap(cmp, a, b)
        if op in ('&', '|', '^'):
            def bit(x, y):
                if isinstance(x, bool) and isinstance(y, bool):
                    return {'&': x and y, '|': x or y, '^': x != y}[op]
                if isinstance(x, R) and T.is_const(x) and isinstance(y, bool):
                    x = bool(T.cval(x))
                    return {'&': x and y, '|': x or y, '^': x != y}[op]
                if isinstance(y, R) and T.is_const(y) and isinstance(x, bool):
                    y = bool(T.cval(y))
                    return {'&': x and y, '|': x or y, '^': x != y}[op]
                return T.atom('bit' + op, (x, y))
            return T.vmap(bit, a, b)
        return self.unk('operator ' + op, n)

    def ev_BinaryOperator(self, n, st):
        op = n['opcode']
        l, r = n['inner']
        if op == '=':
            lv = self.assign(n, st)
            return self.load(lv, st, n)
        if op == ',':
            self.ev(l, st)
            return self.ev(r, st)
        if op in ('&&', '||'):
            a = T.truthv(self.ev(l, st))
            b = self.under(a if op == '&&' else T.vnot(a), lambda: T.truthv(self.ev(r, st)))
            return T.vand(a, b) if op == '&&' else T.vor(a, b)
        a = self.ev(l, st)
        b = self.ev(r, st)
        ints = is_int(qual(n)) or is_bool(qual(n))
        return self.binop(op, a, b, n, ints)

    def ev_CompoundAssignOperator(self, n, st):
        lv = self.assign(n, st)
        return self.load(lv, st, n)

    def assign(self, n, st):
        op = n['opcode']
        l, r = n['inner']
        if op == '=':
            v = self.ev(r, st)
            lv = self.lval(l, st)
            self.store(lv, self.conv(v, qual(l)), st, n)
            return lv
        v = self.ev(r, st)
        lv = self.lval(l, st)
        old = self.load(lv, st, n)
        ints = is_int(n.get('computeResultType', {}).get('qualType', '')) and is_int(qual(l))
        new = self.binop(op[:-1], old, v, n, ints)
        self.store(lv, self.conv(new, qual(l)), st, n)
        return lv

    def ev_InitListExpr(self, n, st):
        t = base_type(qual(n))
        inner = n.get('inner', [])
        if is_scalar(t):
            return self.conv(self.ev(inner[0], st), t) if inner else ZERO
        rec = self.P.records.get(t.replace('batoid::', ''))
        if rec is None:
            names = [str(i) for i in range(len(inner))]
        else:
            names = [f['name'] for f in self.P.fields(t.replace('batoid::', ''))]
        if len(inner) == 1 and inner[0].get('kind') == 'InitListExpr' and rec is None:
            return self.ev(inner[0], st)
        return Rec((names[i] if i < len(names) else str(i), self.ev(e, st)) for i, e in enumerate(inner))

    def ev_CXXConstructExpr(self, n, st):
        inner = n.get('inner', [])
        t = base_type(qual(n)).replace('batoid::', '')
        if t.startswith('std::complex'):
            vs = [self.ev(e, st) for e in inner]
            if len(vs) == 1 and isinstance(vs[0], Rec):
                return vs[0]
            vs += [ZERO] * (2 - len(vs))
            return Rec([('real', vs[0]), ('imag', vs[1])])
        if len(inner) == 1 and base_type(qual(inner[0])).replace('batoid::', '').rstrip('& ') == t:
            return self.ev(inner[0], st)     # copy / move
        rec = self.P.records.get(t)
        if rec is not None:
            vs = [self.ev(e, st) for e in inner]
            for c in self.P.ctor(t):
                if len(params_of(c)) == len(vs):
                    obj = ('obj', ('new', t, id(n), self.nframes))
                    self.call_fn(c, [('val', v) for v in vs], st, obj)
                    items = [(f['name'], self.load_field(obj, f['name'], qual(f), st)) for f in self.P.all_fields(t)]
                    return Rec(items)
            if not vs:
                return Rec([])
        vs = [self.ev(e, st) for e in inner]
        if t.startswith('(lambda') or 'lambda at' in t:
            return vs[0] if vs else self.unk('lambda', n)
        return ('obj', ('new', t, id(n), self.nframes))

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def ev_CXXNewExpr(self, n, st):
        inner = n.get('inner', [])
        t = qual(n)
        if n.get('isArray'):
            for e in inner:
                self.ev(e, st)
            return ('ptr', ('new', id(n)), ZERO)
        cls = base_type(pointee(t)).replace('batoid::', '')
        obj = ('obj', ('new', cls, id(n), self.nframes))
        vs = []
        for e in inner:
            if e.get('kind') == 'CXXConstructExpr':
                vs = [self.ev(a, st) for a in e.get('inner', ())]
        self.event('new', n, cls=cls, args=vs)
        return ('ptr', obj, ZERO)

    def ev_CXXDeleteExpr(self, n, st):
        return None

    def ev_LambdaExpr(self, n, st):
        return Lambda(n, self.frame)

    def ev_UnaryExprOrTypeTraitExpr(self, n, st):
        return T.atom('sizeof', (qual(n),))

    # ----------------------------------------------------------------- calls
    def callee(self, n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            n = n['inner'][0]
        return n

    def opcall_lval(self, n, st):
        c = self.callee(n['inner'][0])
        name = c.get('referencedDecl', {}).get('name', '')
        args = n['inner'][1:]
        if name == 'operator[]' and len(args) == 2:
            b = self.lval(args[0], st)
            i = self.ev(args[1], st)
            v = self.load(b, st, n)
            if isinstance(v, Rec):
                if isinstance(i, R) and T.is_const(i):
                    return ('member', b, str(int(T.cval(i))), qual(n))
            return ('mem', v, i, qual(n))
        if name == 'operator*' and len(args) == 1:
            return ('mem', self.ev(args[0], st), ZERO, qual(n))
        if name == 'operator=' and len(args) == 2:
            v = self.ev(args[1], st)
            b = self.lval(args[0], st)
            self.store(b, v, st, n)
            return b
        return None

    def ev_CXXOperatorCallExpr(self, n, st):
        c = self.callee(n['inner'][0])
        d = c.get('referencedDecl', {})
        name = d.get('name', '')
        args = n['inner'][1:]
        lv = self.opcall_lval(n, st)
        if lv is not None:
            return self.load(lv, st, n)
        if name == 'operator()':
            f = self.ev(args[0], st)
            if isinstance(f, Lambda):
                return self.call_lambda(f, args[1:], st, n)
        decl = self.decl_of(n, d)
        if decl is not None:
            fn = self.definition(decl)
            if fn is not None and decl['kind'] == 'CXXMethodDecl':
                this = self.ev(args[0], st)
                return self.call_fn(fn, self.args(fn, args[1:], st), st, this)
            if fn is not None:
                return self.call_fn(fn, self.args(fn, args, st), st, None)
        vs = [self.ev(a, st) for a in args]
        if all(isinstance(v, R) or isinstance(v, bool) for v in vs) and name[8:] in ('+', '-', '*', '/', '==', '!=', '<', '>'):
            if len(vs) == 2:
                return self.binop(name[8:], vs[0], vs[1], n)
        if name in ('operator==', 'operator!=') and len(vs) == 2:
            self.event('opcall', n, name=name, args=vs)
            r = T.vmap(lambda a, b: T.bool_atom('eq', *sorted((a, b), key=T.show)), vs[0], vs[1])
            return r if name == 'operator==' else T.vnot(r)
        # iterators and other library objects: unknown, but havoc mutated lvalues
        for a in args:
            self.havoc_arg(a, st)
        return self.unk('operator call ' + name, n)

    def havoc_arg(self, a, st):
        if a.get('valueCategory') == 'lvalue' and 'const' not in qual(a):
            try:
                lv = self.lval(a, st)
            except RecursionError:
                return
            if lv[0] == 'var':
                old = st.env.get(lv[1])
                if not (isinstance(old, tuple) and old and old[0] == 'obj'):
                    self.store(lv, self.unk('library object', a), st, a)

    def decl_of(self, n, d):
        u = n['_unit']
        dd = u.by_id.get(d.get('id'))
        if dd is None and d.get('kind') in FUNCS and d.get('name'):
            dd = self.late_decl(u, d)
        return dd

    def late_decl(self, u, d):
        """A function outside namespace batoid (e.g. a file-local helper): fetch its AST on demand."""
        cache = u.__dict__.setdefault('_late', {})
        name = d['name']
        key = (name, d.get('type', {}).get('qualType'))
        if key in cache:
            return cache[key]
        cache[key] = None
        if not in_repo_text(u, name):
            return None
        import subprocess, os
        from . import cfront
        cmd = [cfront.clang(), '-std=c++14', '-fsyntax-only', '-w', '-fopenmp', '-I' + os.path.join(self.P.repo, 'include'),
               '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + name, u.path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if p.returncode:
            return None
        import json
        s = p.stdout.decode(); dec = json.JSONDecoder(); i = 0; docs = []
        while i < len(s):
            while i < len(s) and s[i].isspace():
                i += 1
            if i >= len(s):
                break
            x, i = dec.raw_decode(s, i)
            docs.append(x)
        for x in docs:
            if x.get('name') == name and x.get('kind') in FUNCS and body_of(x) is not None and \
                    x.get('type', {}).get('qualType') == key[1]:
                u2 = Unit(u.path, [x])
                self.P.defs.setdefault(x.get('mangledName', name), x)
                self.P.qname.setdefault(x.get('mangledName', name), name)
                cache[key] = x
                return x
        return None

    def definition(self, decl):
        m = decl.get('mangledName') or decl.get('name')
        return self.P.defs.get(m)

    def args(self, fn, exprs, st):
        out = []
        ps = params_of(fn)
        for i, e in enumerate(exprs):
            t = qual(ps[i]) if i < len(ps) else ''
            if e.get('kind') == 'CXXDefaultArgExpr' and not e.get('inner'):
                pd = ps[i]
                dv = [c for c in pd.get('inner', ())]
                out.append(('val', self.ev(dv[0], st) if dv else self.unk('default arg', e)))
                continue
            if is_ref(t) and not is_const_ref(t):
                out.append(('ref', self.lval(e, st)))
            else:
                v = self.ev(e, st)
                out.append(('val', self.conv(v, t) if t else v))
        return out

    def call_fn(self, fn, args, st, this, frame_parent=None):
        if self.depth > MAXDEPTH:
            return self.unk('inlining bound', fn)
        self.depth += 1
        self.nframes += 1
        fr = self.nframes
        self.frames[fr] = frame_parent
        old = self.frame
        self.inlined.add(self.P.qname.get(fn.get('mangledName'), fn.get('name')))
        self.thisobj.append(this if this is not None or frame_parent is None else self.thisobj[-1])
        ps = params_of(fn)
        for p, a in zip(ps, args):
            st.env[(fr, p['id'])] = ('ref', a[1]) if a[0] == 'ref' else a[1]
        for p in ps[len(args):]:
            dv = p.get('inner') or []
            st.env[(fr, p['id'])] = self.ev(dv[0], st) if dv else self.unk('default arg', p)
        self.frame = fr
        saved = st.ret, st.retval, st.brk, st.cont
        st.ret, st.retval, st.brk, st.cont = False, None, False, False
        try:
            if fn.get('kind') == 'CXXConstructorDecl':
                self.ctor_inits(fn, st, this)
            b = body_of(fn)
            if b is not None:
                self.exec(b, st)
            out = st.retval
        finally:
            self.depth -= 1
            self.frame = old
            self.thisobj.pop()
            st.ret, st.retval, st.brk, st.cont = saved
        return out

    def call_lambda(self, lam, args, st, n):
        op = None
        for c in walk(lam.node):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                op = c
                break
        if op is None:
            return self.unk('lambda', n)
        body = body_of(op)
        if body is None:
            bs = [c for c in lam.node.get('inner', ()) if c.get('kind') == 'CompoundStmt']
            if not bs:
                return self.unk('lambda body', n)
            op = dict(op)
            op['inner'] = list(op.get('inner', ())) + [bs[0]]
        a = self.args(op, args, st)
        return self.call_fn(op, a, st, None, frame_parent=lam.frame)

    def ev_CallExpr(self, n, st):
        c = self.callee(n['inner'][0])
        args = n['inner'][1:]
        d = c.get('referencedDecl', {})
        name = d.get('name', '')
        if d.get('kind') in ('VarDecl', 'ParmVarDecl'):
            f = self.ev(c, st)
            if isinstance(f, Lambda):
                return self.call_lambda(f, args, st, n)
        decl = self.decl_of(n, d)
        if decl is not None:
            fn = self.definition(decl)
            q = self.P.qname.get(decl.get('mangledName'), name)
            if fn is not None and q not in self.opaque and name not in self.opaque:
                return self.call_fn(fn, self.args(fn, args, st), st, None)
            return self.opaque_call(q, decl, None, args, st, n)
        return self.std_call(name, args, st, n)

    def std_call(self, name, args, st, n):
        nm = {'__builtin_nanf': 'nan', '__builtin_nan': 'nan', 'quiet_NaN': 'nan', 'nanf': 'nan', 'nan': 'nan',
              'signaling_NaN': 'nan', 'infinity': 'inf', '__builtin_inf': 'inf', '__builtin_huge_val': 'inf',
              'fabs': 'abs', 'atan2': 'arctan2', 'atan': 'arctan', 'asin': 'arcsin', 'acos': 'arccos',
              '__builtin_isnan': 'isnan', '__isnan': 'isnan'}.get(name, name)
        if nm in ('nan', 'inf'):
            return T.atom(nm)
        if nm in ('swap',) and len(args) == 2:
            a, b = self.lval(args[0], st), self.lval(args[1], st)
            va, vb = self.load(a, st, n), self.load(b, st, n)
            self.store(a, vb, st, n)
            self.store(b, va, st, n)
            return None
        vs = [self.ev(a, st) for a in args]
        if nm in ('move', 'forward', 'as_const') and len(vs) == 1:
            return vs[0]
        if nm in ('max', 'fmax') and len(vs) == 2:
            return T.ite(T.vlt(vs[0], vs[1]), vs[1], vs[0])
        if nm in ('min', 'fmin') and len(vs) == 2:
            return T.ite(T.vlt(vs[1], vs[0]), vs[1], vs[0])
        if nm in ('isnan',):
            return T.vmap(lambda l: isnan(l), vs[0])
        if nm in ('isfinite',):
            return T.vmap(lambda l: T.bool_atom('isfinite', l), vs[0])
        if nm == 'copysign' and len(vs) == 2:
            m = T.vfn('abs', vs[0])
            return T.ite(T.vlt(vs[1], ZERO), T.vneg(m), m)
        if nm == 'fma' and len(vs) == 3:
            return T.vadd(T.vmul(vs[0], vs[1]), vs[2])
        if nm in ('sqrt', 'abs', 'hypot', 'sin', 'cos', 'tan', 'arctan2', 'arctan', 'arcsin', 'arccos', 'exp', 'log',
                  'pow', 'floor', 'ceil', 'sinh', 'cosh', 'tanh', 'cbrt', 'copysign', 'round', 'trunc', 'log10', 'expm1',
                  'log1p', 'fmod', 'remainder', 'norm'):
            if nm == 'hypot' and len(vs) == 3:
                return T.vfn('sqrt', T.vadd(T.vadd(T.vmul(vs[0], vs[0]), T.vmul(vs[1], vs[1])), T.vmul(vs[2], vs[2])))
            return T.vfn(nm, *vs)
        if nm in ('fill', 'fill_n', 'copy', 'copy_n', 'sort', 'begin', 'end', 'printf', 'accumulate', 'reverse'):
            self.event('libcall', n, name=nm, args=vs)
            return self.unk('library call ' + nm, n)
        for a in args:
            self.havoc_arg(a, st)
        self.event('libcall', n, name=nm, args=vs)
        return self.unk('call to ' + name, n)

    def ev_CXXMemberCallExpr(self, n, st):
        m = n['inner'][0]
        while m.get('kind') == 'ParenExpr':
            m = m['inner'][0]
        args = n['inner'][1:]
        name = m.get('name', '')
        base = m['inner'][0] if m.get('inner') else None
        u = n['_unit']
        decl = u.by_id.get(m.get('referencedMemberDecl'))
        if base is None:
            return self.unk('member call', n)
        if m.get('isArrow'):
            obj = self.deref_obj(self.ev(base, st))
        else:
            obj = self.load(self.lval(base, st), st, n) if base.get('valueCategory') in ('lvalue', 'xvalue') else self.ev(base, st)
            obj_lv = None
        if decl is None:
            return self.lib_method(name, obj, base, args, st, n)
        return self.method_call(decl, m, obj, args, st, n)

    def lib_method(self, name, obj, base, args, st, n):
        vs = [self.ev(a, st) for a in args]
        if name == 'data' and not vs:
            return T.vmap(lambda o: ('ptr', o, ZERO) if isinstance(o, tuple) and o[0] == 'obj' else self.unk('data()', n), obj)
        if name in ('real', 'imag') and isinstance(obj, Rec):
            if not vs:
                return obj.get(name)
            lv = self.lval(base, st)
            self.store(lv, obj.put(name, vs[0]), st, n)
            return None
        if name == 'at' and len(vs) == 1:
            return self.load(('mem', obj, vs[0], qual(n)), st, n)
        if name == 'get' and not vs:
            return T.vmap(lambda o: ('ptr', o, ZERO) if isinstance(o, tuple) and o[0] == 'obj' else self.unk('get()', n), obj)
        if name == 'size' and not vs:
            return T.vmap(lambda o: T.flag(T.atom('size', (o,)), 'int'), obj)
        self.event('libcall', n, name=name, args=vs, obj=obj)
        self.havoc_arg(base, st)
        return self.unk('library method ' + name, n)

    def is_virtual(self, decl):
        return bool(decl.get('virtual')) or decl.get('pure') or any(
            c.get('kind') == 'OverrideAttr' for c in decl.get('inner', ()))

    def root_name(self, cls, name):
        """Qualified name of the top-most base declaring the method."""
        best = cls
        todo = [cls]
        while todo:
            c = todo.pop()
            for b in self.P.bases(c):
                r = self.P.records.get(b)
                if r and any(x.get('name') == name for x in r.get('inner', ())):
                    best = b
                todo.append(b)
        return '%s::%s' % (best, name)

    def method_call(self, decl, m, obj, args, st, n):
        name = decl.get('name')
        cls = decl.get('_clsname') or (decl.get('_parent') or {}).get('_cls') or (decl.get('_parent') or {}).get('name')
        if cls and cls.startswith('DualView') and name in ('syncToDevice', 'syncToHost'):
            self.event('sync', n, which=name, obj=obj)
            return None
        virt = self.is_virtual(decl)
        qualified = False
        if virt:
            b, e = m.get('_beg'), m.get('_end')
            if b and e and b[0] == e[0] and m.get('_unit').src(b[0])[b[2]:e[2]].rstrip().endswith(b'::'):
                qualified = True
        if name == 'getDevPtr' and not args:
            self.event('getdevptr', n, obj=obj)
            return T.vmap(lambda o: ('ptr', o, ZERO), obj)

        # one call per leaf object
        if isinstance(obj, V):
            outs = []
            lv = list(T.leaves(obj))
            res = None
            for path, o in lv:
                c = True
                for a, b in path:
                    c = T.vand(c, T.bool_atom_v(a) if b else T.vnot(T.bool_atom_v(a)))
                s2 = st.copy()
                v = self.under(c, lambda: self.method_call(decl, m, o, args, s2, n))
                outs.append((c, v, s2))
            acc_v, acc_s = outs[-1][1], outs[-1][2]
            for c, v, s2 in reversed(outs[:-1]):
                acc_v = T.ite(c, v, acc_v) if not (v is None and acc_v is None) else None
                acc_s = self.merge(c, s2, acc_s)
            st.take(acc_s)
            return acc_v
        fn = None
        key = self._okey(obj) if not isinstance(obj, Rec) else None
        if not virt or qualified:
            fn = self.definition(decl)
        else:
            try:
                dc = self.dyn.get(key)
            except TypeError:
                dc = None
            if dc:
                fn = self.P.method(dc, name)
        q = self.P.qname.get((fn or decl).get('mangledName')) or '%s::%s' % (cls, name)
        if fn is not None and q not in self.opaque and self.root_name(cls, name) not in self.opaque:
            return self.call_fn(fn, self.args(fn, args, st), st, obj)
        if not virt or qualified:
            qn = q
        else:
            qn = self.root_name(cls, name)
        return self.opaque_call(qn, decl, obj, args, st, n)

    def opaque_call(self, q, decl, obj, args, st, n):
        ps = params_of(decl)
        vals = []
        outs = []
        for i, e in enumerate(args):
            t = qual(ps[i]) if i < len(ps) else ''
            if is_ref(t) and not is_const_ref(t) and is_scalar(t.rstrip()[:-1].strip()):
                lv = self.lval(e, st)
                v = self.load(lv, st, n) if not (lv[0] == 'var' and st.env.get(lv[1], UNDEF) is UNDEF) else ('undef',)
                vals.append(v)
                outs.append((i, lv))
            else:
                vals.append(self.conv(self.ev(e, st), t))
        rt = qual(decl).split('(')[0].strip()
        self.event('call', n, name=q, obj=obj, args=vals)
        key_args = [('undef',) if (i in [o[0] for o in outs] and isinstance(v, tuple)) else v for i, v in enumerate(vals)]
        if obj is not None:
            key_args = [obj] + key_args
        res = None
        if is_bool(rt):
            res = T.vmap(lambda *ls: T.bool_atom(q, *ls), *key_args)
        elif rt == 'void':
            res = None
        elif is_scalar(rt):
            res = T.vmap(lambda *ls: T.atom(q, ls), *key_args)
        elif is_ptr(rt):
            res = T.vmap(lambda *ls: ('ptr', ('obj', ('ret', q, ls)), ZERO), *key_args)
        else:
            res = T.vmap(lambda *ls: ('obj', ('ret', q, ls)), *key_args)
        for i, lv in outs:
            # pure outputs do not depend on their own incoming value unless it is defined
            ka = [a for j, a in enumerate(key_args)]
            if q.split('::')[-1] in ('normal', 'grad', 'getCoefs'):
                ka = [('undef',) if (j - (1 if obj is not None else 0)) in [o[0] for o in outs] else a for j, a in enumerate(ka)]
            self.store(lv, T.vmap(lambda *ls: T.atom('%s#%d' % (q, i), ls), *ka), st, n)
        return res

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        if n is None or not n.get('kind'):
            return
        k = n['kind']
        if k == 'CompoundStmt':
            for c in n.get('inner', ()):
                self.exec_gated(c, st)
            return
        m = getattr(self, 'ex_' + k, None)
        if m:
            return m(n, st)
        if k.startswith('OMP') and k.endswith('Directive'):
            return self.ex_omp(n, st)
        if k in ('NullStmt', 'AttributedStmt'):
            for c in n.get('inner', ()):
                self.exec(c, st)
            return
        self.ev(n, st)

    def exec_gated(self, n, st):
        stop = T.vor(st.ret, T.vor(st.brk, st.cont))
        if stop is True:
            return
        if stop is False:
            return self.exec(n, st)
        s2 = st.copy()
        s2.ret = s2.brk = s2.cont = False
        live = T.vnot(stop)
        self.under(live, lambda: self.exec(n, s2))
        s2.ret = T.vand(live, s2.ret)
        s2.brk = T.vand(live, s2.brk)
        s2.cont = T.vand(live, s2.cont)
        m = self.merge(stop, st, s2)
        m.ret, m.brk, m.cont = T.vor(st.ret, s2.ret), T.vor(st.brk, s2.brk), T.vor(st.cont, s2.cont)
        st.take(m)

    def merge(self, c, a, b):
        """state if c then a else b"""
        if c is True:
            return a
        if c is False:
            return b
        s = State()

        def mg(x, y):
            if x is UNDEF or (isinstance(x, tuple) and x == UNDEF):
                return y
            if y is UNDEF or (isinstance(y, tuple) and y == UNDEF):
                return x
            if x is y:
                return x
            return T.ite(c, x, y)
        for k in a.env.keys() | b.env.keys():
            if k not in a.env:
                s.env[k] = b.env[k]
            elif k not in b.env:
                s.env[k] = a.env[k]
            else:
                s.env[k] = mg(a.env[k], b.env[k])
        for k in a.fields.keys() | b.fields.keys():
            if k in a.fields and k in b.fields:
                s.fields[k] = mg(a.fields[k], b.fields[k])
            else:
                v = a.fields.get(k, b.fields.get(k))
                # unwritten side: initial content
                init = self.initial_field(k, v)
                s.fields[k] = mg(a.fields.get(k, init), b.fields.get(k, init))
        for base in a.mem.keys() | b.mem.keys():
            la, lb = a.mem.get(base, []), b.mem.get(base, [])
            common = 0
            while common < len(la) and common < len(lb) and la[common] is lb[common]:
                common += 1
            out = list(la[:common])
            rest = la[common:] + lb[common:]
            if any(e[0] != 'at' for e in rest):
                if not la[common:] or not lb[common:]:
                    # a loop summary on one side only
                    ok = True
                    for e in rest:
                        if e[0] == 'all':
                            _, kk, n_, f, val = e
                            t = self._elem_type(val)
                            other = self.mem_get(base, f, t, b if la[common:] else a, None)
                            out.append(('all', kk, n_, f, T.ite(c, val, other) if la[common:] else T.ite(c, other, val)))
                        elif e[0] == 'at':
                            other = self.mem_get(base, e[1], self._elem_type(e[2]), b if la[common:] else a, None)
                            out.append(('at', e[1], T.ite(c, e[2], other) if la[common:] else T.ite(c, other, e[2])))
                        else:
                            out.append(e)
                    s.mem[base] = out
                    continue
                out.append(('havoc',))
                s.mem[base] = out
                continue
            idxs = []
            for e in rest:
                if not any(T.req(e[1], i) for i in idxs):
                    idxs.append(e[1])
            for i in idxs:
                t = 'double'
                for e in rest:
                    if T.req(e[1], i):
                        t = self._elem_type(e[2])
                va = self.mem_get(base, i, t, a, None)
                vb = self.mem_get(base, i, t, b, None)
                out.append(('at', i, T.ite(c, va, vb)))
            s.mem[base] = out
        s.ret = T.ite(c, a.ret, b.ret)
        s.brk = T.ite(c, a.brk, b.brk)
        s.cont = T.ite(c, a.cont, b.cont)
        if a.retval is None and a.ret is False:
            s.retval = b.retval
        elif b.retval is None and b.ret is False:
            s.retval = a.retval
        elif a.retval is None and b.retval is None:
            s.retval = None
        else:
            # before returning, retval is irrelevant: choose by who returned
            if a.ret is False:
                s.retval = b.retval
            elif b.ret is False:
                s.retval = a.retval
            else:
                s.retval = T.ite(c, a.retval, b.retval)
        return s

    def _elem_type(self, v):
        l = v
        while isinstance(l, V):
            l = l.hi
        if isinstance(l, bool):
            return 'bool'
        if isinstance(l, tuple) and l and l[0] == 'ptr':
            return 'void *'
        return 'double'

    def initial_field(self, key, like):
        t = self._elem_type(like)
        l = like
        while isinstance(l, V):
            l = l.hi
        if t == 'bool':
            return self.default_field(key[0], key[1], 'bool')
        if t == 'void *' or l is None:
            return ('ptr', ('obj', ('f', key[0], key[1])), ZERO)
        return self.default_field(key[0], key[1], 'double')

    def ex_DeclStmt(self, n, st):
        for d in n.get('inner', ()):
            if d.get('kind') == 'CXXRecordDecl' and d.get('completeDefinition') and d.get('name'):
                self.P.records.setdefault(d['name'], d)
            if d.get('kind') != 'VarDecl':
                continue
            key = (self.frame, d['id'])
            t = qual(d)
            init = [c for c in d.get('inner', ()) if c.get('kind', '').endswith(('Expr', 'Operator', 'Literal', 'Cleanups'))]
            if not init:
                if is_ptr(t) and base_type(t).endswith(']'):
                    st.env[key] = ('ptr', ('local',) + key, ZERO)
                else:
                    st.env[key] = UNDEF
                    if base_type(t).replace('batoid::', '') in self.P.records:
                        st.env[key] = Rec([])
                continue
            e = init[-1]
            if is_ref(t):
                lv = self.lval(e, st)
                if lv[0] == 'tmp':
                    st.env[key] = lv[1]
                else:
                    st.env[key] = ('ref', lv)
                continue
            v = self.ev(e, st)
            if isinstance(v, Rec) and base_type(t).endswith(']'):
                base = ('local',) + key
                for kk, x in v.items:
                    st.mem.setdefault(base, []).append(('at', T.const(int(kk)), x))
                v = ('ptr', base, ZERO)
            st.env[key] = self.conv(v, t)

    def ex_IfStmt(self, n, st):
        inner = list(n.get('inner', ()))
        if n.get('hasInit'):
            self.exec(inner.pop(0), st)
        if n.get('hasVar'):
            self.exec(inner.pop(0), st)
        c = T.truthv(self.ev(inner[0], st))
        then = inner[1]
        els = inner[2] if len(inner) > 2 else None
        if c is True:
            return self.exec(then, st)
        if c is False:
            return self.exec(els, st) if els else None
        a, b = st.copy(), st.copy()
        self.under(c, lambda: self.exec(then, a))
        if els:
            self.under(T.vnot(c), lambda: self.exec(els, b))
        st.take(self.merge(c, a, b))

    def ex_SwitchStmt(self, n, st):
        self.ev(n['inner'][0], st)
        self.unk('switch', n)

    def ex_ReturnStmt(self, n, st):
        v = self.ev(n['inner'][0], st) if n.get('inner') else None
        st.retval = v
        st.ret = True
        self.event('return', n, value=v)

    def ex_BreakStmt(self, n, st):
        st.brk = True

    def ex_ContinueStmt(self, n, st):
        st.cont = True

    def ex_CXXTryStmt(self, n, st):
        self.exec(n['inner'][0], st)

    def ex_omp(self, n, st):
        text = n['_unit'].snippet(n)
        # pragma text: from the directive's begin to the first line not continued
        pr = pragma_text(n)
        body = None
        for c in walk(n):
            if c.get('kind') == 'CapturedDecl':
                body = c['inner'][0]
                # nested captures: go to the innermost loop
                while body.get('kind') == 'CapturedStmt':
                    body = body['inner'][0]['inner'][0]
                break
        if body is None:
            body = (n.get('inner') or [None])[-1]
        ev = self.event('omp', n, pragma=pr)
        self._omp = (pr, n)
        try:
            self.exec(body, st)
        finally:
            self._omp = None

    _omp = None

    def ex_ForStmt(self, n, st):
        inner = n['inner']
        init, _, cond, inc, body = (list(inner) + [None] * 5)[:5]
        if init and init.get('kind'):
            self.exec(init, st)
        self.loop(n, cond if cond and cond.get('kind') else None, inc if inc and inc.get('kind') else None, body, st)

    def ex_WhileStmt(self, n, st):
        inner = n['inner']
        self.loop(n, inner[-2], None, inner[-1], st)

    def ex_DoStmt(self, n, st):
        self.exec(n['inner'][0], st)
        st.brk = st.cont = False
        self.loop(n, n['inner'][1], None, n['inner'][0], st)

    def ex_CXXForRangeStmt(self, n, st):
        if self.listed_range(n, st):
            return
        self.unk('range for', n)
        for c in walk(n):
            if c.get('kind') in ('BinaryOperator', 'CompoundAssignOperator') and c.get('opcode', '').endswith('=') and \
                    c.get('opcode') not in ('==', '!=', '<=', '>='):
                try:
                    lv = self.lval(c['inner'][0], st)
                    if lv[0] == 'var':
                        st.env[lv[1]] = self.unk('range for', n)
                except Exception:
                    pass

    def listed_range(self, n, st):
        """for (T v : {a, b, c}) and for (T v : array) with a written-out initialiser: unrolled."""
        ds = [c for c in n.get('inner', ()) if c.get('kind') == 'DeclStmt']
        if len(ds) < 2 or not n['inner'][-1].get('kind'):
            return False
        rng = (ds[0].get('inner') or [{}])[0]
        var = (ds[-1].get('inner') or [{}])[0]
        e = (rng.get('inner') or [None])[0]
        while e is not None and e.get('kind') in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXStdInitializerListExpr', 'ImplicitCastExpr',
                                                  'CXXBindTemporaryExpr', 'CXXFunctionalCastExpr') and e.get('inner'):
            e = e['inner'][0]
        if e is None or var.get('kind') != 'VarDecl':
            return False
        isref = is_ref(qual(var))
        vals = []
        if e.get('kind') == 'InitListExpr':
            for x in e.get('inner', ()):
                vals.append(('ref', self.lval(x, st)) if isref and x.get('valueCategory') == 'lvalue' else self.ev(x, st))
        elif e.get('kind') == 'DeclRefExpr' and not isref:
            v = self.load(self.lval(e, st), st, e)
            if not isinstance(v, Rec):
                return False
            vals = list(v.sub_values())
        else:
            return False
        if len(vals) > 64:
            return False
        for v in vals:
            st.env[(self.frame, var['id'])] = v
            self.exec_gated(n['inner'][-1], st)
            st.cont = False
        st.brk = False
        return True

    # ------------------------------------------------------------------ loops
    def loop(self, n, cond, inc, body, st):
        omp = self._omp
        self._omp = None
        # 1. constant trip count: unroll
        if not omp:
            probe = st.copy()
            nev, nlo, nun = len(self.events), len(self.loops), len(self.unknowns)
            for it in range(33):
                c = T.truthv(self.ev(cond, probe)) if cond else True
                if c is False:
                    if it <= 32:
                        st.take(probe)
                        return
                if c is not True or it == 32:
                    break
                self.exec(body, probe)
                if probe.brk is True:
                    probe.brk = probe.cont = False
                    st.take(probe)
                    return
                if probe.brk is not False or probe.ret is not False:
                    break
                probe.cont = False
                if inc:
                    self.ev(inc, probe)
            del self.events[nev:]
            del self.loops[nlo:]
            del self.unknowns[nun:]
        # 2. symbolic summary
        self.sym_loop(n, cond, inc, body, st, omp)

    def _leafnum(self, v):
        """numeric part used for induction reasoning: R or pointer offset"""
        if isinstance(v, R):
            return v
        if isinstance(v, tuple) and v and v[0] == 'ptr' and isinstance(v[2], R):
            return v[2]
        return None

    def sym_loop(self, n, cond, inc, body, st, omp):
        k = T.fresh_idx('k')
        ki = T.single_atom(k)
        rec = dict(id=len(self.loops) + 1000 * 0, node=n, k=k, omp=omp[0] if omp else None, ompnode=omp[1] if omp else None,
                   guard=self.guard, events=None, n=None, shared={}, decided=True)
        self.loops.append(rec)
        rec['id'] = len(self.loops) - 1
        frame0 = self.nframes
        entry = st.copy()
        changed = set()          # env keys assigned in the body
        fchanged = set()
        membases = set()
        n_ev = len(self.events)
        n_unk = len(self.unknowns)
        closed = {}
        for attempt in range(8):
            del self.events[n_ev:]
            del self.unknowns[n_unk:]
            s = entry.copy()
            phis = {}
            for key in changed:
                phis[('e', key)] = s.env[key] = self.phi(s.env.get(key, UNDEF), ('e', key), n)
            for key in fchanged:
                init = s.fields.get(key)
                if init is None:
                    init = self.initial_field(key, ZERO)
                phis[('f', key)] = s.fields[key] = self.phi(init, ('f', key), n)
            for b in membases:
                s.mem.setdefault(b, [])
            before = s.copy()
            self.loopstack.append(rec)
            try:
                c = T.truthv(self.ev(cond, s)) if cond else True
                s.ret = s.brk = s.cont = False
                oldg = self.guard
                self.guard = True
                self.exec(body, s)
                brk, ret = s.brk, s.ret
                rv = s.retval
                s.cont = False
                s.brk = s.ret = False
                if inc:
                    self.ev(inc, s)
                self.guard = oldg
            finally:
                self.loopstack.pop()
            ch = {q for q in s.env if q in before.env and s.env[q] is not before.env[q] and not T.veq(s.env[q], before.env[q])}
            ch |= {q for q in s.env if q in entry.env and q not in before.env}
            fch = {q for q in s.fields if not (q in before.fields and T.veq(s.fields[q], before.fields[q]))}
            mch = {b for b in s.mem if s.mem[b] != before.mem.get(b, [])}
            if ch <= changed and fch <= fchanged and mch <= membases:
                break
            changed |= ch
            fchanged |= fch
            membases |= mch
        ends = {}
        for key in changed:
            ends[('e', key)] = s.env[key]
        for key in fchanged:
            ends[('f', key)] = s.fields[key]
        inits = {p: (entry.env.get(p[1], UNDEF) if p[0] == 'e' else entry.fields.get(p[1], self.initial_field(p[1], ZERO)))
                 for p in ends}
        # only variables that existed before the loop matter afterwards
        outer = {p for p in ends if p[0] == 'f' or p[1] in entry.env}
        # -------- solve recurrences: value at iteration k
        valk = {}
        phinum = {}
        for p, ph in phis.items():
            l = self._leafnum(ph)
            if l is not None and T.single_atom(l) is not None:
                phinum[T.single_atom(l)] = p
            elif isinstance(ph, V):
                phinum[ph.c] = p
        unsolved = dict(ends)
        sub = {}
        kinds = {}
        post = {}
        trip = None
        for rounds in range(len(ends) + 2):
            progress = False
            for p in list(unsolved):
                if p not in phis:
                    continue
                r = self.solve(p, phis[p], vsub(unsolved[p], sub), inits[p], k, phinum)
                if r is not None:
                    kind, at_k = r
                    kinds[p] = kind
                    valk[p] = at_k
                    a = self._phi_atom(phis[p])
                    if a is not None:
                        sub[a] = self._leafnum(at_k) if self._leafnum(at_k) is not None else at_k
                    del unsolved[p]
                    progress = True
            if not progress:
                break
        cond_k = vsub(c, sub)
        trip = self.trip(cond_k, k, n)
        brk_k = vsub(brk, sub)
        ret_k = vsub(ret, sub)
        rec['n'] = trip
        rec['brk'], rec['ret'] = brk_k, ret_k
        # accumulators
        for p in list(unsolved):
            if p not in phis:
                continue
            end = vsub(unsolved[p], sub)
            r = self.accumulate(p, phis[p], end, inits[p], k, trip, phinum)
            if r is not None:
                post[p] = r
                kinds[p] = 'acc'
                del unsolved[p]
        early = not (brk_k is False and ret_k is False)
        for p in ends:
            if p in post:
                continue
            if p in valk and trip is not None and not early:
                v = valk[p]
                post[p] = T.vsubst(v, {ki: trip}) if not isinstance(v, tuple) else self._ptr_subst(v, ki, trip)
            elif p in valk and trip is not None and early and ret_k is False and len(outer) == 1 and p in outer:
                # pure search loop: index of the first iteration whose test holds
                d, b = T.close(k, brk_k)
                idx = T.flag(T.atom('first', (d, trip, b)), 'int', 'nonneg')
                post[p] = T.vsubst(valk[p], {ki: idx})
            else:
                if inits[p] is UNDEF:
                    post[p] = UNDEF
                else:
                    post[p] = self.unk('value after loop', n)
        # congruence: v = f(w) maintained by the loop
        self.invariants(phis, ends, inits, post, unsolved, sub)
        # events inside the loop: rewrite phis to closed forms
        for e in self.events[n_ev:]:
            for f in ('value', 'idx', 'guard', 'args', 'obj'):
                if f in e and e[f] is not None:
                    v = e[f]
                    if isinstance(v, list):
                        e[f] = [vsub(x, sub) for x in v]
                    else:
                        e[f] = vsub(v, sub)
        rec['events'] = self.events[n_ev:]
        rec['shared'] = {p: (ends[p], phis.get(p)) for p in outer}
        rec['kinds'] = kinds
        rec['undecided'] = [p for p in unsolved if p in outer]
        # -------- memory
        memout = {}
        for b in membases:
            if isinstance(b, tuple) and len(b) > 2 and b[0] == 'local' and isinstance(b[1], int) and b[1] > frame0:
                continue                     # storage of a function called by the body: a new object on every call
            writes = [e for e in rec['events'] if e['kind'] == 'store' and e['base'] == b]
            reads = [e for e in rec['events'] if e['kind'] == 'load' and e['base'] == b]
            idxs = []
            for e in writes:
                if not any(T.req(e['idx'], i) for i in idxs):
                    idxs.append(e['idx'])
            carried = False
            for w in idxs:
                lw = self.linear(w, ki)
                if lw is None:
                    carried = True
                    break
                for e in reads + writes:
                    d = T.rsub(e['idx'], w)
                    if not d.num:
                        continue
                    le = self.linear(e['idx'], ki)
                    if le is None or not T.req(le[0], lw[0]):
                        carried = True
                        break
                    # same stride: overlap iff difference is a multiple of the stride
                    q = T.rdiv(d, lw[0])
                    if T.is_const(q) and T.cval(q).denominator != 1:
                        continue
                    carried = True
                    break
            lst = list(entry.mem.get(b, []))
            if carried or early or trip is None or self.P is None:
                if carried:
                    rec.setdefault('carried', []).append(b)
                lst.append(('havoc',))
            else:
                for w in idxs:
                    val = None
                    for e in reversed(s.mem.get(b, [])):
                        if e[0] == 'at':
                            iv = vsub(e[1], sub)
                            if isinstance(iv, R) and T.req(iv, w):
                                val = vsub(e[2], sub)
                                break
                    if val is None:
                        lst.append(('havoc',))
                    else:
                        lst.append(('all', k, trip, w, val))
            memout[b] = lst
        st.take(entry)
        for p, v in post.items():
            if p not in outer:
                continue
            if p[0] == 'e':
                st.env[p[1]] = v
            else:
                st.fields[p[1]] = v
        for b, lst in memout.items():
            st.mem[b] = lst
        if ret_k is not False:
            # return from inside: canonical existential when the value is loop-invariant
            if trip is not None and rv is not None and ki not in T.all_atoms(vsub(rv, sub)) and \
                    not any(a in T.all_atoms(vsub(rv, sub)) for a in phinum if a not in sub) and brk_k is False and \
                    not any(a in T.all_atoms(ret_k) for a in phinum if a not in sub):
                anyc = T.mkany(k, trip, ret_k)
                st.ret = T.vor(st.ret, anyc)
                st.retval = vsub(rv, sub)
                if anyc is not True and st.retval is not None:
                    pass
            else:
                st.ret = T.vor(st.ret, T.truthv(T.bool_atom('unknown', 'loop return', T.unknown('loop return'))))
                st.retval = self.unk('value returned from loop', n)
        return

    def _ptr_subst(self, v, ki, trip):
        return (v[0], v[1], T.vsubst(v[2], {ki: trip})) if v and v[0] == 'ptr' else v

    def _phi_atom(self, ph):
        l = self._leafnum(ph)
        if l is not None:
            return T.single_atom(l)
        if isinstance(ph, V):
            return ph.c
        return None

    def phi(self, init, key, n):
        l = init
        while isinstance(l, V):
            l = l.hi
        tag = 'phi'
        T._fresh[0] += 1
        if isinstance(l, bool):
            return T.bool_atom(tag, T._fresh[0])
        if isinstance(l, tuple) and l and l[0] == 'ptr' and not isinstance(init, V):
            return ('ptr', l[1], T.flag(T.atom(tag, (T._fresh[0],)), 'int'))
        if isinstance(l, R) or l is UNDEF or l is None:
            return T.atom(tag, (T._fresh[0],))
        if isinstance(l, Rec):
            return Rec((f, self.phi(v, key, n)) for f, v in l.items)
        return T.atom(tag, (T._fresh[0],))

    def solve(self, p, ph, end, init, k, phinum):
        """Value at the start of iteration k, or None."""
        ki = T.single_atom(k)
        pa = self._phi_atom(ph)
        if pa is None:
            return None
        atoms = T.all_atoms(end) if not isinstance(end, tuple) else T.all_atoms(end[2]) if end and end[0] == 'ptr' else set()
        open_phis = {a for a in atoms if a in phinum}
        e, i0 = self._leafnum(end), self._leafnum(init) if init is not UNDEF else None
        phn = self._leafnum(ph)
        if phn is not None and e is not None and i0 is not None and not (open_phis - {pa}):
            d = T.rsub(e, phn)
            if pa not in T.all_atoms(d) and ki not in T.all_atoms(d):
                v = T.radd(i0, T.rmul(k, d))
                return ('ind', ('ptr', ph[1], v) if isinstance(ph, tuple) and ph[0] == 'ptr' else v)
            q = T.rdiv(e, phn)
            if pa not in T.all_atoms(q) and ki not in T.all_atoms(q):
                return ('geo', T.rmul(i0, T.ipow(q, k)))
        if not open_phis and not isinstance(end, tuple):
            # last-assigned value: end depends on k only
            if init is UNDEF:
                prev = T.vsubst(end, {ki: T.rsub(k, ONE)})
                return ('last', prev)
            prev = T.vsubst(end, {ki: T.rsub(k, ONE)})
            if not isinstance(init, (V, tuple)) and T.veq(vsub(prev, {ki: ZERO}), init):
                return ('last', prev)
            if isinstance(prev, V) or isinstance(init, V) or type(prev) is type(init):
                return ('last', T.ite(T.eq0(k), init, prev))
        return None

    def trip(self, cond, k, n):
        """Number of iterations as an R, from the loop test in terms of k."""
        ki = T.single_atom(k)
        if not isinstance(cond, V) or {cond.hi, cond.lo} != {True, False}:
            # conjunction with a recognisable bound: take the first bound conjunct
            return None
        name, args = T.ATOMS[cond.c]
        pos = cond.hi is True
        if name == 'gt0' and isinstance(args[0], R):
            lin = self.linear(args[0], ki)
            if lin is None or not T.is_const(lin[0]):
                return None
            a, rest = T.cval(lin[0]), lin[1]
            if pos and a < 0:
                # a*k + rest > 0  -> k < rest/-a
                if a == -1 or True:
                    t = T.rdiv(rest, T.const(-a))
                    return t if a == -1 or T.is_const(t) or all(c.denominator == 1 for c in t.num.values()) else T.atom('ceil', (t,))
            if not pos and a > 0:
                # a*k + rest <= 0 -> k <= -rest/a -> n = floor(-rest/a)+1
                t = T.rdiv(T.rneg(rest), T.const(a))
                if a == 1:
                    return T.radd(t, ONE)
                return T.radd(T.fn('floor', t), ONE)
            return None
        if name == 'eq0' and not pos and isinstance(args[0], R):
            lin = self.linear(args[0], ki)
            if lin is None or not T.is_const(lin[0]):
                return None
            return T.rdiv(T.rneg(lin[1]), lin[0])
        return None

    def accumulate(self, p, ph, end, init, k, trip, phinum):
        if trip is None or init is UNDEF:
            return None
        ki = T.single_atom(k)
        pa = self._phi_atom(ph)
        if pa is None:
            return None
        if isinstance(ph, V):            # boolean accumulator
            if {a for a in T.all_atoms(end) if a in phinum} - {pa}:
                end = T.prune(end)
            t = T.vsubst(end, {pa: True}) if isinstance(end, V) else end
            f = T.vsubst(end, {pa: False}) if isinstance(end, V) else end
            others = {a for v in (t, f) for a in T.all_atoms(v) if a in phinum}
            if others:
                return None
            if t is True:
                return T.vor(init, T.mkany(k, trip, f))
            if f is False:
                return T.vand(init, T.mkall(k, trip, t))
            if T.veq(t, T.vnot(f)):
                d, c = T.close(k, f)
                par = T.bool_atom('parity', d, trip, c)
                return T.ite(init, T.vnot(par), par)
            if T.veq(t, f):
                return None
            return None
        if isinstance(ph, tuple):
            return None

        def leaf_delta(l):
            if not isinstance(l, R):
                return T.unknown('acc')
            return T.rsub(l, ph)
        delta = T.vmap(leaf_delta, end)
        free = {a for a in T.all_atoms(delta) if a in phinum}
        if not free and not T.has_unknown(delta):
            if not isinstance(init, (R, V)):
                return None
            return T.addsum(init, k, trip, delta)
        # affine recurrence v' = a v + b(k)
        if isinstance(end, R) and free == {pa}:
            lin = self.linear(end, pa)
            if lin is not None:
                a, b = lin
                if ki not in T.all_atoms(a) and isinstance(init, R):
                    j = T.fresh_idx('j')
                    bj = T.vsubst(b, {ki: T.rsub(T.rsub(trip, ONE), j)})
                    return T.vadd(T.rmul(init, T.ipow(a, trip)), T.mksum(j, trip, T.vmul(T.ipow(a, j), bj)))
        return None

    def invariants(self, phis, ends, inits, post, unsolved, sub):
        """v == f(w) at loop entry and preserved by the body  =>  v == f(w) afterwards."""
        for w in list(ends):
            if inits[w] is UNDEF or not isinstance(inits[w], R):
                continue
            wa = T.single_atom(inits[w])
            if wa is None or not isinstance(post.get(w), R):
                continue
            for v in list(ends):
                if v == w or inits[v] is UNDEF or not isinstance(inits[v], R):
                    continue
                if wa not in T.all_atoms(inits[v]):
                    continue
                if not isinstance(ends[v], R) or not isinstance(ends[w], R):
                    continue
                if T.leaf_eq(T.vsubst(inits[v], {wa: ends[w]}), ends[v]):
                    post[v] = T.vsubst(inits[v], {wa: post[w]})


_MEMOS = {}


def vsub(v, sub):
    if not sub or v is None or isinstance(v, bool):
        return v
    key = tuple(sorted((a, id(x)) for a, x in sub.items()))
    ent = _MEMOS.get(key)
    if ent is None:
        if len(_MEMOS) > 200:
            _MEMOS.clear()
        ent = _MEMOS[key] = ({}, dict(sub))
    return _vsub(v, sub, ent[0])


def _vsub(v, sub, memo):
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, Rec):
        return Rec((f, _vsub(x, sub, memo)) for f, x in v.items)
    return T.vsubst(v, sub, memo)


def piish(f):
    """pi literals (and simple multiples) become the constant pi."""
    import math
    x = float(f)
    if abs(x - math.pi) < 1e-14:
        return T.atom('pi', (), ('pos',))
    return T.const(f)


def to_int(l):
    l = T._num(l)
    if isinstance(l, R):
        a = T.single_atom(l)
        if T.is_const(l) and T.cval(l).denominator == 1:
            return l
        if a is not None and T.ATOMS[a][0] in ('floor', 'ceil', 'int', 'trunc', 'round') or a is not None and 'int' in T._FLAGS[a]:
            return T.flag(l, 'int')
        return T.flag(T.atom('int', (l,)), 'int')
    return l


def idiv(a, b):
    a, b = T._num(a), T._num(b)
    if isinstance(a, R) and isinstance(b, R) and T.is_const(a) and T.is_const(b) and T.cval(b):
        q = T.cval(a) / T.cval(b)
        return T.const(int(q))
    if isinstance(b, R) and T.is_const(b) and T.cval(b) == 1:
        return a
    return T.flag(T.atom('idiv', (a, b)), 'int')


def imod(a, b):
    a, b = T._num(a), T._num(b)
    if isinstance(a, R) and isinstance(b, R):
        if T.is_const(a) and T.is_const(b) and T.cval(b):
            return T.const(int(T.cval(a)) % int(T.cval(b)))
        if not a.num or T.req(a, b):
            return ZERO
        # (a + b) % b == a % b for non-negative a (indices)
    return T.flag(T.atom('mod', (a, b)), 'int', 'nonneg')


def isnan(l):
    a = T.single_atom(l) if isinstance(l, R) else None
    if a is not None and T.ATOMS[a][0] == 'nan':
        return True
    if isinstance(l, R) and T.is_const(l):
        return False
    return T.bool_atom('isnan', l)


def walk(n):
    yield n
    for c in n.get('inner', ()):
        if isinstance(c, dict):
            yield from walk(c)


def inner_decl(n, did):
    return n['_unit'].by_id.get(did)


_text_cache = {}


def in_repo_text(u, name):
    """Is a function of that name defined in one of the repository's files of the unit?"""
    import re
    if u.path not in _text_cache:
        try:
            _text_cache[u.path] = open(u.path).read()
        except OSError:
            _text_cache[u.path] = ''
    import os, glob
    inc = os.path.join(os.path.dirname(os.path.dirname(u.path)), 'include')
    for f in [u.path] + glob.glob(os.path.join(inc, '*.h')):
        if f not in _text_cache:
            _text_cache[f] = open(f).read()
        if re.search(r'\b%s\s*\([^;{}]*\)\s*(const)?\s*(noexcept)?\s*\{' % re.escape(name), _text_cache[f]):
            return True
    return False


def pragma_text(n):
    b = n.get('_beg')
    if not b:
        return ''
    src = n['_unit'].src(b[0])
    start = src.rfind(b'\n', 0, b[2]) + 1
    out = b''
    i = start
    while True:
        j = src.find(b'\n', i)
        if j < 0:
            j = len(src)
        line = src[i:j]
        out += line.rstrip(b'\\ \t') + b' '
        if not line.rstrip().endswith(b'\\'):
            break
        i = j + 1
    return ' '.join(out.decode(errors='replace').split())
