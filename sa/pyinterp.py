"""Gated abstract interpretation of the Python sources.

One pass over a function computes, for every variable, field and container
element, a gated value (terms.py): branches are joined, never enumerated, and
calls inside the package are analysed in place.  Calls that leave the package
become effect events with their guard, or uninterpreted applications.
"""
import ast
from fractions import Fraction
from . import terms as T
from .terms import R, V, const, vand, vor, vnot, ite, truthv, veq
from .pyvals import (Ref, DictView, Tup, Str, Sym, mkstr, Arr, LiveArr, MArr, MISSING, SliceV, Fn, Bound, Cls, Ext, Mod, Prim, constrain)
from .cfront import AnalysisBroken


IMAG = T.atom('imaginary unit', ())


def cparts(x):
    """(real, imaginary) parts of a term linear in the imaginary unit, or (None, None)."""
    if not isinstance(x, (R, V)):
        return x, T.ZERO
    j = T.single_atom(IMAG)
    if j not in set(T.val_atoms(x) if isinstance(x, V) else T.all_atoms(x)):
        return x, T.ZERO
    sub = lambda v: T.vsubst(x, {j: const(v)})
    a, b, c = sub(0), sub(1), sub(2)
    im = T.vsub(b, a)
    if T.compare(T.vsub(c, b), im) is None:
        return a, im
    if T.compare(T.vadd(T.vsub(sub(3), T.vmul(const(3), c)), T.vmul(const(3), b)), a) is None:     # quadratic: j^2 = -1
        q = T.vdiv(T.vsub(T.vadd(c, a), T.vmul(const(2), b)), const(2))
        return T.vsub(a, q), T.vsub(im, q)
    u = T.unknown('complex value')
    return u, u


def cabs(x):
    re, im = cparts(x)
    return T.vfn('abs', x) if T.compare(im, T.ZERO) is None else T.vfn('sqrt', T.vadd(T.vmul(re, re), T.vmul(im, im)))


def cexp(x):
    re, im = cparts(x)
    if T.compare(im, T.ZERO) is None:
        return T.vfn('exp', x)
    return T.vmul(T.vfn('exp', re), T.vadd(T.vfn('cos', im), T.vmul(IMAG, T.vfn('sin', im))))


class Dead(Exception):
    """No execution continues past this point."""


class Budget(Exception):
    pass


class NoVerdict(Exception):
    """A construct the domain does not model."""


class HObj:
    __slots__ = ('kind', 'cls', 'fields', 'open', 'base', 'parent')

    def __init__(self, kind, cls=None, fields=None, open=False, base=None, parent=None):
        self.kind, self.cls, self.fields, self.open, self.base, self.parent = kind, cls, fields or {}, open, base, parent

    def copy(self):
        return HObj(self.kind, self.cls, dict(self.fields), self.open, self.base, self.parent)


class Event:
    __slots__ = ('kind', 'name', 'args', 'kw', 'guard', 'loc', 'loops', 'recv', 'res', 'fn', 'seq')

    def __init__(self, kind, name, args, kw, guard, loc, loops, recv=None, res=None, fn='', seq=0):
        self.kind, self.name, self.args, self.kw, self.guard, self.loc, self.loops = kind, name, args, kw, guard, loc, loops
        self.recv, self.res, self.fn, self.seq = recv, res, fn, seq

    def __repr__(self):
        return '%s %s%s(%s%s)%s' % (self.kind, (T.show(self.recv) + '.') if self.recv is not None else '', self.name,
                                    ', '.join(T.clip(T.show(a), 60) for a in self.args),
                                    ''.join(', %s=%s' % (k, T.clip(T.show(v), 60)) for k, v in self.kw.items()),
                                    '' if self.guard is True else ' if ' + T.clip(T.show(self.guard), 200))


def num(x):
    if isinstance(x, bool):
        return const(int(x))
    return x


def isobj(x):
    i = T.single_atom(x) if isinstance(x, R) else None
    return i is not None and 'obj' in T._FLAGS[i]


def ival(x):
    """concrete integer of a leaf, or None"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, R) and T.is_const(x):
        c = T.cval(x)
        if c == int(c):
            return int(c)
    return None


SEQ = ('list',)
BUILTIN = {'len', 'range', 'isinstance', 'issubclass', 'hasattr', 'getattr', 'setattr', 'tuple', 'list', 'dict', 'set', 'zip',
           'enumerate', 'reversed', 'sorted', 'min', 'max', 'abs', 'sum', 'any', 'all', 'print', 'type', 'super', 'iter', 'next',
           'str', 'repr', 'int', 'float', 'bool', 'complex', 'slice', 'map', 'filter', 'id', 'hash', 'vars', 'frozenset', 'object',
           'property', 'staticmethod', 'classmethod', 'callable', 'round', 'open', 'delattr', 'divmod', 'pow', 'format', 'bytes', 'eval'}
EXC = {'ValueError', 'TypeError', 'KeyError', 'AttributeError', 'IndexError', 'RuntimeError', 'NotImplementedError', 'AssertionError',
       'Exception', 'FileNotFoundError', 'StopIteration', 'BaseException', 'OSError', 'ImportError', 'ZeroDivisionError', 'LookupError',
       'ArithmeticError', 'UserWarning', 'DeprecationWarning', 'NameError', 'OverflowError'}
EXC_BASE = {'KeyError': 'LookupError', 'IndexError': 'LookupError', 'NotImplementedError': 'RuntimeError', 'FileNotFoundError': 'OSError',
            'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError', 'LookupError': 'Exception', 'RuntimeError': 'Exception',
            'ArithmeticError': 'Exception', 'Exception': 'BaseException'}
BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.MatMult: '@',
          ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '@': 'matmul', '&': 'and', '|': 'or',
          '^': 'xor'}
MATH = {'math.' + k: v for k, v in dict(
    sqrt='sqrt', sin='sin', cos='cos', tan='tan', atan='arctan', asin='arcsin', acos='arccos', atan2='arctan2', exp='exp', hypot='hypot',
    fabs='abs', radians='deg2rad', degrees='rad2deg', pow='power').items()}
FRESH = {'numpy.empty', 'numpy.empty_like', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.full_like', 'numpy.full'}
RNG = {'uniform', 'normal', 'random', 'choice', 'permutation', 'integers', 'standard_normal', 'popleft', 'readline', 'read'}


class Interp:
    ambiguous = False       # arrays have no truth value
    MAXDEPTH = 60
    STEPS = 150000

    def __init__(self, prog, hooks=None, opaque=(), lazy=None):
        self.prog = prog
        self.heap = {}
        self.gheap = {}
        self.g = True
        self.next = 1
        self.events = []
        self.raised = []           # [(guard, exception name, heap, detail)]
        self.loops = ()
        self.depth = 0
        self.steps = 0
        self.hooks = hooks or {}   # qualified function name -> f(interp, args, kwargs)
        self.opaque = set(opaque)
        self.lazy = lazy
        self.gmemo = {}
        self.stack = []
        self.serial = 0
        self.analysed = set()
        self.deftime = False
        self.returns = None
        self.loc = ''
        self.loopctl = None

    # ------------------------------------------------------------- heap
    def alloc(self, kind, cls=None, fields=None, open=False, base=None, parent=None):
        i = self.next
        self.next += 1
        self.heap[i] = HObj(kind, cls, fields, open, base, parent)
        return Ref(i)

    def obj(self, ref):
        i = ref.id if isinstance(ref, Ref) else ref
        o = self.heap.get(i)
        if o is None:
            o = self.gheap.get(i)
            if o is None:
                raise NoVerdict('dangling reference')
        return o

    def wr(self, ref):
        i = ref.id if isinstance(ref, Ref) else ref
        o = self.obj(ref).copy()
        self.heap[i] = o
        return o

    def newlist(self, items):
        return self.alloc('list', None, {0: Tup(items)})

    def newdict(self, pairs=()):
        return self.alloc('dict', None, dict(pairs))

    def instance(self, cls, fields=None, open=False, base=None):
        if isinstance(cls, str):
            cls = self.prog.cls(cls)
        return self.alloc('obj', cls, fields, open, base)

    # ----------------------------------------------------------- branching
    def merge_heaps(self, c, ha, hb):
        if ha is hb:
            return ha
        out = dict(hb)
        for i, a in ha.items():
            b = hb.get(i)
            if b is None:
                out[i] = a
            elif a is not b:
                if a.fields is b.fields:
                    continue
                f = {}
                for k in list(b.fields) + [k for k in a.fields if k not in b.fields]:
                    x, y = a.fields.get(k, MISSING), b.fields.get(k, MISSING)
                    if a.open and (x is MISSING or y is MISSING) and a.kind == 'obj':
                        d = self.lazy_field(Ref(i), a, k)
                        x = d if x is MISSING else x
                        y = d if y is MISSING else y
                    f[k] = x if x is y else self.join(c, x, y)
                out[i] = HObj(a.kind, a.cls, f, a.open or b.open, a.base, a.parent)
        return out

    def join(self, c, x, y):
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
            return Tup([p if p is q else self.join(c, p, q) for p, q in zip(x.items, y.items)])
        return ite(c, x, y)

    def merge(self, states):
        """[(guard, heap, value)] with disjoint guards -> current state and value."""
        states = [s for s in states if s[0] is not False]
        if not states:
            raise Dead()
        tot = False
        for s in states:
            tot = vor(tot, s[0])
        g, h, v = states[-1]
        for gi, hi, vi in reversed(states[:-1]):
            c = constrain(gi, vor(gi, g))
            h = self.merge_heaps(c, hi, h)
            v = vi if vi is v else self.join(c, vi, v)
            g = vor(gi, g)
        self.heap = h
        self.g = tot
        return v

    def split(self, c):
        """(guard if true, guard if false) of a condition here."""
        c = constrain(truthv(c), self.g)
        return vand(self.g, c), vand(self.g, vnot(c))

    def branch(self, c, f, g):
        c = truthv(c)
        gt, gf = self.split(c)
        if gt is not False and gt is not self.g and not self.sat(gt):
            gt = False
        if gf is not False and gt is not False and not self.sat(gf):
            gf = False
        if gt is False:
            return g()
        if gf is False:
            return f()
        h0 = self.heap
        st = []
        for guard, k in ((gt, f), (gf, g)):
            self.heap = dict(h0)
            self.g = guard
            try:
                v = k()
                st.append((self.g, self.heap, v))
            except Dead:
                pass
        if not st:
            raise Dead()
        if len(st) == 1:
            self.g, self.heap, v = st[0]
            return v
        (ga, ha, va), (gb, hb, vb) = st
        cc = constrain(c, vor(ga, gb))
        self.heap = self.merge_heaps(cc, ha, hb)
        self.g = vor(ga, gb)
        return va if va is vb else self.join(cc, va, vb)

    def sat(self, g):
        n = 0
        if g is True:
            return True
        for _ in T.leaves(g):
            if _[1] is True:
                return True
            n += 1
            if n > 64:
                return True
        return False

    def cases(self, v, f):
        """Apply f to every leaf of v, forking the state; f returns a value."""
        v = constrain(v, self.g)
        if not isinstance(v, V):
            return f(v)
        ls = {}
        order = []

        def collect(x):
            if isinstance(x, V):
                collect(x.hi)
                collect(x.lo)
            elif not any(T.veq(x, y) for y in order):
                order.append(x)
        collect(v)
        if len(order) > 40:
            raise NoVerdict('too many cases')
        del ls

        def go(rest):
            x = rest[0]
            if len(rest) == 1:
                return f(x)
            c = T.vmap(lambda l: T.veq(l, x), v)
            return self.branch(c, lambda: f(x), lambda: go(rest[1:]))
        return go(order)

    def emit(self, kind, name, args, kw, recv=None, res=None):
        self.serial += 1
        e = Event(kind, name, list(args), dict(kw), self.g, self.loc, self.loops, recv, res,
                  self.stack[-1] if self.stack else '', self.serial)
        self.events.append(e)
        return e

    def throw(self, name, detail=None):
        self.raised.append((self.g, name, self.heap, detail))
        raise Dead()

    def throw_if(self, c, name, detail=None):
        gt, gf = self.split(c)
        if gt is False or not self.sat(gt):
            return
        self.raised.append((gt, name, self.heap, detail))
        if gf is False or not self.sat(gf):
            raise Dead()
        self.heap = dict(self.heap)
        self.g = gf

    # ------------------------------------------------------------- names
    def lookup(self, name):
        f = self.frame
        while f is not None:
            o = self.obj(f)
            if name in o.fields:
                v = o.fields[name]
                if v is not MISSING:
                    return v
                break
            f = o.parent
        return self.global_name(self.mod, name)

    def global_name(self, mod, name, via_module=False):
        k = (mod.name, name)
        if k in self.gmemo:
            return self.gmemo[k]
        v = mod.names.get(name)
        if v is None:
            if name in BUILTIN or name in EXC:
                return Ext('builtins.' + name)
            if name in ('__name__', '__file__'):
                return name
            if name == 'NotImplemented':
                return Ext('builtins.NotImplemented')
            raise NoVerdict('unbound name ' + name)
        imported = v[0] == 'import'
        r = self.prog.resolve(mod, name)
        return self.from_resolved(r, name, imported, k)

    def from_resolved(self, r, name, imported, key=None):
        if r is None:
            raise NoVerdict('cannot resolve ' + name)
        if r[0] == 'ext':
            return Ext(r[1])
        if r[0] == 'mod':
            return Mod(r[1])
        if r[0] == 'func':
            v = self.gmemo.get(('fn', id(r[1])))
            if v is None:
                v = self.gmemo[('fn', id(r[1]))] = Fn(r[1], r[2])
            return v
        if r[0] == 'class':
            return Cls(r[1])
        if r[0] == 'assign' or r[0] == 'assign_item':
            m = r[-1]
            if m.name == 'global_vars':
                how = 'glob@import' if imported else 'glob@def' if self.deftime else 'glob'
                return T.atom(how, (name,), ('int', 'pos'))
            kk = ('val', m.name, name)
            if kk in self.gmemo:
                return self.gmemo[kk]
            v = self.eval_global(r[1], m)
            if r[0] == 'assign_item':
                v = self.getitem(v, const(r[2]))
            self.gmemo[kk] = v
            return v
        raise NoVerdict('cannot resolve ' + name)

    def eval_global(self, expr, mod):
        """Evaluate a module-level expression in its own state."""
        saved = (self.heap, self.g, self.raised, self.events, getattr(self, 'frame', None), getattr(self, 'mod', None), self.loops, self.deftime)
        self.heap, self.g, self.raised, self.events, self.loops = {}, True, [], [], ()
        self.mod = mod
        self.deftime = True
        self.frame = self.alloc('frame')
        try:
            v = self.ev(expr)
            self.gheap.update(self.heap)
        except (Dead, NoVerdict):
            v = T.unknown('global value')
        finally:
            self.heap, self.g, self.raised, self.events, self.frame, self.mod, self.loops, self.deftime = saved
        return v

    # --------------------------------------------------------- entry points
    def call_method(self, recv, name, *args, **kw):
        return self.toplevel(lambda: self.call(self.getattr(recv, name), list(args), dict(kw)))

    def call_value(self, f, *args, **kw):
        return self.toplevel(lambda: self.call(f, list(args), dict(kw)))

    def toplevel(self, k):
        try:
            return k()
        except Dead:
            return None

    def function(self, mod, name):
        node, m = self.prog.func(mod, name)
        return self.from_resolved(('func', node, m), name, False)

    def method(self, cls, name):
        ci = self.prog.cls(cls) if isinstance(cls, str) else cls
        r = ci.find(name)
        if r is None:
            raise AnalysisBroken('%s.%s is gone' % (ci.name, name))
        return Fn(r[1], r[0].mod, r[0])

    # ------------------------------------------------------------- calling
    def call(self, f, args, kw):
        self.steps += 1
        if self.steps > self.STEPS:
            raise Budget()
        if isinstance(f, V):
            return self.cases(f, lambda l: self.call(l, args, kw))
        if isinstance(f, Bound):
            return self.call_fn(f.fn, [f.obj] + args, kw)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Cls):
            return self.construct(f.info, args, kw)
        if isinstance(f, Prim):
            return self.call_prim(f.recv, f.name, args, kw)
        if isinstance(f, Ext):
            return self.call_ext(f.path, args, kw)
        if isinstance(f, Ref):
            o = self.obj(f)
            if o.kind == 'obj' and o.cls is not None and o.cls.find('__call__'):
                return self.call(self.getattr(f, '__call__'), args, kw)
            if o.kind == 'partial':
                return self.call(o.fields['f'], list(o.fields['args'].items) + args, kw)
        if isinstance(f, R):
            return self.opaque_call(f, args, kw)
        raise NoVerdict('call of %r' % (f,))

    def opaque_call(self, f, args, kw):
        i = T.single_atom(f)
        recv, name = None, None
        if i is not None and T.ATOMS[i][0] == 'attr':
            recv, name = T.ATOMS[i][1]
        h = self.hooks.get('*.' + name) if name else None
        if h is not None:
            r = h(self, recv, args, kw)
            if r is not NotImplemented:
                return r
        e = self.emit('call', name or T.show(f), args, kw, recv if name else f)
        self.serial += 1
        extra = (self.serial,) if name in RNG else ()
        a = tuple(self.freeze(x) for x in args)
        k = tuple(sorted((n, self.freeze(v)) for n, v in kw.items())) if all(isinstance(n, str) for n in kw) else ()
        if name is not None:
            e.res = T.atom('.' + name, (recv,) + a + k + extra)
        else:
            e.res = T.atom('apply', (f,) + a + k + extra)
        return e.res

    def freeze(self, v, depth=0):
        """Structural (heap-independent) image of a value, for use inside an atom."""
        if isinstance(v, V):
            return T.vmap(lambda l: self.freeze(l, depth), v)
        if isinstance(v, Tup):
            return Tup([self.freeze(x, depth) for x in v.items])
        if isinstance(v, (Ref,)):
            o = self.obj(v)
            if o.kind == 'list' and depth < 6:
                c = o.fields.get(0)
                if isinstance(c, Tup):
                    return Tup([self.freeze(x, depth + 1) for x in c.items])
                if isinstance(c, R):
                    return c
            if o.kind == 'dict' and depth < 6 and not o.open:
                return Tup([Tup((k, self.freeze(x, depth + 1))) for k, x in o.fields.items()])
            if o.base is not None:
                return o.base
        return v

    def qual(self, fn):
        return '%s.%s' % (fn.cls.name if fn.cls else fn.mod.name, fn.name)

    def call_fn(self, fn, args, kw):
        q = self.qual(fn)
        h = self.hooks.get(q) or self.hooks.get(fn.name)
        if h is not None:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        if q in self.opaque or fn.name in self.opaque:
            e = self.emit('pycall', q, args, kw)
            e.res = T.atom('py:' + q, tuple(self.freeze(a) for a in args) + tuple((k, self.freeze(v)) for k, v in sorted(kw.items())))
            return e.res
        if self.depth > self.MAXDEPTH:
            raise NoVerdict('call depth in ' + q)
        self.analysed.add(q)
        node = fn.node
        saved = (getattr(self, 'frame', None), getattr(self, 'mod', None), self.returns, self.loopctl, getattr(self, 'curcls', None), getattr(self, 'curself', None))
        mod = fn.mod
        frame = self.alloc('frame', None, {}, parent=fn.frame)
        loc = self.loc
        self.depth += 1
        self.stack.append(q)
        try:
            bound = self.bind(fn, args, kw)
            self.heap[frame.id] = HObj('frame', None, bound, parent=fn.frame)
            self.frame, self.mod, self.loopctl = frame, mod, None
            self.curcls = fn.cls
            self.curself = args[0] if args else None
            if isinstance(node, ast.Lambda):
                return self.ev(node.body)
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(node))
            if gen:
                self.wr(frame).fields['__yield__'] = self.newlist([])
            self.returns = []
            try:
                self.block(node.body)
                if self.g is not False:
                    self.returns.append((self.g, self.heap, None))
            except Dead:
                pass
            v = self.merge(self.returns)
            if gen:
                v = self.obj(frame).fields['__yield__']
            self.heap.pop(frame.id, None) if not self._captured(frame) else None
            return v
        finally:
            self.frame, self.mod, self.returns, self.loopctl, self.curcls, self.curself = saved
            self.depth -= 1
            self.stack.pop()
            self.loc = loc

    def _captured(self, frame):
        return True

    def defaults_of(self, fn):
        a = fn.node.args
        if fn.defaults is None:
            saved = (getattr(self, 'frame', None), getattr(self, 'mod', None), self.deftime)
            self.mod = fn.mod
            self.deftime = True
            if fn.frame is None:
                vals = [self.eval_global(d, fn.mod) if not isinstance(d, ast.Constant) else self.ev(d) for d in a.defaults]
                kws = [None if d is None else self.eval_global(d, fn.mod) if not isinstance(d, ast.Constant) else self.ev(d) for d in a.kw_defaults]
            else:
                vals = [self.ev(d) for d in a.defaults]
                kws = [None if d is None else self.ev(d) for d in a.kw_defaults]
            self.frame, self.mod, self.deftime = saved
            fn.defaults, fn.kwdefaults = vals, kws
        return fn.defaults, fn.kwdefaults

    def bind(self, fn, args, kw):
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        dv, kv = self.defaults_of(fn)
        out = {}
        kw = dict(kw)
        args = list(args)
        for i, p in enumerate(pos):
            if i < len(args):
                out[p] = args[i]
                if p in kw and p not in [x.arg for x in a.posonlyargs]:
                    x = kw.pop(p)
                    m = T.vmap(lambda l: l is MISSING, x)
                    self.throw_if(vnot(m), 'TypeError', 'multiple values for ' + p)
                continue
            j = i - (len(pos) - len(dv))
            d = dv[j] if j >= 0 else MISSING
            if p in kw:
                v = kw.pop(p)
                out[p] = self.fill(v, d)
            else:
                out[p] = d
            if out[p] is MISSING:
                self.throw('TypeError', 'missing argument %s of %s' % (p, self.qual(fn)))
        if len(args) > len(pos):
            if a.vararg is None:
                self.throw('TypeError', 'too many arguments of ' + self.qual(fn))
            out[a.vararg.arg] = Tup(args[len(pos):])
        elif a.vararg is not None:
            out[a.vararg.arg] = Tup(())
        for p, d in zip(a.kwonlyargs, kv):
            if p.arg in kw:
                out[p.arg] = self.fill(kw.pop(p.arg), MISSING if d is None and not p else d)
            else:
                out[p.arg] = d
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.newdict([(k, v) for k, v in kw.items() if v is not MISSING])
        else:
            for k, v in kw.items():
                m = T.vmap(lambda l: l is MISSING, v)
                if m is not True:
                    self.throw_if(vnot(m), 'TypeError', 'unexpected keyword %s of %s' % (k, self.qual(fn)))
        return out

    def fill(self, v, d):
        return T.vmap(lambda l: d if l is MISSING else l, v) if isinstance(v, V) else d if v is MISSING else v

    def construct(self, ci, args, kw):
        h = self.hooks.get('new:' + ci.name)
        if h is not None:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        ref = self.instance(ci)
        init = ci.find('__init__')
        if init is not None:
            self.call_fn(Fn(init[1], init[0].mod, init[0]), [ref] + args, kw)
        elif args or kw:
            e = self.emit('call', ci.name, args, kw)
            e.res = ref
        return ref

    # ---------------------------------------------------------- attributes
    def lazy_field(self, ref, o, name):
        if self.lazy is not None:
            v = self.lazy(self, ref, o, name)
            if v is not NotImplemented:
                return v
        return T.atom('attr', (o.base, name))

    def getattr(self, v, name, default=None, has_default=False):
        if isinstance(v, V):
            return self.cases(v, lambda l: self.getattr(l, name, default, has_default))
        if isinstance(v, DictView):
            return Prim(v, name)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ('list', 'dict', 'set', 'frame'):
                return Prim(v, name)
            if name == '__dict__':
                return DictView(v.id)
            if name == '__class__':
                if o.cls is not None:
                    return Cls(o.cls)
                return T.atom('attr', (o.base, name), ('obj',))
            r = o.cls.find(name) if o.cls is not None else None
            if r is not None and isinstance(r[1], ast.FunctionDef):
                decs = [decname(d) for d in r[1].decorator_list]
                fn = self.gmemo.get(('meth', id(r[1]))) or self.gmemo.setdefault(('meth', id(r[1])), Fn(r[1], r[0].mod, r[0]))
                if 'property' in decs or any(d.endswith('.getter') for d in decs):
                    return self.call_fn(fn, [v], {})
                f = o.fields.get(name, MISSING)
                if 'cached_property' in decs or 'lazy_property' in decs:
                    return self.cached(v, name, f, fn)
                if f is not MISSING:
                    return self.field(v, name, f, default, has_default)
                if 'staticmethod' in decs:
                    return fn
                if 'classmethod' in decs:
                    return Bound(fn, Cls(o.cls))
                return Bound(fn, v)
            f = o.fields.get(name, MISSING)
            if f is not MISSING:
                return self.field(v, name, f, default, has_default)
            if r is not None:
                return self.class_attr(r)
            if o.open and not (name in o.fields):
                if has_default:
                    c = T.bool_atom('hasattr', o.base, name)
                    return ite(c, self.lazy_field(v, o, name), default)
                return self.lazy_field(v, o, name)
            ga = o.cls.find('__getattr__') if o.cls is not None else None
            if ga is not None:
                return self.call_fn(Fn(ga[1], ga[0].mod, ga[0]), [v, name], {})
            if has_default:
                return default
            self.throw('AttributeError', '%s has no attribute %s' % (o.cls.name if o.cls else o.kind, name))
        if isinstance(v, Cls):
            return self.cls_getattr(v, name)
        if isinstance(v, Mod):
            m = self.prog.mods.get(v.name)
            if m is not None and name in m.names:
                return self.global_name(m, name)
            if name in self.prog.mods:
                return Mod(name)
            if m is not None and not name.startswith('__') and not any(isinstance(q, ast.ImportFrom) and any(x.name == '*' for x in q.names) for q in m.tree.body) and '__getattr__' not in m.names:
                if has_default:
                    return default
                self.throw('AttributeError', 'module has no ' + name)
            return Ext('batoid.%s.%s' % (v.name, name))
        if isinstance(v, Ext):
            p = v.path + '.' + name
            return ext_const(p)
        if isinstance(v, (str, Str, Tup)):
            return Prim(v, name) if name != '__class__' else self.type_of(v)
        if isinstance(v, Arr):
            return self.arr_attr(v, name)
        if isinstance(v, Fn) and name == '__name__':
            return v.name
        if isinstance(v, Bound) and name == '__func__':
            return v.fn
        if name == '__class__' and (v is None or isinstance(v, bool) or isinstance(v, R) and T.is_const(v)):
            return self.type_of(v)
        if v is None or isinstance(v, bool):
            if has_default:
                return default
            self.throw('AttributeError', '%s has no attribute %s' % (v, name))
        if isinstance(v, SliceV):
            return {'start': v.a, 'stop': v.b, 'step': v.c}[name]
        if isinstance(v, R):
            if T.is_const(v):
                if has_default:
                    return default
                self.throw('AttributeError', 'number has no attribute ' + name)
            if name == 'T':
                i = T.single_atom(v)
                if i is not None and T.ATOMS[i][0] == 'attr' and T.ATOMS[i][1][1] == 'T':
                    return T.ATOMS[i][1][0]
            if has_default:
                return ite(T.bool_atom('hasattr', v, name), T.atom('attr', (v, name)), default)
            return T.atom('attr', (v, name))
        if isinstance(v, Prim):
            return T.atom('attr', (v, name))
        raise NoVerdict('attribute %s of %r' % (name, v))

    def field(self, ref, name, f, default, has_default):
        """A present, possibly conditionally missing, instance field."""
        if isinstance(f, V):
            f = constrain(f, self.g)
            m = T.vmap(lambda l: l is MISSING, f)
            if m is not False:
                if has_default:
                    return self.fill(f, default)
                self.throw_if(m, 'AttributeError', name)
                f = constrain(f, self.g)
                if isinstance(f, V):
                    f = T.vmap(lambda l: T.unknown('missing') if l is MISSING else l, f)
        elif f is MISSING:
            if has_default:
                return default
            self.throw('AttributeError', name)
        return f

    def cached(self, ref, name, f, fn):
        f = constrain(f, self.g) if isinstance(f, V) else f
        m = T.vmap(lambda l: l is MISSING, f)

        def compute():
            v = self.call_fn(fn, [ref], {})
            self.wr(ref).fields[name] = v
            return v
        return self.branch(m, compute, lambda: self.obj(ref).fields[name] if not isinstance(f, V) else
                           constrain(self.obj(ref).fields[name], self.g))

    def class_attr(self, r):
        if isinstance(r[1], ast.FunctionDef):
            return Fn(r[1], r[0].mod, r[0])
        if isinstance(r[1], ast.Name) and r[1].id in r[0].methods:
            return self.class_attr((r[0], r[0].methods[r[1].id]))
        return self.eval_global(r[1], r[0].mod)

    def cls_getattr(self, v, name):
        if name == '__name__' or name == '__qualname__':
            return v.info.name
        if name == '__new__':
            r = v.info.find('__new__')
            return r and Fn(r[1], r[0].mod, r[0]) or Prim(v, '__new__')
        r = v.info.find(name)
        if r is None:
            if name == '__init__':
                return Prim(v, '__init__')
            if name in ('__module__',):
                return v.info.mod.name
            self.throw('AttributeError', '%s has no attribute %s' % (v.info.name, name))
        if isinstance(r[1], ast.FunctionDef):
            decs = [decname(d) for d in r[1].decorator_list]
            fn = Fn(r[1], r[0].mod, r[0])
            if 'classmethod' in decs:
                return Bound(fn, v)
            return fn
        return self.class_attr(r)

    def setattr(self, ref, name, val):
        if isinstance(ref, V):
            return self.cases(ref, lambda l: self.setattr(l, name, val))
        if isinstance(ref, Ref):
            o = self.obj(ref)
            r = o.cls.find(name) if o.cls is not None else None
            if r is not None and isinstance(r[1], ast.FunctionDef) and 'property' in [decname(d) for d in r[1].decorator_list]:
                setter = [s for s in r[0].node.body if isinstance(s, ast.FunctionDef) and s.name == name and
                          any(decname(d).endswith('.setter') for d in s.decorator_list)]
                if setter:
                    return self.call_fn(Fn(setter[0], r[0].mod, r[0]), [ref, val], {})
                self.throw('AttributeError', 'cannot set ' + name)
            self.emit('setattr', name, [val], {}, ref)
            self.wr(ref).fields[name] = val
            return None
        self.emit('setattr', name, [val], {}, ref)
        return None

    def has(self, v, name):
        if isinstance(v, V):
            return self.cases(v, lambda l: self.has(l, name))
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind != 'obj':
                return name in ('keys', 'items', 'append', 'pop', '__len__', '__iter__') or T.bool_atom('hasattr', v, name)
            if o.cls is not None and o.cls.find(name):
                return True
            f = o.fields.get(name, MISSING)
            if f is MISSING:
                if o.open and name not in o.fields:
                    return T.bool_atom('hasattr', o.base, name)
                return False
            return T.vmap(lambda l: l is not MISSING, f)
        if isinstance(v, Arr):
            return name in ('shape', 'size', 'T', 'dtype', 'ndim', 'copy', 'ravel', '__len__', '__iter__')
        if v is None or isinstance(v, (bool, str)):
            return name in ('__class__',) or isinstance(v, str) and name in ('split', 'join', 'format', '__len__', '__iter__')
        if isinstance(v, R):
            if T.is_const(v):
                return False
            return T.bool_atom('hasattr', v, name)
        if isinstance(v, (Tup,)):
            return name in ('__len__', '__iter__', 'index', 'count')
        return T.bool_atom('hasattr', v, name)

    # ---------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > self.STEPS:
            raise Budget()
        self.loc = '%s:%d' % ('batoid/' + self.mod.name + '.py', getattr(s, 'lineno', 0))
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise NoVerdict('statement ' + type(s).__name__)
        m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s):
        for a in s.names:
            r = self.prog.resolve_import(0, a.name if a.asname else a.name.split('.')[0], None)
            self.setvar(a.asname or a.name.split('.')[0], self.from_resolved(r, a.name, False))

    def s_ImportFrom(self, s):
        for a in s.names:
            r = self.prog.resolve_import(s.level, s.module or '', a.name)
            self.setvar(a.asname or a.name, self.from_resolved(r, a.name, False))

    def setvar(self, name, v):
        self.wr(self.frame).fields[name] = v

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)

            def go(l):
                items = self.seq_items(l, n if not star else None)
                if star:
                    k = star[0]
                    tail = n - k - 1
                    mid = items[k:len(items) - tail]
                    items = list(items[:k]) + [self.newlist(mid)] + list(items[len(items) - tail:])
                elif len(items) != n:
                    self.throw('ValueError', 'unpacking')
                return Tup(items)
            tup = self.cases(v, go) if isinstance(v, V) else go(v)
            for i, e in enumerate(t.elts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, self.pick(tup, i))
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(t, self.ev(t.value), self.index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise NoVerdict('assignment target')

    def pick(self, tup, i):
        return T.vmap(lambda l: l.items[i], tup) if isinstance(tup, V) else tup.items[i]

    def s_AugAssign(self, s):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            old = self.getattr(base, t.attr)
        else:
            base, idx = self.ev(t.value), self.index(t.slice)
            old = self.getitem(base, idx)
        val = self.ev(s.value)
        if isinstance(old, Ref) and op == '+' and self.obj(old).kind == 'list':
            self.call_prim(old, 'extend', [val], {})
            return
        if isinstance(old, Ref) and self.obj(old).kind == 'obj':
            o = self.obj(old)
            if o.cls is not None and o.cls.find('__i' + DUNDER[op] + '__'):
                new = self.call(self.getattr(old, '__i' + DUNDER[op] + '__'), [val], {})
            else:
                new = self.binop(op, old, val)
        else:
            new = self.inplace(op, old, val)
            self.emit('mutate', op + '=', [old, val], {}, old)
        if isinstance(t, ast.Name):
            self.setvar(t.id, new)
        elif isinstance(t, ast.Attribute):
            self.setattr(base, t.attr, new)
        else:
            self.setitem(t, base, idx, new)

    def inplace(self, op, old, val):
        return self.binop(op, old, val)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.returns.append((self.g, self.heap, v))
        raise Dead()

    def s_Raise(self, s):
        name, detail = 'Exception', None
        if s.exc is None:
            name = 'reraise'
        else:
            e = s.exc
            if isinstance(e, ast.Call):
                name = decname(e.func)
                detail = self.safe_text(e.args[0]) if e.args else None
            else:
                name = decname(e)
        self.throw(name, detail)

    def safe_text(self, e):
        try:
            return ast.unparse(e)
        except Exception:
            return None

    def s_Assert(self, s):
        c = truthv(self.truth(self.ev(s.test)))
        self.throw_if(vnot(c), 'AssertionError')

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(t.id, MISSING)
            elif isinstance(t, ast.Subscript):
                self.call_prim(self.ev(t.value), '__delitem__', [self.index(t.slice)], {})
            elif isinstance(t, ast.Attribute):
                ref = self.ev(t.value)
                self.wr(ref).fields[t.attr] = MISSING

    def s_FunctionDef(self, s):
        self.setvar(s.name, Fn(s, self.mod, None, self.frame))
        if s.decorator_list:
            f = self.lookup(s.name)
            for d in reversed(s.decorator_list):
                if decname(d) in ('property', 'staticmethod', 'lru_cache', 'functools.lru_cache', 'wraps'):
                    continue
                f = self.call(self.ev(d), [f], {})
            self.setvar(s.name, f)

    def s_ClassDef(self, s):
        raise NoVerdict('local class')

    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        self.block(s.body)

    def s_Break(self, s):
        self.loopctl['break'].append((self.g, self.heap, None))
        raise Dead()

    def s_Continue(self, s):
        self.loopctl['continue'].append((self.g, self.heap, None))
        raise Dead()

    def s_Try(self, s):
        outer = self.raised
        self.raised = []
        done = []
        g0 = self.g
        try:
            try:
                self.tryctx = getattr(self, 'tryctx', 0) + 1
                self.block(s.body)
                if s.orelse:
                    self.block(s.orelse)
                done.append((self.g, self.heap, None))
            except Dead:
                pass
            finally:
                self.tryctx -= 1
            mine = self.raised
            self.raised = []
            left = []
            for g, name, h, d in mine:
                hd = None
                for hh in s.handlers:
                    if self.matches(hh.type, name):
                        hd = hh
                        break
                if hd is None:
                    left.append((g, name, h, d))
                    continue
                self.g, self.heap = g, dict(h)
                if hd.name:
                    self.setvar(hd.name, T.atom('exception', (name,), ('obj',)))
                r0 = self.raised
                self.raised = []
                try:
                    self.block(hd.body)
                    done.append((self.g, self.heap, None))
                except Dead:
                    pass
                left += [(a, name if b == 'reraise' else b, c, e) for a, b, c, e in self.raised]
                self.raised = r0
            outer += left
        finally:
            self.raised = outer
        if not done:
            if s.finalbody:
                pass
            raise Dead()
        self.merge(done)
        if s.finalbody:
            self.block(s.finalbody)

    def matches(self, t, name):
        if t is None:
            return True
        if isinstance(t, ast.Tuple):
            return any(self.matches(e, name) for e in t.elts)
        want = decname(t).split('.')[-1]
        while name is not None:
            if name == want:
                return True
            name = EXC_BASE.get(name, 'Exception' if name not in ('Exception', 'BaseException') else None)
        return False

    # loops ----------------------------------------------------------------
    def s_For(self, s):
        it = self.ev(s.iter)

        def go(l):
            items = self.try_items(l)
            if items is None:
                self.opaque_loop(s, l)
            else:
                self.unrolled(s, items)
            return None
        self.cases(it, go)

    def unrolled(self, s, items):
        if len(items) > 400:
            raise NoVerdict('long loop')
        brk = []
        saved = self.loopctl
        self.loopctl = ctl = {'break': brk, 'continue': []}
        alive = True
        try:
            for x in items:
                ctl['continue'] = []
                st = []
                cond = True
                if isinstance(x, tuple) and x and x[0] == 'cond':
                    _, cond, x = x

                def body():
                    self.assign(s.target, x)
                    self.block(s.body)
                try:
                    if cond is True:
                        body()
                    else:
                        self.branch(cond, body, lambda: None)
                    st.append((self.g, self.heap, None))
                except Dead:
                    pass
                st += ctl['continue']
                try:
                    self.merge(st)
                except Dead:
                    alive = False
                    break
        finally:
            self.loopctl = saved
        out = []
        if alive:
            try:
                if s.orelse:
                    self.block(s.orelse)
                out.append((self.g, self.heap, None))
            except Dead:
                pass
        self.merge(out + brk)

    def opaque_loop(self, s, it):
        """Loop over an unknown sequence: one pass over the body for a generic
        element; everything the body changes is unknown afterwards."""
        k = T.fresh_idx()
        elem = T.atom('item', (self.freeze(it), k)) if it is not None else None
        h0, g0 = self.heap, self.g
        changed = self.modified_by(s, elem)
        self.heap = dict(h0)
        for i, f in changed:
            if i in self.heap:
                self.wr(Ref(i)).fields[f] = T.unknown('loop carried')
        saved, sl = self.loopctl, self.loops
        self.loopctl = {'break': [], 'continue': []}
        self.loops = self.loops + ((k, it),)
        hb = self.heap
        n = len(self.events)
        try:
            self.heap = dict(hb)
            if isinstance(s, ast.While):
                c = self.truth(self.ev(s.test))
                gt, gf = self.split(c)
                if gt is False:
                    raise Dead()
                self.g = gt
            else:
                self.assign(s.target, elem)
            self.block(s.body)
        except Dead:
            pass
        finally:
            self.loopctl, self.loops = saved, sl
        self.g = g0
        self.heap = {i: o for i, o in self.heap.items()}
        # objects allocated in the body survive; changed ones are unknown
        for i, f in changed:
            if i in self.heap:
                self.wr(Ref(i)).fields[f] = T.unknown('loop result')
        for i, o in hb.items():
            if i not in self.heap:
                self.heap[i] = o
        if s.orelse:
            self.block(s.orelse)

    def modified_by(self, s, elem):
        """(object, field) pairs of existing objects that the body may change."""
        h0, g0 = self.heap, self.g
        ne, nr = len(self.events), len(self.raised)
        saved, sl = self.loopctl, self.loops
        rets = list(self.returns) if self.returns is not None else None
        out = set()
        self.loopctl = {'break': [], 'continue': []}
        self.heap = dict(h0)
        heaps = []
        try:
            if not isinstance(s, ast.While):
                self.assign(s.target, elem)
            self.block(s.body)
        except Dead:
            pass
        heaps.append(self.heap)
        heaps += [h for _, h, _ in self.loopctl['break'] + self.loopctl['continue']]
        if rets is not None:
            heaps += [h for _, h, _ in self.returns[len(rets):]]
            self.returns[:] = rets
        del self.events[ne:]
        del self.raised[nr:]
        self.loopctl, self.loops = saved, sl
        self.heap, self.g = h0, g0
        for h in heaps:
            for i, o in h.items():
                b = h0.get(i)
                if b is None or b is o:
                    continue
                for f in set(o.fields) | set(b.fields):
                    if not veq(o.fields.get(f, MISSING), b.fields.get(f, MISSING)):
                        out.add((i, f))
        return out

    WHILE_MAX = 64

    def s_While(self, s):
        saved = self.loopctl
        ctl = {'break': [], 'continue': []}
        exits = []
        n = 0
        while True:
            n += 1
            c = constrain(truthv(self.truth(self.ev(s.test))), self.g)
            if isinstance(c, V) and n > 1 and not getattr(self, 'unroll_symbolic', False) or isinstance(c, V) and n == 1 and not getattr(self, 'unroll_symbolic', False) or n > self.WHILE_MAX:
                self.loopctl = saved
                self.opaque_loop(s, None)
                exits.append((self.g, self.heap, None))
                break
            gt, gf = self.split(c)
            if gf is not False and self.sat(gf):
                exits.append((gf, self.heap, None))
            if gt is False or not self.sat(gt):
                break
            self.heap = dict(self.heap)
            self.g = gt
            self.loopctl = ctl
            ctl['continue'] = []
            st = []
            try:
                self.block(s.body)
                st.append((self.g, self.heap, None))
            except Dead:
                pass
            finally:
                self.loopctl = saved
            try:
                self.merge(st + ctl['continue'])
            except Dead:
                break
        self.merge(exits + ctl['break'])

    # ---------------------------------------------------------- sequences
    def try_items(self, l):
        """Items of a leaf sequence, or None when unknown."""
        if isinstance(l, Tup):
            return list(l.items)
        if isinstance(l, DictView):
            return [k for k, x in self.obj(l).fields.items() if x is not MISSING]
        if isinstance(l, Ref):
            o = self.obj(l)
            if o.kind == 'list':
                c = constrain(o.fields[0], self.g)
                if isinstance(c, V):
                    return self.gated_items(c)
                return list(c.items) if isinstance(c, Tup) else None
            if o.kind in ('dict', 'set') and not o.open:
                out = []
                for k, x in o.fields.items():
                    x = constrain(x, self.g)
                    if isinstance(x, V):
                        p = T.vmap(lambda q: q is not MISSING, x)
                        if p is not True:
                            out.append(('cond', p, k))
                            continue
                    elif x is MISSING:
                        continue
                    out.append(k)
                return out
            if o.kind == 'obj' and o.cls is not None and o.cls.find('__iter__'):
                return self.try_items(self.call(self.getattr(l, '__iter__'), [], {}))
            if o.kind == 'obj' and o.cls is not None and o.cls.find('__getitem__') and o.cls.find('__len__'):
                n = self.call(self.getattr(l, '__len__'), [], {})
                n = ival(n) if isinstance(n, R) else None
                if n is not None and n <= 64:
                    f = self.getattr(l, '__getitem__')
                    return [self.call(f, [const(i)], {}) for i in range(n)]
            return None
        if isinstance(l, str):
            return list(l)
        if isinstance(l, Arr) and l.dims and isinstance(l.dims[0], int):
            return [self.arr_get(l, (const(i),)) for i in range(l.dims[0])]
        return None

    def gated_items(self, c):
        """A conditionally shorter list: common prefix semantics when one is a prefix of the other."""
        tups = []

        def coll(x):
            if isinstance(x, V):
                coll(x.hi)
                coll(x.lo)
            else:
                tups.append(x)
        coll(c)
        if not all(isinstance(t, Tup) for t in tups):
            return None
        n = max(len(t.items) for t in tups)
        out = []
        for i in range(n):
            pres = T.vmap(lambda t: len(t.items) > i, c)
            v = T.vmap(lambda t: t.items[i] if len(t.items) > i else MISSING, c)
            if isinstance(v, V):
                v = constrain(v, pres) if pres is not True else v
            out.append(v if pres is True else ('cond', pres, v))
        return out

    def seq_items(self, l, n=None):
        items = self.try_items(l)
        if items is not None:
            if any(isinstance(x, tuple) and x and x[0] == 'cond' for x in items):
                raise NoVerdict('conditional sequence')
            return items
        if n is not None and isinstance(l, (R, Arr)):
            return [self.getitem(l, const(i)) for i in range(n)]
        raise NoVerdict('unknown sequence %s' % T.show(l))

    def iter_map(self, gens, i, f):
        """Evaluate a comprehension; returns list of ('cond', c, v)|v, or None when opaque."""
        if i == len(gens):
            return [f()]
        g = gens[i]
        it = self.ev(g.iter)
        if isinstance(it, V):
            raise NoVerdict('comprehension over a conditional sequence') if not self._all_seq(it) else None
        items = self.try_items(it)
        if items is None:
            k = T.fresh_idx()
            self.assign(g.target, T.atom('item', (self.freeze(it), k)))
            cond = True
            for c in g.ifs:
                cond = vand(cond, truthv(self.truth(self.ev(c))))
            sl = self.loops
            self.loops = self.loops + ((k, it),)
            inner = self.iter_map(gens, i + 1, f)
            self.loops = sl
            return [('map', it, k, cond, inner)]
        out = []
        for x in items:
            cond = True
            if isinstance(x, tuple) and x and x[0] == 'cond':
                _, cond, x = x
            self.assign(g.target, x)
            for c in g.ifs:
                if cond is not False:
                    cond = vand(cond, constrain(truthv(self.truth(self.ev(c))), self.g))
            if cond is False:
                continue
            if cond is True:
                out += self.iter_map(gens, i + 1, f)
            else:
                g0 = self.g
                gg = vand(self.g, cond)
                if gg is False:
                    continue
                h0 = self.heap
                self.heap, self.g = dict(h0), gg
                r = self.iter_map(gens, i + 1, f)
                self.heap = self.merge_heaps(cond, self.heap, h0)
                self.g = g0
                out += [('cond', vand(cond, x[1]), x[2]) if isinstance(x, tuple) and x and x[0] == 'cond' else ('cond', cond, x) for x in r]
        return out

    def _all_seq(self, it):
        return False

    def comp(self, node, f):
        # comprehension variables live in their own scope
        saved = self.frame
        self.frame = self.alloc('frame', None, {}, parent=saved)
        try:
            first = self.ev(node.generators[0].iter)
            if isinstance(first, V):
                def one(l):
                    self.wr(self.frame).fields['.0'] = l
                    gens = [_Gen(node.generators[0], ast.Name('.0', ast.Load()))] + node.generators[1:]
                    return self.finish_comp(self.iter_map(gens, 0, f))
                return self.cases(first, one)
            self.wr(self.frame).fields['.0'] = first
            gens = [_Gen(node.generators[0], ast.Name('.0', ast.Load()))] + node.generators[1:]
            return self.finish_comp(self.iter_map(gens, 0, f))
        finally:
            self.frame = saved

    def finish_comp(self, items):
        if any(isinstance(x, tuple) and x and x[0] == 'map' for x in items):
            if len(items) == 1:
                _, it, k, cond, inner = items[0]
                if len(inner) == 1 and not (isinstance(inner[0], tuple)):
                    body = self.freeze(inner[0])
                    d, b = T.close(k, ite(cond, body, MISSING) if cond is not True else body)
                    return T.atom('map', (self.freeze(it), d, b))
            return T.unknown('comprehension')
        if any(isinstance(x, tuple) and x and x[0] == 'cond' for x in items):
            # conditional elements: gated tuple
            v = Tup(())
            for x in items:
                if isinstance(x, tuple) and x and x[0] == 'cond':
                    c, e = x[1], x[2]
                    v = T.vmap(lambda t, cc: Tup(t.items + (e,)) if cc else t, v, c)
                else:
                    v = T.vmap(lambda t: Tup(t.items + (x,)), v)
            return v
        return Tup(items)

    # --------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise NoVerdict('expression ' + type(e).__name__)
        v = m(e)
        return self.live(v) if isinstance(v, LiveArr) else v

    def live(self, v):
        """The present content of an array that is an object's storage."""
        o = self.heap.get(v.ref.id)
        c = o.fields.get(v.name) if o is not None else None
        return c if isinstance(c, LiveArr) and c.dims == v.dims else v

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
                return T.atom('const', (repr(v),))
            from fractions import Fraction
            return const(Fraction(repr(v)) if isinstance(v, float) else v)
        if v is Ellipsis:
            return Ext('builtins.Ellipsis')
        if isinstance(v, complex) and v.real == 0 and v.imag == v.imag and abs(v.imag) != float('inf'):
            from fractions import Fraction
            return T.rmul(const(Fraction(repr(v.imag))), IMAG)
        return T.atom('const', (repr(v),))

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Tuple(self, e):
        return Tup(self.elements(e.elts))

    def e_List(self, e):
        return self.newlist(self.elements(e.elts))

    def e_Set(self, e):
        items = self.elements(e.elts)
        return self.alloc('set', None, {self.key(x): True for x in items})

    def elements(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.seq_items(self.ev(x.value))
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        d = self.newdict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.call_prim(d, 'update', [self.ev(v)], {})
            else:
                kk = self.ev(k)
                vv = self.ev(v)
                self.wr(d).fields[self.key(kk)] = vv
        return d

    def key(self, k):
        if isinstance(k, R):
            i = ival(k)
            if i is not None:
                return i
            return k
        if isinstance(k, V):
            raise NoVerdict('conditional key')
        return k

    def e_ListComp(self, e):
        v = self.comp(e, lambda: self.ev(e.elt))
        if isinstance(v, R):
            return v
        return self.alloc('list', None, {0: v})

    def e_GeneratorExp(self, e):
        return self.comp(e, lambda: self.ev(e.elt))

    def e_SetComp(self, e):
        v = self.comp(e, lambda: self.ev(e.elt))
        if isinstance(v, Tup):
            return self.alloc('set', None, {self.key(x): True for x in v.items})
        raise NoVerdict('set comprehension')

    def e_DictComp(self, e):
        v = self.comp(e, lambda: Tup((self.ev(e.key), self.ev(e.value))))
        if isinstance(v, Tup):
            return self.newdict([(self.key(x.items[0]), x.items[1]) for x in v.items])
        if isinstance(v, V):
            d = self.newdict()
            n = 0
            keys = {}

            def coll(x):
                if isinstance(x, V):
                    coll(x.hi)
                    coll(x.lo)
                else:
                    for t in x.items:
                        keys.setdefault(self.key(t.items[0]), None)
            coll(v)
            f = self.wr(d).fields
            for k in keys:
                def get(t):
                    r = MISSING
                    for y in t.items:
                        if T.leaf_eq(self.key(y.items[0]), k):
                            r = y.items[1]
                    return r
                f[k] = T.vmap(get, v)
            return d
        raise NoVerdict('dict comprehension')

    def e_Lambda(self, e):
        return Fn(e, self.mod, None, self.frame)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_BoolOp(self, e):
        def go(vals):
            a = self.ev(vals[0])
            if len(vals) == 1:
                return a
            t = self.truth(a)
            if isinstance(e.op, ast.And):
                return self.branch(t, lambda: go(vals[1:]), lambda: False if T._is_boolean(a) else a)
            return self.branch(t, lambda: True if T._is_boolean(a) else a, lambda: go(vals[1:]))
        return go(e.values)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return vnot(self.truth(v))
        if isinstance(e.op, ast.USub):
            return self.unary(v, T.vneg)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.invert(v)

    def invert(self, v):
        def leaf(l):
            if isinstance(l, bool):
                return not l
            if isinstance(l, R):
                return vnot(T.truth(l))
            if isinstance(l, Arr) and all(T._is_boolean(x) for x in l.items.values()):
                return Arr(l.dims, {k: vnot(x) for k, x in l.items.items()})
            return T.atom('~', (l,))
        return T.vmap(leaf, v)

    def unary(self, v, f):
        def leaf(l):
            if isinstance(l, Arr):
                return Arr(l.dims, {k: f(x) for k, x in l.items.items()})
            if isinstance(l, (R, bool)):
                return f(l)
            if isinstance(l, Ref) and self.obj(l).kind == 'obj':
                return T.atom('neg', (self.freeze(l),))
            return T.atom('neg', (l,))
        return T.vmap(leaf, v)

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        heapy = lambda l: isinstance(l, (Ref, Arr))
        if any_leaf(a, heapy) or any_leaf(b, heapy):
            return self.cases(a, lambda x: self.cases(b, lambda y: self.binop1(op, x, y)))
        return T.vmap(lambda x, y: self.binop1(op, x, y), a, b)

    def opaque_array(self, x):
        """An uninterpreted operation on whole arrays: its result need not be a scalar."""
        i = T.single_atom(x) if isinstance(x, R) and not isinstance(x, bool) else None
        if i is None:
            return False
        n, args = T.ATOMS[i]
        if n in ('op@', 'setitem', 'numpy.dot', 'numpy.matmul') or n.startswith('op'):
            return True
        if n == 'getitem':
            return self.opaque_array(args[0]) and any(not isinstance(q, R) for q in args[1:]) or any(
                isinstance(q, SliceV) or isinstance(q, Tup) and any(x is None or isinstance(x, SliceV) for x in q.items) for q in args[1:])
        return False

    def binop1(self, op, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op == '@':
                return self.matmul(a, b)
            r = None if self.opaque_array(a) or self.opaque_array(b) else self.arr_op(op, a, b)
            if r is not None:
                return r
            return T.atom('op' + op, (self.freeze(a), self.freeze(b)))
        if isinstance(a, (R, bool)) and isinstance(b, (R, bool)):
            if op in '&|^' and (isinstance(a, bool) or isinstance(b, bool)):
                x, y = T.truth(a), T.truth(b)
                return vand(x, y) if op == '&' else vor(x, y) if op == '|' else ite(x, vnot(y), y)
            a, b = num(a), num(b)
            if op == '+':
                return T.radd(a, b)
            if op == '-':
                return T.rsub(a, b)
            if op == '*':
                return T.rmul(a, b)
            if op == '/':
                if T.is_const(b) and not b.num:
                    return T.unknown('division by zero')
                return T.rdiv(a, b)
            if op == '//':
                return T.fn('floor', T.rdiv(a, b)) if b.num else T.unknown('division by zero')
            if op == '%':
                return T.fn('mod', a, b)
            if op == '**':
                return T.fn('pow', a, b)
            if op == '&':
                return vand(T.truth(a), T.truth(b)) if not (T.is_const(a) or T.is_const(b)) else T.atom('&', (a, b))
            if op == '|':
                return vor(T.truth(a), T.truth(b)) if not (T.is_const(a) or T.is_const(b)) else T.atom('|', (a, b))
            return T.atom('op' + op, (a, b))
        if isinstance(a, (str, Str)) or isinstance(b, (str, Str)):
            if op == '+':
                if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
                    return mkstr([a, b])
                if isinstance(a, (str, Str)) and b is None or a is None:
                    self.throw('TypeError', 'str + None')
                return mkstr([a, b])
            if op == '%' and isinstance(a, (str, Str)):
                return mkstr([T.atom('%fmt', (a, self.freeze(b)))])
            if op == '*' and isinstance(a, str) and ival(b) is not None:
                return a * ival(b)
        la, lb = self.as_list(a), self.as_list(b)
        if op == '+' and la is not None and lb is not None:
            if isinstance(a, Tup):
                return Tup(la + lb)
            return self.newlist(la + lb)
        if op == '*' and la is not None and ival(b) is not None:
            return Tup(la * ival(b)) if isinstance(a, Tup) else self.newlist(la * ival(b))
        for x, y, d in ((a, b, '__%s__'), (b, a, '__r%s__')):
            if isinstance(x, Ref) and not isinstance(x, DictView):
                o = self.obj(x)
                if o.kind == 'obj' and o.cls is not None and op in DUNDER and o.cls.find(d % DUNDER[op]):
                    return self.call(self.getattr(x, d % DUNDER[op]), [y], {})
        if (a is None or b is None) and not (isinstance(a, Ref) or isinstance(b, Ref)):
            self.throw('TypeError', 'operand is None')
        if isinstance(a, Ref) and self.obj(a).kind == 'dict' and op == '|':
            d = self.newdict(self.obj(a).fields.items())
            self.call_prim(d, 'update', [b], {})
            return d
        if op == '-' and isinstance(a, Ref) and self.obj(a).kind == 'set' and isinstance(b, Ref):
            return self.alloc('set', None, {k: v for k, v in self.obj(a).fields.items() if k not in self.obj(b).fields})
        return T.atom('op' + op, (self.freeze(a), self.freeze(b)))

    def as_list(self, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref) and not isinstance(v, DictView) and self.obj(v).kind == 'list':
            c = self.obj(v).fields[0]
            c = constrain(c, self.g)
            if isinstance(c, Tup):
                return list(c.items)
        return None

    def rows(self, v):
        """The arrays a stacking function joins."""
        if isinstance(v, Arr) and v.dims and isinstance(v.dims[0], int):
            return [self.arr_get(v, (const(i),)) for i in range(v.dims[0])]
        return self.as_list(v)

    # comparisons
    def e_Compare(self, e):
        a = self.ev(e.left)
        res = True
        if len(e.ops) == 1:
            m = self.compare(type(e.ops[0]).__name__, a, self.ev(e.comparators[0]))
            return m if self._masky(m) else truthv(m)
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r)
            res = vand(res, truthv(self.compare(type(op).__name__, a, b))) if not self._masky(res) else res
            a = b
        return res

    def _masky(self, r):
        return any_leaf(r, lambda l: isinstance(l, Arr))

    def arr_compare(self, op, x, y):
        """Elementwise comparison of arrays, or None."""
        if not (isinstance(x, Arr) or isinstance(y, Arr)) or not all(isinstance(q, Arr) or isinstance(q, (R, bool)) and not isobj(q) for q in (x, y)):
            return None
        if op in ('Eq', 'NotEq') and not any(isinstance(q, Arr) and any(not isinstance(d, int) for d in q.dims) for q in (x, y)):
            return None
        p, q = self.arr_of(x), self.arr_of(y)
        if p is None or q is None:
            return None
        d = self.bdims(p.dims, q.dims)
        if d is None:
            return None
        return Arr(d, {k: truthv(self.compare(op, self.bget(p, d, k), self.bget(q, d, k))) for k in self.idxs(d)})

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = T.vmap(self.is1, a, b)
            return r if op == 'Is' else vnot(r)
        if op in ('In', 'NotIn'):
            r = self.cases(b, lambda y: self.contains(y, a))
            return r if op == 'In' else vnot(r)
        if any_leaf(a, lambda l: isinstance(l, Arr)) or any_leaf(b, lambda l: isinstance(l, Arr)):
            none = []

            def el(x, y):
                r = self.arr_compare(op, x, y)
                if r is None:
                    none.append(1)
                return r
            r = T.vmap(el, a, b)
            if not none:
                return r
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            if isinstance(a, Ref) and not isinstance(a, DictView) and self.obj(a).kind == 'obj' and self.obj(a).cls is not None and self.obj(a).cls.find('__ne__'):
                return self.call(self.getattr(a, '__ne__'), [b], {})
            return vnot(self.eq(a, b))

        def leaf(x, y):
            if isinstance(x, (R, bool)) and isinstance(y, (R, bool)):
                x, y = num(x), num(y)
                return {'Lt': lambda: T.lt(x, y), 'LtE': lambda: T.le(x, y), 'Gt': lambda: T.lt(y, x), 'GtE': lambda: T.le(y, x)}[op]()
            if x is None or y is None:
                self.throw('TypeError', 'ordering None')
            if isinstance(x, str) and isinstance(y, str):
                return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
            return T.bool_atom(op, x, y)
        if any_leaf(a, lambda l: l is None) or any_leaf(b, lambda l: l is None):
            return self.cases(a, lambda x: self.cases(b, lambda y: leaf(x, y)))
        return T.vmap(leaf, a, b)

    def is1(self, x, y):
        for p, q in ((x, y), (y, x)):
            if q is None or isinstance(q, bool):
                if p is q:
                    return True
                if isinstance(p, R):
                    if T.is_const(p) or isobj(p):
                        return False
                    i = T.single_atom(p)
                    if i is None or 'notnone' in T._FLAGS[i] or T._FLAGS[i] & {'int', 'pos', 'nonneg', 'real', 'array'} or T.ATOMS[i][0] in T.SPECIAL:
                        return False
                    return T.bool_atom('is', p, q)
                return False
        if T.leaf_eq(x, y):
            return True
        if isinstance(x, R) and isinstance(y, R):
            return T.bool_atom('is', *sorted((x, y), key=T.show))
        if isinstance(x, (Ref, Cls, Ext, Fn, str)) or isinstance(y, (Ref, Cls, Ext, Fn, str)):
            return False
        return T.bool_atom('is', x, y)

    def eq(self, a, b):
        heapy = lambda l: isinstance(l, Ref)
        if any_leaf(a, heapy) or any_leaf(b, heapy):
            return self.cases(a, lambda x: self.cases(b, lambda y: self.eq1(x, y)))
        return T.vmap(self.eq1, a, b)

    def eq1(self, x, y):
        if isinstance(x, Ref) and isinstance(y, Ref) and x == y and not (self.obj(x).kind == 'obj' and self.obj(x).cls and self.obj(x).cls.find('__eq__')):
            return True
        for p, q in ((x, y), (y, x)):
            if isinstance(p, Ref) and not isinstance(p, DictView):
                o = self.obj(p)
                if o.kind == 'obj':
                    if o.cls is not None and o.cls.find('__eq__'):
                        if p is y and isinstance(x, (R,)) and not T.is_const(x):
                            break
                        return self.rich_eq(p, q)
                    if isinstance(q, (R,)) and not T.is_const(q):
                        return T.bool_atom('eq', *sorted((self.freeze(p), q), key=T.show))
                    return p == q
        lx, ly = self.as_list(x), self.as_list(y)
        if lx is not None and ly is not None:
            if isinstance(x, Tup) != isinstance(y, Tup) or len(lx) != len(ly):
                return False
            r = True
            for p, q in zip(lx, ly):
                r = vand(r, truthv(self.eq(p, q)))
                if r is False:
                    return False
            return r
        if isinstance(x, Ref) and isinstance(y, Ref):
            ox, oy = self.obj(x), self.obj(y)
            if ox.kind != oy.kind:
                return False
            if ox.kind == 'dict':
                ks = [k for k in ox.fields if ox.fields[k] is not MISSING]
                if set(map(repr, ks)) != set(repr(k) for k in oy.fields if oy.fields[k] is not MISSING):
                    return False
                r = True
                for k in ks:
                    r = vand(r, truthv(self.eq(ox.fields[k], oy.fields[k])))
                return r
        if isinstance(x, (str, Str)) and isinstance(y, (str, Str)):
            return self.str_eq(x, y)
        if isinstance(x, Arr) and isinstance(y, Arr) and x.dims == y.dims:
            r = True
            for k in x.items:
                r = vand(r, truthv(self.eq(x.items[k], y.items[k])))
            return r
        if isinstance(x, (R, bool)) and isinstance(y, (R, bool)):
            if isobj(x) or isobj(y):
                if T.leaf_eq(x, y):
                    return True
                return T.bool_atom('eq', *sorted((x, y), key=T.show))
            return T.leaf_cmp_eq(x, y)
        concrete = (str, type(None), bool, Cls, Ext, Tup, Ref, Fn)
        if isinstance(x, concrete) and isinstance(y, concrete):
            return T.leaf_eq(x, y)
        if T.leaf_eq(x, y):
            return True
        if isinstance(x, R) and (y is None) and (T.is_const(x) or isobj(x)) or isinstance(y, R) and x is None and (T.is_const(y) or isobj(y)):
            return False
        return T.bool_atom('eq', *sorted((self.freeze(x), self.freeze(y)), key=T.show))

    def rich_eq(self, p, q):
        r = self.call(self.getattr(p, '__eq__'), [q], {})
        ni = Ext('builtins.NotImplemented')

        def leaf(l):
            if l != ni:
                return truthv(self.truth(l))
            if isinstance(q, Ref) and not isinstance(q, DictView) and q != p and self.obj(q).kind == 'obj' and self.obj(q).cls is not None and self.obj(q).cls.find('__eq__'):
                return T.vmap(lambda m: False if m == ni else truthv(self.truth(m)), self.call(self.getattr(q, '__eq__'), [p], {}))
            return p == q
        return self.cases(r, leaf) if any_leaf(r, lambda l: l == ni) else truthv(self.truth(r))

    def str_eq(self, x, y):
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        px = x.parts if isinstance(x, Str) else (x,)
        py = y.parts if isinstance(y, Str) else (y,)
        syms = all(isinstance(p, (str, Sym)) for p in px + py)
        if len(px) == len(py) and all(T.leaf_eq(a, b) for a, b in zip(px, py)):
            return True
        if syms:
            # names are pairwise distinct, non-empty and free of dots
            return False
        return T.bool_atom('eq', x, y)

    def contains(self, y, a):
        """a in y"""
        if isinstance(y, Ref):
            o = self.obj(y)
            if o.kind in ('dict', 'set', 'obj') and (o.kind != 'obj' or isinstance(y, DictView)):
                return self.cases(a, lambda k: self.has_key(y, k))
            if o.kind == 'obj' and o.cls is not None and o.cls.find('__contains__'):
                return self.truth(self.call(self.getattr(y, '__contains__'), [a], {}))
        items = self.try_items(y)
        if isinstance(y, str) and isinstance(a, str):
            return a in y
        if isinstance(y, (str, Str)):
            return T.bool_atom('in', a, y)
        if items is None:
            return T.bool_atom('in', self.freeze(a), self.freeze(y))
        r = False
        for x in items:
            c = True
            if isinstance(x, tuple) and x and x[0] == 'cond':
                _, c, x = x
            r = vor(r, vand(c, truthv(self.eq(a, x))))
        return r

    def has_key(self, d, k):
        o = self.obj(d)
        k = self.key(k)
        f = self.dget(o, k)
        if f is not None:
            return T.vmap(lambda l: l is not MISSING, f)
        if o.open:
            return T.bool_atom('has', o.base, k)
        if isinstance(k, R):
            r = False
            for q, v in o.fields.items():
                if isinstance(q, (str, Str, int)):
                    e = T.bool_atom('eq', k, q if not isinstance(q, int) else const(q))
                    r = vor(r, vand(e, T.vmap(lambda l: l is not MISSING, v)))
            return r
        return False

    def dget(self, o, k):
        try:
            if k in o.fields:
                return o.fields[k]
        except TypeError:
            pass
        if isinstance(k, (R, Tup)):
            for q, v in o.fields.items():
                if type(q) is type(k) and T.leaf_eq(q, k):
                    return v
        return None

    # truth
    def truth(self, v):
        def leaf(l):
            if isinstance(l, Ref):
                o = self.obj(l)
                if o.kind == 'list':
                    c = o.fields[0]
                    return T.vmap(lambda t: bool(t.items) if isinstance(t, Tup) else T.truth(t), c)
                if o.kind in ('dict', 'set'):
                    r = False
                    for x in o.fields.values():
                        r = vor(r, T.vmap(lambda q: q is not MISSING, x))
                    return vor(r, T.bool_atom('nonempty', o.base)) if o.open else r
                if o.kind == 'obj' and o.cls is not None:
                    for d in ('__bool__', '__len__'):
                        if o.cls.find(d):
                            x = self.call(self.getattr(l, d), [], {})
                            return truthv(x)
                return True
            if isobj(l):
                return True
            if isinstance(l, Arr) and self.ambiguous and any(not isinstance(d, int) or d > 1 for d in l.dims):
                self.throw('ValueError', 'truth value of an array')
            return T.truth(l)
        if T._is_boolean(v):
            return v
        if any_leaf(v, lambda l: isinstance(l, Ref) or self.ambiguous and isinstance(l, Arr)):
            return self.cases(v, leaf)
        return T.vmap(leaf, v)

    # subscripts -----------------------------------------------------------
    def e_Subscript(self, e):
        b = self.ev(e.value)
        return self.getitem(b, self.index(e.slice))

    def e_Slice(self, e):
        return SliceV(*[None if x is None else self.ev(x) for x in (e.lower, e.upper, e.step)])

    def index(self, e):
        if isinstance(e, ast.Tuple):
            return Tup([self.index(x) for x in e.elts])
        if isinstance(e, ast.Slice):
            return self.e_Slice(e)
        return self.ev(e)

    def getitem(self, b, i):
        if isinstance(b, V):
            return self.cases(b, lambda l: self.getitem(l, i))
        if isinstance(i, V) and T._is_boolean(i):
            return T.atom('getitem', (self.freeze(b), i))
        if isinstance(i, V):
            return self.cases(i, lambda l: self.getitem(b, l))
        if isinstance(i, SliceV) and any(isinstance(x, V) and not T._is_boolean(x) for x in i.sub_values()):
            return self.cases(T.vmap(lambda *p: i.rebuild(list(p)), *i.sub_values()), lambda l: self.getitem(b, l))
        if isinstance(b, Ref):
            o = self.obj(b)
            if o.kind == 'obj' and not isinstance(b, DictView):
                if o.cls is not None and o.cls.find('__getitem__'):
                    return self.call(self.getattr(b, '__getitem__'), [i], {})
                if o.open:
                    return T.atom('getitem', (o.base, self.freeze(i)))
                self.throw('TypeError', 'not subscriptable')
            if o.kind in ('dict', 'obj'):
                k = self.key(i)
                f = self.dget(o, k)
                if f is None:
                    if o.open:
                        if getattr(self, 'tryctx', 0):
                            self.throw_if(vnot(T.bool_atom('has', o.base, k)), 'KeyError')
                        if self.lazy is not None:
                            v = self.lazy(self, b, o, k)
                            if v is not NotImplemented:
                                return v
                        return T.atom('item', (o.base, k))
                    if isinstance(k, R):
                        r = None
                        for q, v in o.fields.items():
                            if isinstance(q, (str, Str, int)) and v is not MISSING:
                                e = T.bool_atom('eq', k, q if not isinstance(q, int) else const(q))
                                r = (e, v, r)
                        if r is not None:
                            none = vnot(self.has_key(b, k))
                            self.throw_if(none, 'KeyError')

                            def build(r):
                                return T.unknown('no key') if r is None else ite(r[0], r[1], build(r[2]))
                            return constrain(build(r), self.g)
                    self.throw('KeyError', T.show(k))
                f = constrain(f, self.g)
                m = T.vmap(lambda l: l is MISSING, f)
                if m is not False:
                    self.throw_if(m, 'KeyError', T.show(k))
                    f = constrain(f, self.g)
                return f
            if o.kind == 'list':
                c = o.fields[0]
                if isinstance(c, V):
                    return self.cases(c, lambda t: self.seq_get(t, i, True))
                return self.seq_get(c, i, True)
        if isinstance(b, Tup):
            return self.seq_get(b, i, False)
        if isinstance(b, (str, Str)):
            return self.str_get(b, i)
        if isinstance(b, Arr):
            ix = i.items if isinstance(i, Tup) else (i,)
            r = self.arr_get(b, ix)
            if r is not None:
                return r
            return T.atom('getitem', (b, self.freeze(i)))
        if isinstance(b, (R, Ext)):
            if isinstance(b, R):
                a = T.single_atom(b)
                n = ival(i)
                if a is not None and T.ATOMS[a][0] == 'map' and n is not None and n >= 0:
                    _, d, body = T.ATOMS[a][1]
                    if not T.has_unknown(body):
                        return T.open_(d, body, const(n)) if False else T.atom('getitem', (b, i))
            return T.atom('getitem', (b, self.freeze(i)))
        if b is None:
            self.throw('TypeError', 'None is not subscriptable')
        raise NoVerdict('subscript of %r' % (b,))

    def seq_get(self, t, i, is_list):
        if not isinstance(t, Tup):
            return T.atom('getitem', (t, self.freeze(i)))
        n = len(t.items)
        if isinstance(i, SliceV):
            ks = [None if x is None else ival(x) for x in i.sub_values()]
            if any(k is None and x is not None for k, x in zip(ks, i.sub_values())):
                return T.atom('getitem', (self.freeze(t), self.freeze(i)))
            items = t.items[slice(*ks)]
            return self.newlist(items) if is_list else Tup(items)
        k = ival(i)
        if k is None:
            if isinstance(i, R):
                return T.atom('getitem', (self.freeze(t), i))
            self.throw('TypeError', 'list index')
        if not -n <= k < n:
            self.throw('IndexError', 'index %d of %d' % (k, n))
        return t.items[k]

    def str_get(self, s, i):
        if isinstance(s, str) and isinstance(i, SliceV):
            ks = [None if x is None else ival(x) for x in i.sub_values()]
            if not any(k is None and x is not None for k, x in zip(ks, i.sub_values())):
                return s[slice(*ks)]
        if isinstance(s, str) and ival(i) is not None:
            return s[ival(i)]
        if isinstance(i, SliceV) and i.c is None:
            parts = s.parts if isinstance(s, Str) else (s,)
            lo = self.str_cut(parts, i.a) if i.a is not None else (0, 0)
            hi = self.str_cut(parts, i.b) if i.b is not None else (len(parts), 0)
            if lo is not None and hi is not None:
                return mkstr(self.str_between(parts, lo, hi))
        return mkstr([T.atom('strslice', (s, self.freeze(i)))])

    def str_between(self, parts, lo, hi):
        out = []
        for k, p in enumerate(parts):
            a = 0
            b = None
            if k < lo[0] or k > hi[0] or (k == hi[0] and hi[1] == 0):
                continue
            if k == lo[0]:
                a = lo[1]
            if k == hi[0]:
                b = hi[1]
            if isinstance(p, str):
                out.append(p[a:b])
            else:
                out.append(p)
        return out

    def str_cut(self, parts, n):
        """Split point (part, offset) at length n, when n falls on a known boundary."""
        acc = T.ZERO
        for k, p in enumerate(parts):
            d = T.rsub(n, acc) if isinstance(n, R) else None
            if d is None:
                return None
            if T.is_const(d):
                c = int(T.cval(d))
                if isinstance(p, str) and 0 <= c <= len(p):
                    return (k, c)
                if c == 0:
                    return (k, 0)
                if c < 0:
                    return None
                if not isinstance(p, str):
                    return None
            acc = T.radd(acc, self.strlen1(p))
        d = T.rsub(n, acc)
        if T.is_const(d) and T.cval(d) >= 0:
            return (len(parts), 0)
        return None

    def strlen1(self, p):
        if isinstance(p, str):
            return const(len(p))
        return T.atom('len', (p,), ('int', 'pos'))

    def strlen(self, s):
        if isinstance(s, str):
            return const(len(s))
        r = T.ZERO
        for p in s.parts:
            r = T.radd(r, self.strlen1(p))
        return r

    def setitem(self, node, b, i, v):
        if isinstance(b, V):
            return self.cases(b, lambda l: self.setitem(node, l, i, v))
        if isinstance(b, Ref):
            o = self.obj(b)
            if o.kind == 'obj' and not isinstance(b, DictView):
                if o.cls is not None and o.cls.find('__setitem__'):
                    return self.call(self.getattr(b, '__setitem__'), [i, v], {})
                self.emit('mutate', '[]=', [i, v], {}, b)
                return
            if isinstance(i, V):
                return self.cases(i, lambda l: self.setitem(node, b, l, v))
            self.emit('mutate', '[]=', [i, v], {}, b)
            if o.kind in ('dict', 'obj'):
                k = self.key(i)
                for q in o.fields:
                    if isinstance(q, (R, Tup)) and isinstance(k, (R, Tup)) and T.leaf_eq(q, k):
                        k = q
                self.wr(b).fields[k] = v
                return
            if o.kind == 'list':
                c = constrain(o.fields[0], self.g)
                k = ival(i)
                if k is not None and isinstance(c, Tup) and -len(c.items) <= k < len(c.items):
                    l = list(c.items)
                    l[k] = v
                    self.wr(b).fields[0] = Tup(l)
                    return
                if k is not None and isinstance(c, V):
                    def st(t):
                        if not isinstance(t, Tup) or not -len(t.items) <= k < len(t.items):
                            return t
                        l = list(t.items)
                        l[k] = v
                        return Tup(l)
                    self.wr(b).fields[0] = T.vmap(st, c)
                    return
                if isinstance(i, SliceV) and i.a is None and i.b is None:
                    self.wr(b).fields[0] = Tup(self.seq_items(v))
                    return
                self.wr(b).fields[0] = T.unknown('list store')
                return
        self.emit('mutate', '[]=', [i, v], {}, b)
        new = None
        if isinstance(b, Arr):
            new = self.arr_set(b, i, v)
        if new is None:
            new = T.atom('setitem', (self.freeze(b), self.freeze(i), self.freeze(v)))
        self.aliased(b, new)
        t = node.value
        if isinstance(t, ast.Name):
            self.setvar(t.id, new)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            if isinstance(base, Ref):
                self.wr(base).fields[t.attr] = new
        elif isinstance(t, ast.Subscript):
            self.setitem(t, self.ev(t.value), self.index(t.slice), new)

    def aliased(self, b, new):
        """A store into array b is seen by everything that holds it (only where arrays carry their provenance)."""

    # strings ---------------------------------------------------------------
    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value)
                parts.append(('fmt', x, chr(v.conversion) if v.conversion != -1 else '', v.format_spec))
        return self.build_str(parts)

    def build_str(self, parts):
        def go(i, acc):
            if i == len(parts):
                return mkstr(acc)
            p = parts[i]
            if isinstance(p, str):
                return go(i + 1, acc + [p])
            return self.cases(p[1], lambda l: go(i + 1, acc + [self.text(l, p[2], self.format_spec(p[3]) if len(p) > 3 else None)]))
        return go(0, [])

    def format_spec(self, spec):
        if isinstance(spec, ast.AST):
            spec = self.ev(spec)
        return spec or None

    def text(self, l, conv, spec=None):
        if spec is not None:
            if isinstance(l, (R, Arr)) and (isobj(l) if isinstance(l, R) else True) or not isinstance(spec, str):
                return T.atom('format', (self.freeze(l), spec))
            if isinstance(l, R):
                return T.atom('format', (l, spec))
            return T.atom('format', (self.freeze(l), spec))
        seq = l if isinstance(l, Tup) else None
        br = '()'
        if isinstance(l, Ref) and not isinstance(l, DictView) and self.obj(l).kind == 'list' and isinstance(self.obj(l).fields.get(0), Tup):
            seq, br = self.obj(l).fields[0], '[]'
        if seq is not None and len(seq.items) < 40:
            parts = [br[0]]
            for i, x in enumerate(seq.items):
                parts += ([', '] if i else []) + [('fmt', x, 'r')]
            parts.append(br[1] if br == '[]' or len(seq.items) != 1 else ',' + br[1])
            return self.build_str(parts)
        if conv != 'r':
            if isinstance(l, (str, Str)):
                return l
            if ival(l) is not None and not isinstance(l, bool):
                return str(ival(l))
            if isinstance(l, Cls):
                return l.info.name
        if conv == 'r' and isinstance(l, Ref) and self.obj(l).kind == 'obj':
            c = self.obj(l).cls
            if c is not None and c.find('__repr__'):
                return self.call(self.getattr(l, '__repr__'), [], {})
        if conv == 'r' and isinstance(l, Ref):
            return T.atom('repr', (self.freeze(l),))
        if l is None or isinstance(l, bool):
            return str(l)
        return T.atom('repr' if conv == 'r' else 'str', (self.freeze(l),))

    # calls -----------------------------------------------------------------
    def e_Call(self, e):
        loc = self.loc
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.super_obj(self.curcls, self.curself)
        f = self.ev(e.func)
        args = []
        kw = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                v = constrain(v, self.g)
                if isinstance(v, V):
                    i = e.args.index(a)
                    if i != len(e.args) - 1:
                        raise NoVerdict('conditional star argument')
                    base = list(args)
                    kws = [(k.arg, self.ev(k.value)) for k in e.keywords]
                    if any(k is None for k, _ in kws):
                        raise NoVerdict('conditional star argument')
                    return self.cases(v, lambda l: self.call(f, base + self.seq_items(l), dict(kws)))
                items = self.try_items(v)
                if items is None:
                    args.append(T.atom('star', (self.freeze(v),)))
                else:
                    args += self.seq_items(v)
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            if k.arg is not None:
                kw[k.arg] = self.ev(k.value)
            else:
                d = self.ev(k.value)
                d = constrain(d, self.g)
                if isinstance(d, V):
                    raise NoVerdict('conditional ** argument')
                if isinstance(d, Ref) and self.obj(d).kind in ('dict', 'obj'):
                    o = self.obj(d)
                    for n, v in o.fields.items():
                        if v is not MISSING:
                            kw[n] = v
                    if o.open:
                        kw['**'] = o.base
                else:
                    kw['**'] = self.freeze(d)
        self.loc = loc
        if kw.get('out') is not None and isinstance(f, Ext) and f.path.startswith('numpy.') and '**' not in kw:
            # the result is stored into the elements of the given array
            t = next((k.value for k in e.keywords if k.arg == 'out'), None)
            if isinstance(t, ast.Tuple) and len(t.elts) == 1:
                t = t.elts[0]
            o = kw.pop('out')
            if isinstance(o, Tup) and len(o.items) == 1:
                o = o.items[0]
            r = self.call(f, args, kw)
            if not isinstance(t, (ast.Name, ast.Attribute, ast.Subscript)):
                raise NoVerdict('out argument')
            n = ast.copy_location(ast.Subscript(value=t, slice=ast.Slice(), ctx=ast.Store()), e)
            self.setitem(n, o, SliceV(None, None, None), r)
            return self.ev(t)
        return self.call(f, args, kw)

    def super_obj(self, cls, obj):
        return SuperView(cls, obj)

    # ------------------------------------------------------------ primitives
    def call_prim(self, r, name, args, kw):
        if isinstance(r, V):
            return self.cases(r, lambda l: self.call_prim(l, name, args, kw))
        if isinstance(r, Cls):
            if name == '__new__':
                ci = args[0].info if args and isinstance(args[0], Cls) else r.info
                return self.instance(ci)
            return None
        if isinstance(r, Tup):
            return self.seq_method(r, name, args)
        if isinstance(r, (str, Str)):
            return self.str_method(r, name, args, kw)
        if isinstance(r, Arr):
            return self.arr_method(r, name, args, kw)
        o = self.obj(r)
        if o.kind == 'list':
            return self.list_method(r, o, name, args, kw)
        if o.kind == 'set':
            return self.set_method(r, o, name, args)
        return self.dict_method(r, o, name, args, kw)

    def seq_method(self, r, name, args):
        if name == 'index':
            for i, x in enumerate(r.items):
                c = truthv(self.eq(x, args[0]))
                if c is True:
                    return const(i)
                if c is not False:
                    return T.atom('index', (self.freeze(r), self.freeze(args[0])))
            self.throw('ValueError', 'not in sequence')
        if name == 'count':
            n = T.ZERO
            for x in r.items:
                n = T.vadd(n, ite(truthv(self.eq(x, args[0])), T.ONE, T.ZERO))
            return n
        if name in ('tolist', 'copy'):
            return r
        raise NoVerdict('tuple.' + name)

    def set_method(self, r, o, name, args):
        if name == 'add':
            self.wr(r).fields[self.key(args[0])] = True
            return None
        if name in ('copy', 'union'):
            n = self.alloc('set', None, dict(o.fields))
            for a in args:
                for x in self.seq_items(a):
                    self.wr(n).fields[self.key(x)] = True
            return n
        if name in ('discard', 'remove'):
            self.wr(r).fields.pop(self.key(args[0]), None)
            return None
        if name == 'update':
            for x in self.seq_items(args[0]):
                self.wr(r).fields[self.key(x)] = True
            return None
        raise NoVerdict('set.' + name)

    def list_method(self, r, o, name, args, kw):
        c = constrain(o.fields[0], self.g)
        if name in ('append', 'extend', 'insert', 'pop', 'clear', 'reverse', 'remove', 'sort', '__delitem__'):
            self.emit('mutate', name, args, {}, r)

        def upd(f):
            self.wr(r).fields[0] = T.vmap(lambda t: f(t) if isinstance(t, Tup) else T.unknown('list'), c) if isinstance(c, V) else (
                f(c) if isinstance(c, Tup) else T.unknown('list'))
        if name == 'append':
            upd(lambda t: Tup(t.items + (args[0],)))
            return None
        if name == 'extend':
            def ext(l):
                items = self.try_items(l)
                cc = constrain(self.obj(r).fields[0], self.g)
                if items is None or not isinstance(cc, (Tup, V)):
                    self.wr(r).fields[0] = T.unknown('list extend')
                    return None
                for x in items:
                    if isinstance(x, tuple) and x and x[0] == 'cond':
                        cc = T.vmap(lambda t, q, x=x: (Tup(t.items + (x[2],)) if q else t) if isinstance(t, Tup) else t, cc, x[1])
                    else:
                        cc = T.vmap(lambda t, x=x: Tup(t.items + (x,)) if isinstance(t, Tup) else t, cc)
                self.wr(r).fields[0] = cc
                return None
            return self.cases(args[0], ext)
        if name == 'insert':
            k = ival(args[0])
            if k is None:
                self.wr(r).fields[0] = T.unknown('list insert')
            else:
                def ins(t):
                    l = list(t.items)
                    l.insert(k, args[1])
                    return Tup(l)
                upd(ins)
            return None
        if name == 'pop':
            k = ival(args[0]) if args else -1
            if k is None or not isinstance(c, (Tup, V)):
                self.wr(r).fields[0] = T.unknown('list pop')
                return T.unknown('list pop')
            bad = T.vmap(lambda t: not (isinstance(t, Tup) and -len(t.items) <= k < len(t.items)), c)
            self.throw_if(bad, 'IndexError', 'pop')
            c = constrain(c, self.g)
            v = T.vmap(lambda t: t.items[k], c)

            def rem(t):
                l = list(t.items)
                l.pop(k)
                return Tup(l)
            self.wr(r).fields[0] = T.vmap(rem, c)
            return v
        if name == 'copy':
            return self.alloc('list', None, {0: c})
        if name == 'clear':
            self.wr(r).fields[0] = Tup(())
            return None
        if name == 'reverse':
            upd(lambda t: Tup(t.items[::-1]))
            return None
        if name == 'index' or name == 'count':
            return self.cases(c, lambda t: self.seq_method(t, name, args) if isinstance(t, Tup) else T.atom(name, (t, self.freeze(args[0]))))
        if name == '__delitem__':
            k = ival(args[0])
            if k is None:
                self.wr(r).fields[0] = T.unknown('list del')
            else:
                def rm(t):
                    l = list(t.items)
                    if -len(l) <= k < len(l):
                        del l[k]
                    return Tup(l)
                upd(rm)
            return None
        if name in ('remove', 'sort'):
            self.wr(r).fields[0] = T.unknown('list ' + name)
            return None
        raise NoVerdict('list.' + name)

    def dict_method(self, r, o, name, args, kw):
        if name in ('pop', 'update', 'setdefault', 'clear', 'popitem', '__delitem__', '__setitem__'):
            self.emit('mutate', name, args, kw, r)
        if name in ('get', 'pop', 'setdefault', '__delitem__', '__getitem__'):
            if isinstance(args[0], V):
                return self.cases(args[0], lambda l: self.dict_method(r, self.obj(r), name, [l] + args[1:], kw))
            k = self.key(args[0])
            f = self.dget(o, k)
            dflt = args[1] if len(args) > 1 else None
            if f is None and isinstance(k, R) and not o.open and name == 'get':
                out = dflt
                for q, v in o.fields.items():
                    if isinstance(q, (str, Str, int)) and v is not MISSING:
                        out = ite(T.bool_atom('eq', k, q if not isinstance(q, int) else const(q)), self.fill(v, dflt), out)
                return out
            if f is None:
                if o.open:
                    v = NotImplemented
                    if self.lazy is not None:
                        v = self.lazy(self, r, o, k)
                    if v is NotImplemented:
                        v = T.atom('item', (o.base, k))
                    f = ite(T.bool_atom('has', o.base, k), v, MISSING)
                else:
                    f = MISSING
            f = constrain(f, self.g)
            if name == 'get':
                return self.fill(f, dflt)
            if name == '__getitem__':
                return self.getitem(r, k)
            if name == 'setdefault':
                v = self.fill(f, dflt)
                self.wr(r).fields[k] = v
                return v
            miss = T.vmap(lambda l: l is MISSING, f)
            if name == '__delitem__' or len(args) < 2:
                self.throw_if(miss, 'KeyError', T.show(k))
                f = constrain(f, self.g)
            self.wr(r).fields[k] = MISSING
            return self.fill(f, dflt) if name == 'pop' else None
        if name == 'update':
            for a in args:
                def up(l):
                    if isinstance(l, Ref) and self.obj(l).kind in ('dict', 'obj'):
                        src = self.obj(l)
                        f = self.wr(r).fields
                        for k, v in src.fields.items():
                            if isinstance(v, V):
                                f[k] = T.vmap(lambda x, y: y if x is MISSING else x, v, f.get(k, MISSING))
                            elif v is not MISSING:
                                f[k] = v
                        if src.open:
                            w = self.wr(r)
                            w.open = True
                            w.base = src.base if w.base is None else T.atom('merge', (w.base, src.base))
                        return None
                    for x in self.seq_items(l):
                        p = self.seq_items(x)
                        self.wr(r).fields[self.key(p[0])] = p[1]
                    return None
                self.cases(a, up)
            for k, v in kw.items():
                if k == '**':
                    w = self.wr(r)
                    w.open = True
                    w.base = v
                    continue
                f = self.wr(r).fields
                f[k] = T.vmap(lambda x, y: y if x is MISSING else x, v, f.get(k, MISSING)) if isinstance(v, V) else v
            return None
        if name == 'copy':
            return self.alloc('dict', None, {k: v for k, v in o.fields.items() if v is not MISSING}, o.open, o.base)
        if name in ('keys', 'values', 'items'):
            if o.open:
                return T.atom('.' + name, (o.base,))
            out = []
            for k, v in o.fields.items():
                v = constrain(v, self.g)
                p = T.vmap(lambda q: q is not MISSING, v)
                if p is False:
                    continue
                kk = const(k) if isinstance(k, int) and not isinstance(k, bool) else k
                vv = constrain(v, p) if p is not True else v
                x = kk if name == 'keys' else vv if name == 'values' else Tup((kk, vv))
                out.append(x if p is True else ('cond', p, x))
            return Tup(out) if not any(isinstance(x, tuple) for x in out) else self.finish_comp(out)
        if name == 'clear':
            w = self.wr(r)
            for k in w.fields:
                w.fields[k] = MISSING
            return None
        if name == '__setitem__':
            self.wr(r).fields[self.key(args[0])] = args[1]
            return None
        if name == 'move_to_end':
            return None
        raise NoVerdict('dict.' + name)

    def str_method(self, s, name, args, kw):
        if name == 'format':
            return self.str_format(s, args, kw)
        if isinstance(s, str) and all(isinstance(a, str) for a in args) and name in (
                'lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'split', 'rsplit', 'partition', 'rpartition', 'title',
                'capitalize', 'lstrip', 'rstrip', 'removeprefix', 'removesuffix', 'find', 'isdigit', 'count', 'splitlines'):
            r = getattr(s, name)(*args)
            if isinstance(r, list):
                return self.newlist(r)
            if isinstance(r, tuple):
                return Tup(r)
            if isinstance(r, int) and not isinstance(r, bool):
                return const(r)
            return r
        if name == 'join':
            def jn(l):
                items = self.try_items(l)
                if items is None:
                    return mkstr([T.atom('join', (s, self.freeze(l)))])
                out = []
                for x in items:
                    if isinstance(x, V) or isinstance(x, tuple):
                        return mkstr([T.atom('join', (s, self.freeze(l)))])
                    if out:
                        out.append(s)
                    out.append(x)
                return mkstr(out)
            return self.cases(args[0], jn)
        if isinstance(s, Str) and all(isinstance(p, (str, Sym)) for p in s.parts):
            r = self.sym_method(s, name, args)
            if r is not None:
                return r
        if isinstance(s, str) and args and isinstance(args[0], Str) and name in ('startswith', 'endswith'):
            r = self.sym_prefix((s,), args[0].parts, name == 'endswith')
            if r is not None:
                return r
        if name in ('startswith', 'endswith'):
            return T.bool_atom(name, s, self.freeze(args[0]))
        if name in ('split', 'rsplit', 'partition', 'rpartition'):
            return T.atom('.' + name, (s,) + tuple(self.freeze(a) for a in args))
        return mkstr([T.atom('.' + name, (s,) + tuple(self.freeze(a) for a in args))])

    def sym_prefix(self, parts, pre, rev=False):
        """Does `parts` start with `pre`?  None: depends on how the names happen to be spelled."""
        if rev:
            parts = tuple(p[::-1] if isinstance(p, str) else p for p in reversed(parts))
            pre = tuple(p[::-1] if isinstance(p, str) else p for p in reversed(pre))
        parts, pre = list(parts), list(pre)
        while pre:
            if not parts:
                return False
            a, b = parts[0], pre[0]
            if isinstance(a, Sym) and isinstance(b, Sym):
                if a == b:
                    parts.pop(0)
                    pre.pop(0)
                    continue
                # distinct names: b may be spelled as a prefix of a, unless a separator follows b but not there in a
                rest = pre[1:]
                if not rest:
                    return None                      # may be a spelled prefix
                if isinstance(rest[0], str) and rest[0].startswith('.'):
                    return False                     # b + '.' cannot be inside a dot-free name a, and a != b
                return None
            if isinstance(a, str) and isinstance(b, str):
                n = min(len(a), len(b))
                if a[:n] != b[:n]:
                    return False
                parts[0], pre[0] = a[n:], b[n:]
                if parts[0] == '':
                    parts.pop(0)
                if pre[0] == '':
                    pre.pop(0)
                continue
            if isinstance(a, Sym) and isinstance(b, str):
                if b.startswith('.'):
                    return False
                return None
            if isinstance(a, str) and isinstance(b, Sym):
                if a.startswith('.'):
                    return False
                return None
        return True

    def sym_method(self, s, name, args):
        if name in ('startswith', 'endswith') and isinstance(args[0], (str, Str)):
            pre = args[0].parts if isinstance(args[0], Str) else (args[0],)
            if args[0] == '':
                return True
            if all(isinstance(p, (str, Sym)) for p in pre):
                return self.sym_prefix(s.parts, pre, name == 'endswith')
            return None
        if name in ('split', 'rsplit', 'partition', 'rpartition') and args and args[0] == '.':
            toks = [[]]
            for p in s.parts:
                if isinstance(p, str):
                    bits = p.split('.')
                    toks[-1].append(bits[0])
                    for b in bits[1:]:
                        toks.append([b])
                else:
                    toks[-1].append(p)
            toks = [mkstr(t) for t in toks]
            if name == 'partition':
                return Tup((toks[0], '.' if len(toks) > 1 else '', self.jn(toks[1:])))
            if name == 'rpartition':
                return Tup((self.jn(toks[:-1]), '.' if len(toks) > 1 else '', toks[-1]))
            mx = ival(args[1]) if len(args) > 1 else None
            if mx is not None and mx >= 0 and len(toks) > mx + 1:
                toks = toks[:mx] + [self.jn(toks[mx:])] if name == 'split' else [self.jn(toks[:-mx])] + toks[-mx:] if mx else [self.jn(toks)]
            return self.newlist(toks)
        if name in ('removeprefix', 'removesuffix') and isinstance(args[0], (str, Str)):
            pre = args[0].parts if isinstance(args[0], Str) else (args[0],)
            r = self.sym_prefix(s.parts, pre, name == 'removesuffix')
            if r is True:
                n = self.strlen(args[0])
                return self.str_get(s, SliceV(n, None, None)) if name == 'removeprefix' else self.str_get(s, SliceV(None, T.rsub(self.strlen(s), n), None))
            if r is False:
                return s
        if name in ('count',) and args and args[0] == '.':
            return const(sum(p.count('.') for p in s.parts if isinstance(p, str)))
        if name in ('find', 'index') and args and args[0] == '.':
            acc = T.ZERO
            for p in s.parts:
                if isinstance(p, str) and '.' in p:
                    return T.radd(acc, const(p.index('.')))
                acc = T.radd(acc, self.strlen1(p))
            return const(-1)
        return None

    def jn(self, toks):
        out = []
        for t in toks:
            if out:
                out.append('.')
            out.append(t)
        return mkstr(out)

    def str_format(self, s, args, kw):
        if not isinstance(s, str):
            return mkstr([T.atom('.format', (s,) + tuple(self.freeze(a) for a in args))])
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(lit)
                if field is not None:
                    f = field
                    if f == '':
                        f = str(auto)
                        auto += 1
                    if f.isdigit() and int(f) < len(args):
                        v = args[int(f)]
                    elif f in kw:
                        v = kw[f]
                    else:
                        v = T.atom('fmtfield', (f,))
                    parts.append(('fmt', v, conv or '', spec))
        except ValueError:
            raise NoVerdict('format string')
        return self.build_str(parts)

    # ------------------------------------------------------------- arrays
    def arr_of(self, v):
        """Numeric leaf as Arr (scalars get dims ())."""
        if isinstance(v, Arr):
            return v
        if isinstance(v, (R, bool, V)):
            return Arr((), {(): num(v) if not isinstance(v, V) else v})
        l = self.as_list(v)
        if l is not None:
            return self.stackarr([self.arr_of(x) for x in l])
        return None

    def stackarr(self, arrs):
        if not arrs or any(a is None for a in arrs):
            return None
        d = None
        for a in arrs:
            d = a.dims if d is None else self.bdims(d, a.dims)
            if d is None:
                return None
        if any(a.dims != d for a in arrs):
            return None
        items = {}
        for i, a in enumerate(arrs):
            for k, x in a.items.items():
                items[(i,) + k] = x
        return Arr((len(arrs),) + d, items)

    def bdims(self, a, b):
        n = max(len(a), len(b))
        a = (1,) * (n - len(a)) + tuple(a)
        b = (1,) * (n - len(b)) + tuple(b)
        out = []
        for x, y in zip(a, b):
            if x == y:
                out.append(x)
            elif x == 1:
                out.append(y)
            elif y == 1:
                out.append(x)
            else:
                return None
        return tuple(out)

    @staticmethod
    def conc(dims):
        return [d for d in dims if isinstance(d, int)]

    def idxs(self, dims):
        out = [()]
        for d in dims:
            if isinstance(d, int):
                out = [o + (i,) for o in out for i in range(d)]
        return out

    def bget(self, a, dims, k):
        """Element of a broadcast to dims at concrete index k."""
        off = len(dims) - len(a.dims)
        pos = []
        ci = 0
        for j, d in enumerate(dims):
            if isinstance(d, int):
                ix = k[ci]
                ci += 1
            else:
                ix = None
            if j >= off:
                ad = a.dims[j - off]
                if isinstance(ad, int):
                    pos.append(0 if ad == 1 else ix)
        return a.items[tuple(pos)]

    def arr_op(self, op, a, b):
        if op not in ('+', '-', '*', '/', '**', '//', '%', '&', '|', '^'):
            return None
        x, y = self.arr_of(a), self.arr_of(b)
        if x is None or y is None:
            return None
        d = self.bdims(x.dims, y.dims)
        if d is None:
            self.emit('shape-error', op, [a, b], {})
            return T.unknown('shape mismatch')
        r = Arr(d, {k: self.binop(op, self.bget(x, d, k), self.bget(y, d, k)) for k in self.idxs(d)})
        ms = [z for z in (x, y) if isinstance(z, MArr)]
        if ms:
            return MArr(d, r.items, Arr(d, {k: any(self.bget(z.mask, d, k) is True for z in ms) for k in self.idxs(d)}))
        return r

    def matmul(self, a, b):
        x, y = self.arr_of(a), self.arr_of(b)
        if x is None or y is None or not x.dims or not y.dims:
            return T.atom('op@', (self.freeze(a), self.freeze(b)))
        ax = len(x.dims) - 1
        by = max(0, len(y.dims) - 2)
        if len(y.dims) > 2:
            return T.atom('op@', (self.freeze(a), self.freeze(b)))
        if x.dims[ax] != y.dims[by]:
            self.emit('shape-error', '@', [a, b], {})
            return T.unknown('shape mismatch')
        n = x.dims[ax]
        if not isinstance(n, int):
            return T.atom('op@', (self.freeze(a), self.freeze(b)))
        d = x.dims[:-1] + tuple(v for j, v in enumerate(y.dims) if j != by)
        nx = len(self.conc(x.dims[:-1]))
        items = {}
        for k in self.idxs(d):
            kx, ky = k[:nx], k[nx:]
            s = T.ZERO
            for m in range(n):
                # y index order: (m, rest) since the contracted axis comes first of its concrete ones
                if len(y.dims) == 1:
                    yi = (m,)
                else:
                    yi = (m,) + ky
                s = T.vadd(s, T.vmul(x.items[kx + (m,)], y.items[yi]))
            items[k] = s
        if d == ():
            return items[()]
        return Arr(d, items)

    def transpose(self, a):
        nd = a.dims[::-1]
        return Arr(nd, {k[::-1]: v for k, v in a.items.items()})

    def arr_attr(self, a, name):
        if isinstance(a, MArr):
            if name == 'mask':
                return a.mask
            if name == 'data':
                return Arr(a.dims, a.items)
            if name in ('filled', 'compressed'):
                return Prim(a, name)
        if name in ('real', 'imag'):
            return self.elementwise(a, lambda x: cparts(x)[name == 'imag'])
        if name in ('mean', 'nonzero', 'any', 'all', 'conj', 'conjugate', 'max', 'min'):
            return Prim(a, name)
        if name == 'T':
            return self.transpose(a)
        if name == 'shape':
            return Tup([const(d) if isinstance(d, int) else T.atom('dim', (d,), ('int', 'pos')) for d in a.dims])
        if name == 'ndim':
            return const(len(a.dims))
        if name == 'size':
            n = const(1)
            for d in a.dims:
                n = self.binop("*", n, const(d) if isinstance(d, int) else T.atom("dim", (d,), ("int", "pos")))
            return n
        if name in ('ravel', 'flatten', 'copy', 'tolist', 'reshape', 'transpose', 'dot', 'astype', 'sum', 'item', 'squeeze', '__len__'):
            return Prim(a, name)
        return T.atom('attr', (a, name))

    def arr_method(self, a, name, args, kw):
        if name in ('reshape', 'ravel', 'flatten', 'transpose', 'copy', 'astype') and isinstance(a, MArr):
            r, m = self.arr_method(Arr(a.dims, a.items), name, args, kw), self.arr_method(a.mask, name, args, kw)
            return MArr(r.dims, r.items, m) if isinstance(r, Arr) and isinstance(m, Arr) else r
        if name == 'filled' and len(args) == 1:
            return Arr(a.dims, {k: self.arr_of(args[0]).items[()] if a.mask.items[k] is True else v for k, v in a.items.items()})
        if name == 'compressed' and not args:
            return self.fancy_get(Arr(a.dims, a.items), [self.invert(a.mask)])
        if name in ('mean', 'nonzero', 'any', 'all', 'conj', 'conjugate', 'sum', 'max', 'min'):
            f = getattr(self, 'n_' + name, None)
            r = f([a] + list(args), kw) if f is not None else None
            if r is not None:
                return r
        if name in ('ravel', 'flatten') and all(isinstance(d, int) for d in a.dims):
            ks = a.keys()
            return Arr((len(ks),), {(i,): a.items[k] for i, k in enumerate(ks)})
        if name in ('copy', 'astype'):
            return Arr(a.dims, a.items) if type(a) is LiveArr else a
        if name == 'tolist' and all(isinstance(d, int) for d in a.dims):
            if len(a.dims) == 1:
                return self.newlist([a.items[(i,)] for i in range(a.dims[0])])
            return T.atom('.tolist', (a,))
        if name == 'transpose' and not args:
            return self.transpose(a)
        if name == 'dot':
            return self.matmul(a, args[0])
        if name == '__len__' and isinstance(a.dims[0], int):
            return const(a.dims[0])
        if name == 'reshape' and len(args) <= 2 and all(isinstance(d, int) for d in a.dims):
            sh = [ival(x) for x in (args[0].items if isinstance(args[0], Tup) else args)]
            n = len(a.items)
            if all(x is not None for x in sh):
                if sh.count(-1) == 1:
                    p = 1
                    for x in sh:
                        p *= x if x != -1 else 1
                    sh[sh.index(-1)] = n // p if p else 0
                vals = [a.items[k] for k in a.keys()]
                ks = self.idxs(sh)
                if len(ks) == len(vals):
                    return Arr(sh, dict(zip(ks, vals)))
        return T.atom('.' + name, (a,) + tuple(self.freeze(x) for x in args) + tuple((k, self.freeze(v)) for k, v in sorted(kw.items())))

    def arr_get(self, a, ix):
        """a[ix...] with concrete ints, full/concrete slices, None and Ellipsis."""
        ix = list(ix)
        r = self.fancy_get(a, ix)
        if r is not None:
            return r
        nn = sum(1 for x in ix if x is not None and not (isinstance(x, Ext) and x.path.endswith('Ellipsis')))
        if any(isinstance(x, Ext) and x.path.endswith('Ellipsis') for x in ix):
            k = [j for j, x in enumerate(ix) if isinstance(x, Ext)][0]
            ix[k:k + 1] = [SliceV(None, None, None)] * (len(a.dims) - nn)
        else:
            ix += [SliceV(None, None, None)] * (len(a.dims) - nn)
        dims = []
        sel = []       # per source concrete axis: list of source indices, or int
        plan = []      # output concrete axes -> source concrete axis ordinal or None
        ax = 0
        for x in ix:
            if x is None:
                dims.append(1)
                plan.append(None)
                continue
            if ax >= len(a.dims):
                self.throw('IndexError', 'too many indices')
            d = a.dims[ax]
            ax += 1
            if isinstance(x, SliceV):
                ks = [None if q is None else ival(q) for q in x.sub_values()]
                if any(k is None and q is not None for k, q in zip(ks, x.sub_values())):
                    return None
                if isinstance(d, int):
                    r = list(range(d))[slice(*ks)]
                    sel.append(r)
                    dims.append(len(r))
                    plan.append(len(sel) - 1)
                else:
                    if any(k is not None for k in ks):
                        return None
                    dims.append(d)
            else:
                k = ival(x)
                if k is None or not isinstance(d, int):
                    return None
                if not -d <= k < d:
                    self.throw('IndexError', 'index out of bounds')
                sel.append(k % d)
        items = {}
        for o in self.idxs(dims):
            src = [s if isinstance(s, int) else None for s in sel]
            for j, p in enumerate(plan):
                if p is not None:
                    src[p] = sel[p][o[j]]
            items[o] = a.items[tuple(src)]
        if not dims:
            return items[()]
        return Arr(dims, items)

    def positions(self, m):
        """Index tuples selected by a constant boolean array, or None."""
        if not all(isinstance(d, int) for d in m.dims) or not all(isinstance(x, bool) for x in m.items.values()):
            return None
        return [k for k in m.keys() if m.items[k]]

    def fancy_get(self, a, ix):
        if not ix or any(not isinstance(d, int) for d in a.dims):
            return None
        full = lambda x: isinstance(x, SliceV) and all(q is None for q in x.sub_values())
        if not all(full(x) or isinstance(x, Ext) for x in ix[1:]):
            if all(isinstance(x, Arr) and len(x.dims) == 1 for x in ix) and len(ix) == len(a.dims) and len({x.dims for x in ix}) == 1:
                ks = [[ival(x.items[(j,)]) for x in ix] for j in range(ix[0].dims[0])]
                if any(k is None for q in ks for k in q):
                    return None
                if any(not -d <= k < d for q in ks for k, d in zip(q, a.dims)):
                    self.throw('IndexError', 'index out of bounds')
                return Arr(ix[0].dims, {(j,): a.items[tuple(k % d for k, d in zip(q, a.dims))] for j, q in enumerate(ks)})
            # one index array first, then integers: a[rows, 2]
            if isinstance(ix[0], (Arr, Ref)) and all(isinstance(x, R) and ival(x) is not None or full(x) for x in ix[1:]):
                r = self.fancy_get(a, ix[:1])
                if r is None or isinstance(r, MArr) or len(r.dims) < len(ix):
                    return None
                n = len(r.dims) - (len(ix) - 1)
                if n < 1 or len(a.dims) - len(r.dims) != (len(ix[0].dims) - 1 if isinstance(ix[0], Arr) else 0):
                    return None
                for ax in range(len(ix) - 1, 0, -1):
                    if full(ix[ax]):
                        continue
                    k, d = ival(ix[ax]), r.dims[ax]
                    if not -d <= k < d:
                        self.throw('IndexError', 'index out of bounds')
                    r = Arr(r.dims[:ax] + r.dims[ax + 1:], {q[:ax] + q[ax + 1:]: v for q, v in r.items.items() if q[ax] == k % d})
                return r
            return None
        m = ix[0]
        if isinstance(m, Ref):
            l = self.as_list(m)
            m = self.arr_of(m) if l else None
        if not isinstance(m, Arr) or not m.dims:
            return None
        if all(isinstance(x, bool) for x in m.items.values()) and m.items:
            n = len(m.dims)
            if a.dims[:n] != m.dims:
                return None
            ps = self.positions(m)
        else:
            ks = [ival(x) if isinstance(x, R) else None for x in m.items.values()]
            if len(m.dims) != 1 or any(k is None for k in ks):
                return None
            if any(not -a.dims[0] <= k < a.dims[0] for k in ks):
                self.throw('IndexError', 'index out of bounds')
            n = 1
            ps = [(ival(m.items[(j,)]) % a.dims[0],) for j in range(m.dims[0])]
        if ps is None:
            return None
        rest = self.idxs(a.dims[n:])
        r = lambda b: Arr((len(ps),) + b.dims[n:], {(j,) + k: b.items[p + k] for j, p in enumerate(ps) for k in rest})
        return MArr((len(ps),) + a.dims[n:], r(a).items, r(a.mask)) if isinstance(a, MArr) else r(a)

    def masked_set(self, a, m, v):
        """a[m] = scalar for a boolean array m."""
        n = len(m.dims)
        ps = self.positions(m) if a.dims[:n] == m.dims and all(isinstance(d, int) for d in a.dims) else None
        if ps is not None:
            av = self.arr_of(v)
            td = (len(ps),) + a.dims[n:]
            if av is None or self.bdims(av.dims, td) != td:
                return None
            items = dict(a.items)
            for j, p in enumerate(ps):
                for k in self.idxs(a.dims[n:]):
                    items[p + k] = self.bget(av, td, (j,) + k)
            return Arr(a.dims, items)
        if a.dims[:n] != m.dims or not all(isinstance(l, bool) for x in m.items.values() for _, l in T.leaves(x)):
            return None
        av = self.arr_of(v)
        if av is None or av.dims:
            return None
        c = sum(1 for d in m.dims if isinstance(d, int))
        return Arr(a.dims, {k: T.ite(m.items[k[:c]], av.items[()], x) for k, x in a.items.items()})

    def arr_set(self, a, i, v):
        if isinstance(i, Arr):
            return self.masked_set(a, i, v)
        ix = list(i.items) if isinstance(i, Tup) else [i]
        sel = []
        ax = 0
        if any(x is None or isinstance(x, Ext) for x in ix):
            return None
        ix += [SliceV(None, None, None)] * (len(a.dims) - len(ix))
        tdims = []
        for x, d in zip(ix, a.dims):
            if not isinstance(d, int):
                if isinstance(x, SliceV) and x.a is None and x.b is None and x.c is None:
                    tdims.append(d)
                    continue
                return None
            if isinstance(x, SliceV):
                ks = [None if q is None else ival(q) for q in x.sub_values()]
                if any(k is None and q is not None for k, q in zip(ks, x.sub_values())):
                    return None
                r = list(range(d))[slice(*ks)]
                sel.append(r)
                tdims.append(len(r))
            else:
                k = ival(x)
                if k is None or not -d <= k < d:
                    return None
                sel.append([k % d])
                tdims.append(None)
        av = self.arr_of(v)
        if av is None:
            return None
        td = tuple(d for d in tdims if d is not None)
        if self.bdims(av.dims, td) != td:
            return None
        items = dict(a.items)
        out = [()]
        for r in sel:
            out = [o + (q,) for o in out for q in r]
        cd = [d for d in tdims if not isinstance(d, str)]
        for o in out:
            k = tuple(sel[j].index(o[j]) for j, d in enumerate(cd) if d is not None)
            items[o] = self.bget(av, td, k)
        return Arr(a.dims, items)

    # ---------------------------------------------------- external functions
    def call_ext(self, path, args, kw):
        h = self.hooks.get(path)
        if h is not None:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        short = path.split('.')[-1]
        if path.startswith('builtins.'):
            f = getattr(self, 'b_' + short, None)
            if f is not None:
                return f(args, kw)
            return T.atom(short, tuple(self.freeze(a) for a in args))
        if path.startswith('_batoid'):
            e = self.emit('native', path[len('_batoid.'):], args, kw)
            e.res = T.atom('native:' + short, tuple(self.freeze(a) for a in args) + tuple((k, self.freeze(v)) for k, v in sorted(kw.items())), ('obj',))
            return e.res
        if path.startswith('numpy'):
            f = getattr(self, 'n_' + short if path.count('.') == 1 else 'n_' + path.split('.', 1)[1].replace('.', '_'), None)
            if f is not None:
                r = f(args, kw)
                if r is not None:
                    return r
            self.emit('ext', path, args, kw)
            extra = ()
            if path in FRESH:
                self.serial += 1
                extra = (self.serial,)
            return self.ext_atom(path, args, kw, extra)
        if path == 'math.isclose' and len(args) == 2 and not set(kw) - {'rel_tol', 'abs_tol'} and all(isinstance(x, R) for x in args):
            return self._near(args[0], args[1], kw.get('rel_tol', const(Fraction(1, 10**9))), kw.get('abs_tol', T.ZERO), both=True)
        if path in MATH and not kw:
            r = self.call_ext('numpy.' + MATH[path], args, {}) if all(isinstance(x, (R, V)) for x in args) else None
            if r is not None:
                return r
        if path in ('collections.OrderedDict', 'collections.defaultdict'):
            return self.b_dict(args, kw)
        if path == 'collections.deque':
            return self.b_list(args, kw)
        if path == 'functools.partial':
            return self.alloc('partial', None, {'f': args[0], 'args': Tup(args[1:])})
        if path == 'operator.itemgetter' or path == 'math.prod':
            pass
        if path in ('copy.copy', 'copy.deepcopy'):
            return self.py_copy(args[0], path.endswith('deepcopy'))
        self.emit('ext', path, args, kw)
        return self.ext_atom(path, args, kw, ())

    def ext_atom(self, path, args, kw, extra):
        return T.atom(path, tuple(self.freeze(a) for a in args) + tuple((k, self.freeze(v)) for k, v in sorted(kw.items())) + extra)

    def py_copy(self, v, deep):
        def go(l):
            if isinstance(l, Ref):
                o = self.obj(l)
                f = {k: (self.py_copy(x, True) if deep else x) for k, x in o.fields.items()}
                return self.alloc(o.kind, o.cls, f, o.open, o.base)
            return l
        return self.cases(v, go)

    # builtins
    def b_len(self, a, kw):
        def go(l):
            if isinstance(l, (str, Str)):
                return self.strlen(l)
            if isinstance(l, Tup):
                return const(len(l.items))
            if isinstance(l, Arr):
                return const(l.dims[0]) if isinstance(l.dims[0], int) else T.atom('dim', (l.dims[0],), ('int', 'pos'))
            if isinstance(l, Ref):
                o = self.obj(l)
                if o.kind == 'list':
                    return T.vmap(lambda t: const(len(t.items)) if isinstance(t, Tup) else T.atom('len', (t,), ('int', 'nonneg')), constrain(o.fields[0], self.g))
                if o.kind in ('dict', 'set') and not o.open:
                    n = T.ZERO
                    for x in o.fields.values():
                        n = T.vadd(n, T.vmap(lambda q: T.ZERO if q is MISSING else T.ONE, x))
                    return n
                if o.kind == 'obj' and o.cls is not None and o.cls.find('__len__'):
                    return self.call(self.getattr(l, '__len__'), [], {})
                return T.atom('len', (o.base if o.base is not None else l,), ('int', 'nonneg'))
            if l is None:
                self.throw('TypeError', 'len of None')
            i = T.single_atom(l) if isinstance(l, R) else None
            if i is not None and T.ATOMS[i][0] in ('.ravel', '.flatten', 'numpy.ravel') and len(T.ATOMS[i][1]) == 1:
                return self.getattr(T.ATOMS[i][1][0], 'size')
            return T.atom('len', (l,), ('int', 'nonneg'))
        return self.cases(a[0], go)

    def b_range(self, a, kw):
        def go(vals):
            ks = [ival(x) for x in vals]
            if all(k is not None for k in ks):
                return Tup([const(i) for i in range(*ks)])
            return T.atom('range', tuple(vals))
        if any(isinstance(x, V) for x in a):
            return self.cases(Tup(a) if False else a[0], lambda l: go([l] + [constrain(x, self.g) for x in a[1:]])) if len(a) == 1 else \
                self.cases(a[0], lambda p: self.cases(a[1], lambda q: go([p, q] + list(a[2:]))))
        return go(a)

    def b_isinstance(self, a, kw):
        def go(l):
            return self.isinst(l, a[1])
        return self.cases(a[0], go)

    def isinst(self, l, t):
        if isinstance(t, Tup):
            r = False
            for x in t.items:
                r = vor(r, self.isinst(l, x))
            return r
        if isinstance(t, V):
            return T.vmap(lambda x: self.isinst(l, x), t)
        name = t.info.name if isinstance(t, Cls) else t.path.split('.')[-1] if isinstance(t, Ext) else None
        if isinstance(l, Ref) and not isinstance(l, DictView):
            o = self.obj(l)
            if o.kind == 'obj' and o.cls is not None:
                if isinstance(t, Cls):
                    if o.cls.issub(t.info):
                        return True
                    if o.open and t.info.issub(o.cls):
                        return T.bool_atom('isinstance', o.base, name)
                    return False
                return name == 'object' or False
            if isinstance(t, Cls):
                return T.bool_atom('isinstance', o.base, name) if o.kind == 'obj' and o.open else False
            return name in {'list': ('list', 'Sequence', 'Iterable', 'Collection'), 'dict': ('dict', 'OrderedDict', 'Mapping', 'MutableMapping'), 'set': ('set',)}.get(o.kind, ())
        if l is None:
            return name == 'NoneType'
        if isinstance(l, bool):
            return name in ('bool', 'int', 'Integral', 'Real', 'Number')
        if isinstance(l, (str, Str)):
            return name == 'str'
        if isinstance(l, Tup):
            return name in ('tuple', 'Sequence', 'Iterable', 'Collection')
        if isinstance(l, SliceV):
            return name == 'slice'
        if isinstance(l, Arr):
            return name == 'ndarray' if l.dims else name in ('Real', 'float', 'Number')
        if isinstance(l, R):
            if T.is_const(l):
                c = T.cval(l)
                return name in (('int', 'Integral') if c == int(c) else ()) + ('Real', 'Number', 'float')
            i = T.single_atom(l)
            if i is None and not isinstance(t, Cls) and name in ('Real', 'Number', 'float') and all({'real', 'int'} & set(T._FLAGS[j] or ()) for j in T.val_atoms(l)):
                return True
            fl = T._FLAGS[i] if i is not None else set()
            if isinstance(t, Cls):
                ty = getattr(self, 'types', {}).get(i)
                if ty is not None:
                    return ty.issub(t.info)
                if 'real' in fl or 'int' in fl or 'array' in fl:
                    return False
            else:
                if 'int' in fl and name in ('int', 'Integral', 'Real', 'Number'):
                    return True
                if 'int' in fl and name in ('ndarray', 'str', 'list', 'tuple', 'slice', 'bool', 'float'):
                    return False
                if 'real' in fl:
                    return name in ('Real', 'float', 'Number')
                if 'array' in fl:
                    return name == 'ndarray'
                if 'obj' in fl:
                    return name == 'object' if name in ('int', 'Integral', 'Real', 'Number', 'str', 'list', 'tuple', 'dict', 'ndarray', 'float', 'slice', 'object', 'bool') else T.bool_atom('isinstance', l, name)
            return T.bool_atom('isinstance', l, name)
        if isinstance(l, (Cls, Fn, Bound, Ext, Mod)):
            return name == 'type' if isinstance(l, Cls) else False
        return T.bool_atom('isinstance', l, name)

    def b_issubclass(self, a, kw):
        def go(l):
            if isinstance(l, Cls):
                ts = a[1].items if isinstance(a[1], Tup) else (a[1],)
                return any(isinstance(t, Cls) and l.info.issub(t.info) for t in ts)
            return T.bool_atom('issubclass', l, self.freeze(a[1]))
        return self.cases(a[0], go)

    def b_hasattr(self, a, kw):
        if isinstance(a[1], str):
            return self.has(a[0], a[1])
        return T.bool_atom('hasattr', self.freeze(a[0]), self.freeze(a[1]))

    def b_getattr(self, a, kw):
        if isinstance(a[1], V):
            return self.cases(a[1], lambda l: self.b_getattr([a[0], l] + a[2:], kw))
        if not isinstance(a[1], str):
            return T.atom('getattr', tuple(self.freeze(x) for x in a))
        return self.getattr(a[0], a[1], a[2] if len(a) > 2 else None, len(a) > 2)

    def b_setattr(self, a, kw):
        if isinstance(a[1], str):
            return self.setattr(a[0], a[1], a[2])
        raise NoVerdict('setattr with a computed name')

    def b_delattr(self, a, kw):
        self.wr(a[0]).fields[a[1]] = MISSING

    def b_tuple(self, a, kw):
        if not a:
            return Tup(())

        def go(l):
            items = self.try_items(l)
            if items is None:
                return T.atom('tuple', (self.freeze(l),)) if not isinstance(l, R) or T.ATOMS[T.single_atom(l) or 0][0] != 'tuple' else l
            return self.finish_comp(items)
        return self.cases(a[0], go)

    def b_list(self, a, kw):
        if not a:
            return self.newlist([])

        def go(l):
            items = self.try_items(l)
            if items is None:
                return T.atom('list', (self.freeze(l),))
            v = self.finish_comp(items)
            return self.alloc('list', None, {0: v})
        return self.cases(a[0], go)

    def b_dict(self, a, kw):
        d = self.newdict()
        if a:
            def go(l):
                if isinstance(l, Ref) and self.obj(l).kind in ('dict', 'obj'):
                    o = self.obj(l)
                    w = self.wr(d)
                    for k, v in o.fields.items():
                        if v is not MISSING:
                            w.fields[k] = v
                    w.open, w.base = o.open, o.base
                    return None
                items = self.try_items(l)
                if items is None:
                    w = self.wr(d)
                    w.open, w.base = True, self.freeze(l)
                    return None
                for x in items:
                    c = True
                    if isinstance(x, tuple) and x and x[0] == 'cond':
                        _, c, x = x
                    p = self.seq_items(x)
                    self.wr(d).fields[self.key(p[0])] = p[1] if c is True else ite(c, p[1], MISSING)
                return None
            self.cases(a[0], go)
        self.call_prim(d, 'update', [], kw)
        return d

    def b_set(self, a, kw):
        s = self.alloc('set')
        if a:
            items = self.try_items(a[0]) if not isinstance(a[0], V) else None
            if items is None:
                return T.atom('set', (self.freeze(a[0]),))
            for x in items:
                c = True
                if isinstance(x, tuple) and x and x[0] == 'cond':
                    _, c, x = x
                self.wr(s).fields[self.key(x)] = True if c is True else ite(c, True, MISSING)
        return s

    b_frozenset = b_set

    def b_zip(self, a, kw):
        ls = [self.try_items(x) if not isinstance(x, V) else None for x in a]
        if all(l is not None and not any(isinstance(q, tuple) for q in l) for l in ls):
            return Tup([Tup(t) for t in zip(*ls)])
        return T.atom('zip', tuple(self.freeze(x) for x in a))

    def b_enumerate(self, a, kw):
        def go(l):
            items = self.try_items(l)
            st = ival(a[1]) if len(a) > 1 else ival(kw['start']) if 'start' in kw else 0
            if items is None or st is None:
                return T.atom('enumerate', (self.freeze(l),))
            out = []
            for i, x in enumerate(items):
                if isinstance(x, tuple) and x and x[0] == 'cond':
                    out.append(('cond', x[1], Tup((const(i + st), x[2]))))
                else:
                    out.append(Tup((const(i + st), x)))
            if any(isinstance(x, tuple) for x in out):
                return self.finish_comp(out)
            return Tup(out)
        return self.cases(a[0], go)

    def b_reversed(self, a, kw):
        def go(l):
            items = self.try_items(l)
            if items is None:
                return T.atom('reversed', (self.freeze(l),))
            return Tup(items[::-1])
        return self.cases(a[0], go)

    def b_sorted(self, a, kw):
        items = self.try_items(a[0]) if not isinstance(a[0], V) else None
        if items is not None and not kw:
            if all(isinstance(x, str) for x in items):
                return self.newlist(sorted(items))
            if all(ival(x) is not None for x in items):
                return self.newlist(sorted(items, key=ival))
        if items is not None and set(kw) <= {'key', 'reverse'} and not any(isinstance(x, tuple) for x in items):
            ks = [self.call(kw['key'], [x], {}) if kw.get('key') is not None else x for x in items]
            out = self.order(items, ks)
            if out is not None and isinstance(kw.get('reverse', False), bool):
                return self.newlist(out[::-1] if kw.get('reverse') else out)
        return T.atom('sorted', (self.freeze(a[0]),))

    def order(self, items, ks):
        """The items in the order of their keys, when that order is certain."""
        import functools

        def cmp(p, q):
            x, y = p[1], q[1]
            if T.veq(x, y):
                return 0
            if isinstance(x, R) and isinstance(y, R) and T.is_const(x) and T.is_const(y):
                return -1 if T.const_val(x) < T.const_val(y) else 1
            x, y = (z.parts[0] if isinstance(z, Str) else z for z in (x, y))
            if isinstance(x, str) and isinstance(y, str):
                for c, d in zip(x, y):
                    if c != d:
                        return -1 if c < d else 1
                if x is p[1] and y is q[1]:
                    return -1 if len(x) < len(y) else 1
            raise ValueError
        try:
            return [x for x, _ in sorted(zip(items, ks), key=functools.cmp_to_key(cmp))]
        except ValueError:
            return None

    def b_abs(self, a, kw):
        return self.unary(a[0], lambda x: T.vfn('abs', x))

    def _minmax(self, a, kw, name):
        items = a if len(a) > 1 else (self.try_items(a[0]) if not isinstance(a[0], V) else None)
        if items is None or any(isinstance(x, tuple) for x in items) or kw:
            return T.atom(name, tuple(self.freeze(x) for x in a))
        r = items[0]
        for x in items[1:]:
            c = T.vlt(x, r) if name == 'min' else T.vlt(r, x)
            r = ite(c, x, r)
        return r

    def b_min(self, a, kw):
        return self._minmax(a, kw, 'min')

    def b_max(self, a, kw):
        return self._minmax(a, kw, 'max')

    def b_sum(self, a, kw):
        def go(l):
            items = self.try_items(l)
            if items is None:
                return T.atom('sum', (self.freeze(l),))
            r = a[1] if len(a) > 1 else T.ZERO
            for x in items:
                if isinstance(x, tuple) and x and x[0] == 'cond':
                    r = T.vadd(r, ite(x[1], x[2], T.ZERO))
                elif T._is_boolean(x):
                    r = T.vadd(r, ite(x, T.ONE, T.ZERO))
                else:
                    r = self.binop('+', r, x)
            return r
        return self.cases(a[0], go)

    def b_any(self, a, kw):
        def go(l):
            items = self.try_items(l)
            if items is None:
                return T.bool_atom('any', self.freeze(l))
            r = False
            for x in items:
                if isinstance(x, tuple) and x and x[0] == 'cond':
                    r = vor(r, vand(x[1], truthv(self.truth(x[2]))))
                else:
                    r = vor(r, truthv(self.truth(x)))
            return r
        return self.cases(a[0], go)

    def b_all(self, a, kw):
        def go(l):
            items = self.try_items(l)
            if items is None:
                return T.bool_atom('all', self.freeze(l))
            r = True
            for x in items:
                if isinstance(x, tuple) and x and x[0] == 'cond':
                    r = vand(r, vor(vnot(x[1]), truthv(self.truth(x[2]))))
                else:
                    r = vand(r, truthv(self.truth(x)))
            return r
        return self.cases(a[0], go)

    def b_print(self, a, kw):
        return None

    def b_type(self, a, kw):
        return self.cases(a[0], lambda l: self.type_of(l))

    def type_of(self, l):
        if isinstance(l, Ref) and not isinstance(l, DictView):
            o = self.obj(l)
            if o.kind == 'obj' and o.cls is not None:
                return Cls(o.cls)
            return Ext('builtins.' + o.kind)
        if isinstance(l, str) or isinstance(l, Str):
            return Ext('builtins.str')
        if isinstance(l, Tup):
            return Ext('builtins.tuple')
        if l is None:
            return Ext('builtins.NoneType')
        if isinstance(l, bool):
            return Ext('builtins.bool')
        if isinstance(l, Arr):
            return Ext('numpy.ndarray')
        if isinstance(l, R) and T.is_const(l):
            return Ext('builtins.float')
        return T.atom('type', (l,), ('obj',))

    def b_super(self, a, kw):
        if len(a) == 2 and isinstance(a[0], Cls):
            return SuperView(a[0].info, a[1])
        raise NoVerdict('super')

    def b_iter(self, a, kw):
        return a[0]

    def b_next(self, a, kw):
        items = self.try_items(a[0]) if not isinstance(a[0], V) else None
        if items:
            if len(a) == 2 and any(isinstance(x, tuple) for x in items):
                r = a[1]
                for x in reversed(items):
                    r = ite(x[1], x[2], r) if isinstance(x, tuple) else x
                return r
            if not isinstance(items[0], tuple):
                return items[0]
            r = None
            none = True
            for x in items:
                c = x[1] if isinstance(x, tuple) else True
                none = vand(none, vnot(c))
            self.throw_if(none, 'StopIteration')
            for x in reversed(items):
                r = ite(x[1], x[2], r) if isinstance(x, tuple) else x
            return constrain(r, self.g)
        if items is not None:
            if len(a) == 2:
                return a[1]
            self.throw('StopIteration')
        if isinstance(a[0], V):
            return self.cases(a[0], lambda l: self.b_next([l] + a[1:], kw))
        return T.atom('next', (self.freeze(a[0]),))

    def b_str(self, a, kw):
        return self.cases(a[0], lambda l: mkstr([self.text(l, '')]))

    def b_repr(self, a, kw):
        return self.cases(a[0], lambda l: mkstr([self.text(l, 'r')]))

    def b_eval(self, a, kw):
        """eval of a known text in the calling frame."""
        def leaf(l):
            if not isinstance(l, str) or len(a) > 1 or kw:
                raise NoVerdict('eval of ' + T.show(l))
            try:
                return self.ev(ast.parse(l.strip(), mode='eval').body)
            except SyntaxError:
                self.throw('SyntaxError', l)
        return self.cases(a[0], leaf)

    def b_int(self, a, kw):
        return T.vmap(lambda l: T.fn('int', num(l)) if isinstance(l, (R, bool)) else T.atom('int', (l,), ('int',)), a[0]) if a else T.ZERO

    def b_float(self, a, kw):
        def leaf(l):
            if isinstance(l, bool):
                return num(l)
            if isinstance(l, R):
                return l
            return T.atom('float', (l,))
        return T.vmap(leaf, a[0]) if a else T.ZERO

    def b_bool(self, a, kw):
        return self.truth(a[0])

    def b_round(self, a, kw):
        return T.vfn('round', *a)

    def b_pow(self, a, kw):
        return self.binop('**', a[0], a[1])

    def b_slice(self, a, kw):
        if len(a) == 1:
            return SliceV(None, a[0], None)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)

    def b_map(self, a, kw):
        def go(l):
            items = self.try_items(l)
            if items is None:
                k = T.fresh_idx()
                r = self.call(a[0], [T.atom('item', (self.freeze(l), k))], {})
                d, b = T.close(k, self.freeze(r))
                return T.atom('map', (self.freeze(l), d, b))
            return self.finish_comp([('cond', x[1], self.call(a[0], [x[2]], {})) if isinstance(x, tuple) else self.call(a[0], [x], {}) for x in items])
        if len(a) != 2:
            return T.atom('mapn', tuple(self.freeze(x) for x in a))
        return self.cases(a[1], go)

    def b_hash(self, a, kw):
        def go(l):
            if isinstance(l, Ref) and self.obj(l).kind == 'obj':
                o = self.obj(l)
                for c in (o.cls.mro() if o.cls is not None else ()):
                    h = c.methods.get('__hash__', c.assigns.get('__hash__'))
                    if isinstance(h, ast.FunctionDef):
                        return self.call(self.getattr(l, '__hash__'), [], {})
                    if h is not None and isinstance(h, ast.Constant) and h.value is None or h is None and '__eq__' in c.methods:
                        self.throw('TypeError', 'unhashable type: ' + o.cls.name)
            if isinstance(l, Arr) and l.dims or isinstance(l, Ref) and not isinstance(l, DictView) and self.obj(l).kind in ('list', 'dict', 'set'):
                self.throw('TypeError', 'unhashable type')
            if isinstance(l, Tup):
                return T.atom('hash', (Tup([self.b_hash([x], {}) if any_leaf(x, lambda q: isinstance(q, (Ref, Tup, Arr))) else x for x in l.items]),))
            return T.atom('hash', (self.freeze(l),))
        return self.cases(a[0], go)

    def b_id(self, a, kw):
        return T.atom('id', (self.freeze(a[0]),))

    def b_vars(self, a, kw):
        return self.getattr(a[0], '__dict__')

    def b_callable(self, a, kw):
        return T.vmap(lambda l: True if isinstance(l, (Fn, Bound, Cls, Prim)) else T.bool_atom('callable', l), a[0])

    def b_object(self, a, kw):
        return self.alloc('obj')

    def b_divmod(self, a, kw):
        return Tup((self.binop('//', a[0], a[1]), self.binop('%', a[0], a[1])))

    # numpy ------------------------------------------------------------------
    def elementwise(self, a, f):
        def leaf(l):
            x = self.arr_of(l) if not isinstance(l, (R, bool)) else None
            if isinstance(l, (R, bool)):
                return f(num(l))
            if x is None:
                return None
            return Arr(x.dims, {k: f(v) for k, v in x.items.items()})
        v = constrain(a, self.g)
        if isinstance(v, V):
            return self.cases(v, leaf)
        return leaf(v)

    def n_sin(self, a, kw):
        return self.elementwise(a[0], lambda x: T.vfn('sin', x)) if not kw else None

    def n_cos(self, a, kw):
        return self.elementwise(a[0], lambda x: T.vfn('cos', x)) if not kw else None

    def n_tan(self, a, kw):
        return self.elementwise(a[0], lambda x: T.vfn('tan', x)) if not kw else None

    def n_sqrt(self, a, kw):
        return self.elementwise(a[0], lambda x: T.vfn('sqrt', x)) if not kw else None

    def n_abs(self, a, kw):
        return self.elementwise(a[0], cabs) if not kw else None

    def n_square(self, a, kw):
        return self.elementwise(a[0], lambda x: T.vmul(x, x)) if not kw else None

    def n_arctan(self, a, kw):
        return self.elementwise(a[0], lambda x: T.vfn('arctan', x)) if not kw else None

    def n_arcsin(self, a, kw):
        return self.elementwise(a[0], lambda x: T.vfn('arcsin', x)) if not kw else None

    def n_arccos(self, a, kw):
        return self.elementwise(a[0], lambda x: T.vfn('arccos', x)) if not kw else None

    def n_exp(self, a, kw):
        return self.elementwise(a[0], cexp) if not kw else None

    def n_deg2rad(self, a, kw):
        return self.binop('*', a[0], T.rdiv(T.atom('pi', (), ('pos',)), const(180)))

    n_radians = n_deg2rad

    def n_rad2deg(self, a, kw):
        return self.binop('*', a[0], T.rdiv(const(180), T.atom('pi', (), ('pos',))))

    n_degrees = n_rad2deg

    def n_hypot(self, a, kw):
        s = self.binop('+', self.binop('*', a[0], a[0]), self.binop('*', a[1], a[1]))
        return self.n_sqrt([s], {})

    def n_arctan2(self, a, kw):
        if all(not any_leaf(x, lambda l: not isinstance(l, (R, bool))) for x in a):
            return T.vfn('arctan2', *a)
        return None

    def n_array(self, a, kw):
        def go(l):
            x = self.arr_of(l) if not isinstance(l, (R, bool)) else None
            if x is None:
                if isinstance(l, Ref) and self.obj(l).kind == 'obj':
                    return self.ext_atom('numpy.array', [l], kw, ())
                return self.ext_atom('numpy.array', [l], {k: v for k, v in kw.items() if k != 'copy'}, ()) if not isinstance(l, (R, bool)) else self.ext_atom('numpy.array', [l], kw, ())
            return Arr(x.dims, x.items) if type(x) is LiveArr and kw.get('copy', True) is True else x
        return self.cases(a[0], go)

    def n_asarray(self, a, kw):
        def go(l):
            x = self.arr_of(l) if not isinstance(l, (R, bool)) else None
            return x if x is not None else self.ext_atom('numpy.asarray', [l], kw, ())
        return self.cases(a[0], go)

    def n_zeros(self, a, kw):
        return self._filled(a, kw, T.ZERO, 'numpy.zeros')

    def n_ones(self, a, kw):
        return self._filled(a, kw, T.ONE, 'numpy.ones')

    def _filled(self, a, kw, v, path):
        sh = a[0] if a else kw.get('shape')
        ds = [ival(x) for x in sh.items] if isinstance(sh, Tup) else [ival(sh)]
        n = 1
        for d in ds:
            if d is None:
                self.serial += 1
                return self.ext_atom(path, a, kw, (self.serial,))
            n *= d
        if n > 1024:
            return self.ext_atom(path, a, kw, ())
        return Arr(ds, {k: v for k in self.idxs(ds)})

    def n_eye(self, a, kw):
        n = ival(a[0])
        if n is None or n > 8 or len(a) > 1:
            return None
        return Arr((n, n), {(i, j): T.ONE if i == j else T.ZERO for i in range(n) for j in range(n)})

    n_identity = n_eye

    def n_dot(self, a, kw):
        x, y = a
        if isinstance(x, (Arr,)) or isinstance(y, Arr) or self.as_list(x) is not None or self.as_list(y) is not None:
            p, q = self.arr_of(x), self.arr_of(y)
            if p is not None and q is not None and p.dims and q.dims:
                return self.matmul(p, q)
            if p is not None and q is not None and not self.opaque_array(x) and not self.opaque_array(y):
                return self.arr_op('*', p, q)
        return None

    n_matmul = n_dot

    def n_cross(self, a, kw):
        p, q = self.arr_of(a[0]), self.arr_of(a[1])
        if p is None or q is None or p.dims != (3,) or q.dims != (3,):
            return None
        i = lambda z, k: z.items[(k,)]
        s = lambda u, v: T.vsub(T.vmul(i(p, u), i(q, v)), T.vmul(i(p, v), i(q, u)))
        return Arr((3,), {(0,): s(1, 2), (1,): s(2, 0), (2,): s(0, 1)})

    def n_stack(self, a, kw):
        l = self.rows(a[0])
        ax = ival(kw.get('axis', a[1] if len(a) > 1 else T.ZERO))
        if l is None or ax is None:
            return None
        xs = [self.arr_of(x) for x in l]
        if any(x is None or not x.dims for x in xs):
            return None
        s = self.stackarr(xs)
        if s is None:
            return None
        if ax == 0:
            return s
        if len(s.dims) == 2 and ax in (1, -1):
            return self.transpose(s)
        return None

    def n_transpose(self, a, kw):
        if isinstance(a[0], Arr) and len(a) == 1 and not kw:
            return self.transpose(a[0])
        return None

    def n_sum(self, a, kw):
        x = self.arr_of(a[0]) if isinstance(a[0], Arr) or self.as_list(a[0]) is not None else None
        if x is None:
            return None
        ax = kw.get('axis', a[1] if len(a) > 1 else None)
        if any(not isinstance(d, int) for d in x.dims):
            k = ival(ax) if ax is not None else None
            if k is None or set(kw) - {'axis'} or not isinstance(x.dims[k % len(x.dims)], int):
                return None
            k %= len(x.dims)
            c = len(self.conc(x.dims[:k]))
            d = x.dims[:k] + x.dims[k + 1:]
            items = {o: T.ZERO for o in self.idxs(d)}
            for q, v in x.items.items():
                o = q[:c] + q[c + 1:]
                items[o] = T.vadd(items[o], v)
            return Arr(d, items)
        if ax is None:
            s = T.ZERO
            for k in x.items:
                s = T.vadd(s, x.items[k])
            return s
        k = ival(ax)
        if k is None:
            return None
        k %= len(x.dims)
        d = x.dims[:k] + x.dims[k + 1:]
        items = {o: T.ZERO for o in self.idxs(d)}
        for q, v in x.items.items():
            o = q[:k] + q[k + 1:]
            items[o] = T.vadd(items[o], v)
        return Arr(d, items) if d else items[()]

    def _anyall(self, a, kw, name):
        x = a[0]
        if kw or len(a) != 1 or not isinstance(x, Arr):
            return truthv(x) if isinstance(x, bool) or isinstance(x, V) and T._is_boolean(x) else None
        r = name == 'all'
        for q in x.sub_values():
            r = (vand if name == 'all' else vor)(r, truthv(self.truth(q)))
        if any(not isinstance(d, int) for d in x.dims):
            o = T.bool_atom('numpy.%s@others' % name, x)
            r = (vand if name == 'all' else vor)(r, o)
        return r

    def n_any(self, a, kw):
        return self._anyall(a, kw, 'any')

    def n_all(self, a, kw):
        return self._anyall(a, kw, 'all')

    def n_array_equal(self, a, kw):
        p, q = self.arr_of(a[0]), self.arr_of(a[1])
        if p is not None and q is not None and (isinstance(a[0], Arr) or isinstance(a[1], Arr) or not any(isobj(v) for z in (p, q) for v in z.sub_values())):
            if p.dims != q.dims:
                return False
            return self.eq1(p, q)
        x, y = sorted((self.freeze(a[0]), self.freeze(a[1])), key=T.show)
        return True if T.veq(x, y) else T.bool_atom('array_equal', x, y)

    def n_copy(self, a, kw):
        if isinstance(a[0], Arr):
            return Arr(a[0].dims, a[0].items) if type(a[0]) is LiveArr else a[0]
        return None

    def n_ascontiguousarray(self, a, kw):
        if isinstance(a[0], Arr):
            return a[0]
        x = self.arr_of(a[0]) if self.as_list(a[0]) is not None else None
        return x

    def n_atleast_1d(self, a, kw):
        return a[0] if isinstance(a[0], Arr) and a[0].dims else None

    def n_atleast_2d(self, a, kw):
        x = self.arr_of(a[0]) if isinstance(a[0], Arr) or self.as_list(a[0]) is not None else None
        if x is not None and len(a) == 1 and len(x.dims) < 2:
            return Arr((1,) * (2 - len(x.dims)) + x.dims, {(0,) * (2 - len(x.dims)) + k: v for k, v in x.items.items()})
        return a[0] if isinstance(a[0], Arr) and len(a[0].dims) > 1 else None

    def n_float64(self, a, kw):
        return a[0]

    def n_linalg_inv(self, a, kw):
        m = self.arr_of(a[0])
        if m is not None and m.dims == (2, 2):
            g = lambda i, j: m.items[(i, j)]
            det = T.vsub(T.vmul(g(0, 0), g(1, 1)), T.vmul(g(0, 1), g(1, 0)))
            return Arr((2, 2), {(i, j): T.vdiv(g(1 - i, 1 - j) if i == j else T.vsub(T.ZERO, g(i, j)), det) for i in range(2) for j in range(2)})
        if m is None or m.dims != (3, 3):
            return None
        g = lambda i, j: m.items[(i % 3, j % 3)]
        cof = {(i, j): T.vsub(T.vmul(g(i + 1, j + 1), g(i + 2, j + 2)), T.vmul(g(i + 1, j + 2), g(i + 2, j + 1))) for i in range(3) for j in range(3)}
        det = T.vadd(T.vadd(T.vmul(g(0, 0), cof[0, 0]), T.vmul(g(0, 1), cof[0, 1])), T.vmul(g(0, 2), cof[0, 2]))
        return Arr((3, 3), {(i, j): T.vdiv(cof[j, i], det) for i in range(3) for j in range(3)})

    def n_linalg_norm(self, a, kw):
        m = self.arr_of(a[0]) if isinstance(a[0], Arr) or self.as_list(a[0]) is not None else None
        if m is None or len(m.dims) != 1 or not isinstance(m.dims[0], int) or len(a) > 1 or kw:
            return None
        q = T.ZERO
        for x in m.items.values():
            q = T.vadd(q, T.vmul(x, x))
        return T.vmap(T.sqrt, q)

    def _ufunc(op):
        def f(self, a, kw):
            if len(a) != 2 or kw:
                return None
            return self.binop(op, a[0], a[1])
        return f
    n_add, n_subtract, n_multiply, n_divide, n_true_divide, n_power = map(_ufunc, ['+', '-', '*', '/', '/', '**'])

    def n_negative(self, a, kw):
        return self.binop('-', T.ZERO, a[0]) if len(a) == 1 and not kw else None

    def n_vstack(self, a, kw):
        l = self.as_list(a[0])
        xs = [self.arr_of(x) for x in l] if l is not None else [None]
        return self.stackarr(xs) if all(x is not None and len(x.dims) == 1 for x in xs) else None

    def n_column_stack(self, a, kw):
        r = self.n_vstack(a, kw)
        return self.transpose(r) if r is not None else None

    n_inner = n_vdot = lambda self, a, kw: (self.matmul(self.arr_of(a[0]), self.arr_of(a[1])) if all(isinstance(x, Arr) and len(x.dims) == 1 for x in a) else None)

    def n_trace(self, a, kw):
        return None


class SuperView(Prim):
    """super(cls, obj)"""

    def __init__(self, cls, obj):
        Prim.__init__(self, obj, '<super>')
        self.cls = cls


def _super_getattr(self, v, name, *rest, **kw):
    if isinstance(v, SuperView):
        o = v.recv
        ci = o.info if isinstance(o, Cls) else self.obj(o).cls
        mro = ci.mro()
        after = mro[mro.index(v.cls) + 1:]
        for c in after:
            if name in c.methods:
                fn = Fn(c.methods[name], c.mod, c)
                decs = [decname(d) for d in c.methods[name].decorator_list]
                if 'property' in decs:
                    return self.call_fn(fn, [o], {})
                return Bound(fn, o)
        return Prim(Cls(ci), name)
    return _getattr0(self, v, name, *rest, **kw)


_getattr0 = Interp.getattr
Interp.getattr = _super_getattr


class _Gen:
    """A comprehension clause whose iterable has already been evaluated."""

    def __init__(self, g, it):
        self.target, self.ifs, self.iter = g.target, g.ifs, it


def e_Yield(self, e):
    v = self.ev(e.value) if e.value is not None else None
    self.call_prim(self.obj(self.frame).fields['__yield__'], 'append', [v], {})
    return None


def e_YieldFrom(self, e):
    self.call_prim(self.obj(self.frame).fields['__yield__'], 'extend', [self.ev(e.value)], {})
    return None


Interp.e_Yield = e_Yield
Interp.e_YieldFrom = e_YieldFrom


def e_Starred(self, e):
    return self.ev(e.value)


Interp.e_Starred = e_Starred


def any_leaf(v, p):
    if isinstance(v, V):
        return any_leaf(v.hi, p) or any_leaf(v.lo, p)
    return p(v)


def decname(d):
    if isinstance(d, ast.Call):
        return decname(d.func)
    if isinstance(d, ast.Attribute):
        return decname(d.value) + '.' + d.attr
    if isinstance(d, ast.Name):
        return d.id
    return ''


def walk_own(node):
    """Nodes of a function body, not descending into nested functions."""
    todo = list(getattr(node, 'body', [])) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def ext_const(p):
    if p in ('numpy.pi', 'math.pi'):
        return T.atom('pi', (), ('pos',))
    if p in ('numpy.nan', 'math.nan', 'numpy.NaN'):
        return T.atom('nan', ())
    if p in ('numpy.inf', 'math.inf'):
        return T.atom('inf', (), ('pos',))
    if p == 'numpy.newaxis':
        return None
    return Ext(p)
