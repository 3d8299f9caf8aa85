"""Helpers shared by the C++ rules: interpreted summaries of kernels, surfaces, ..."""
from . import terms as T
from .terms import V, R, ZERO, ONE
from .cfront import AnalysisBroken, line_of, params_of
from .cinterp import Interp, State, Rec, qual

FIELDS = ['x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux', 'vignetted', 'failed']
BOOL = ('vignetted', 'failed')


def buf(rv, f):
    return ('f', ('f', rv, f), 'data')


class Run:
    """The summary of one function."""

    def __init__(self, ctx, q, args=None, this=None, ctor=None, dyn=None, fn=None, prog=None, opaque=()):
        P = prog or ctx.src
        self.P = P
        self.I = I = Interp(P, dyn=dict(dyn or {}), opaque=opaque)
        self.fn = fn or P.func(q)
        self.loc = line_of(self.fn)
        ctx.analysed.add(q)
        st = State()
        self.ctor_params = {}
        if ctor:
            cs = [c for c in P.ctor(ctor) if params_of(c)] or P.ctor(ctor)
            if not cs:
                raise AnalysisBroken('no constructor of ' + ctor)
            I.run(cs[0], None, ('obj', 'this'), st)
            st.ret = False
            st.retval = None
            I.dyn['this'] = ctor
            this = ('obj', 'this')
        n = len(I.events)
        self.ret, self.st, self.params = I.run(self.fn, args, this, st)
        self.events = I.events[n:]
        self.loops = I.loops

    def param(self, name):
        return self.st.env.get(self.params[name])

    def out(self, name):
        v = self.param(name)
        if isinstance(v, tuple) and v and v[0] == 'undef':
            return None
        return v


def surface(ctx, cls, meth):
    return ctx.memo(('surf', cls, meth), lambda: Run(ctx, cls + '::' + meth, ctor=cls))


def kernel(ctx, name):
    return ctx.memo(('kernel', name), lambda: Kernel(ctx, name))


class Kernel(Run):
    def __init__(self, ctx, name):
        Run.__init__(self, ctx, name)
        self.name = name
        ps = [p.get('name') for p in params_of(self.fn)]
        ts = {p.get('name'): qual(p) for p in params_of(self.fn)}
        self.rvs = [p for p in ps if 'RayVector' in ts[p]]
        self.ptypes = ts
        # the loops that write ray buffers
        self.rayloops = []
        for l in self.loops:
            if any(e['kind'] == 'store' and self.is_ray(e['base']) for e in (l['events'] or ())):
                if not any(l is not o and any(e in (o['events'] or ()) for e in l['events'][:1]) and
                           len(o['events']) > len(l['events']) for o in self.loops):
                    self.rayloops.append(l)

    def is_ray(self, base):
        return isinstance(base, tuple) and base[0] == 'f' and isinstance(base[1], tuple) and base[1][0] == 'f' and \
            base[1][1] in self.rvs

    def final(self, rv, f, k):
        """Value of rv.f[k] after the kernel, k an arbitrary ray index in range; None if not summarised."""
        base = buf(rv, f)
        init = T.bool_atom('load', base, k) if f in BOOL else T.atom('load', (base, k))
        v = self.I.mem_get(base, k, 'bool' if f in BOOL else 'double', self.st, None)
        return v

    def inp(self, rv, f, k):
        base = buf(rv, f)
        return T.bool_atom('load', base, k) if f in BOOL else T.atom('load', (base, k))


def single_of(vs):
    vs = list(vs)
    return vs[0] if len(vs) == 1 else None
