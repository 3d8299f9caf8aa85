"""Analyses of traced bundles (batoid.analysis): which rays, which reference, which fit, in which frame.

A bundle is a tuple of rays, a ray a history (made with given arguments, traced
through the optic, re-expressed in a frame, intersected with a surface) whose
coordinates are free symbols of that history.  Ray counts and the vignetting
pattern are fixed per scenario; every numeric input is symbolic.
"""
from fractions import Fraction
from . import terms as T
from .terms import V, R, ZERO, ONE, const
from .core import rule
from .pyvals import Arr, LiveArr, MArr, Tup, Ref, SliceV, Cls, Str
from .pyinterp import IMAG, cparts, ival
from .py import interp, done, loc, judge
from .rules_frames import thing
from .rules_factory import REAL, bindargs
from . import pyinterp as P
import ast

PI = T.atom('pi', (), ('pos',))
OPT = thing('optic')
PROJ = thing('projection')
THX, THY, WL = REAL('theta_x'), REAL('theta_y'), REAL('wavelength')
KN = ('let', 'ray', 'lsq', 'lsq rank', 'dircos', 'zernike', 'zernike dx', 'zernike dy', 'amp re', 'amp im', 'fft re', 'fft im', 'imaginary unit', 'leggauss.x', 'leggauss.w', 'uninitialised')
FIELDS = ('x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux')


def oattr(*n):
    v = OPT
    for q in n:
        v = T.atom('attr', (v, q))
    return v


class Bundle:
    def __init__(self, rays):
        self.rays = tuple(rays)

    def __eq__(self, o):
        return isinstance(o, Bundle) and o.rays == self.rays

    def __hash__(self):
        return hash(self.rays)

    def __repr__(self):
        return 'rays(%d)' % len(self.rays)

    def truth(self):
        return True


def ray(state, f, i):
    return T.atom('ray', (state, f, i), ('real',))


class World:
    make_ip = staticmethod(interp)
    VIG, FAILED = frozenset({1, 6, 11, 12}), frozenset({6, 12})

    def __init__(self, ctx, fails=True):
        self.ctx = ctx
        self.ip = ip = self.make_ip(ctx)
        self.tab = {}
        self.made = []
        self.fails = fails
        self.exit = ip.construct(ctx.py.cls('CoordSys'), [Arr((3,), {(i,): REAL('exit.o.%d' % i) for i in range(3)}),
                                                         Arr((3, 3), {(i, j): REAL('exit.r%d%d' % (i, j)) for i in range(3) for j in range(3)})], {})
        for n in ('asGrid', 'asPolar', 'asSpokes', 'fromStop', 'fromFieldAngles'):
            ip.hooks['RayVector.' + n] = self.factory(n)
        H = ip.hooks
        H['utils.fieldToDirCos'] = lambda ip, a, k: self.dircos(bindargs(ctx, 'utils', 'fieldToDirCos', a, k))
        H['*.trace'] = self.trace
        H['*.syncToHost'] = H['*.syncToDevice'] = lambda ip, recv, a, k: None
        H['*.intersect'] = lambda ip, recv, a, k: self.meet(recv, a, k)
        H['Surface.intersect'] = lambda ip, a, k: self.meet(a[0], a[1:], k)
        H['trace.intersect'] = lambda ip, a, k: self.meet(a[0], a[1:], k)
        H['RayVector.toCoordSys'] = lambda ip, a, k: self.move(a[0], a[1] if len(a) > 1 else k['coordSys'])
        H['RayVector.copy'] = lambda ip, a, k: self.bundle(self.rays(a[0]), ip.getattr(a[0], 'coordSys'))
        H['RayVector.__len__'] = lambda ip, a, k: const(len(self.rays(a[0])))
        H['RayVector.__iter__'] = lambda ip, a, k: Tup([self.bundle([r], ip.getattr(a[0], 'coordSys')) for r in self.rays(a[0])])
        H['RayVector.__getitem__'] = self.getitem
        H['rayVector.concatenateRayVectors'] = lambda ip, a, k: self.bundle([r for b in ip.as_list(a[0]) for r in self.rays(b)], ip.getattr(ip.as_list(a[0])[0], 'coordSys'))
        H['RayVector.sumAmplitude'] = self.amplitude
        H['numpy.linalg.lstsq'] = self.lstsq
        H['numpy.fft.fft2'] = self.fft2
        H['galsim.zernike.zernikeBasis'] = self.basis
        H['galsim.zernike.Zernike'] = self.zernike
        H['*.gradX'] = self.grad('dx')
        H['*.gradY'] = self.grad('dy')

    # ------------------------------------------------------------ interning
    def intern(self, kind, v):
        for i, w in enumerate(self.tab.setdefault(kind, [])):
            if T.compare(v, w) is None:
                return i
        self.tab[kind].append(v)
        return len(self.tab[kind]) - 1

    def dircos(self, b):
        d = (b['u'], b['v'], b.get('projection', 'postel'))
        q = tuple(self.ip.freeze(x) for x in d)
        return Arr((3,), {(i,): T.atom('dircos', q + (i,), ('real',)) for i in range(3)})

    def key(self, name, b):
        """Normal form of a factory's arguments."""
        b = {k: v for k, v in b.items() if v is not None and k not in ('self', 'cls')}
        opt = b.pop('optic', None)
        if opt is not None:
            for p, f in (('backDist', 'backDist'), ('medium', 'inMedium'), ('stopSurface', 'stopSurface'), ('coordSys', 'coordSys')):
                b.setdefault(p, T.atom('attr', (opt, f)))
            ps, po = (T.atom('attr', (opt, f)) for f in ('pupilSize', 'pupilObscuration'))
            if name == 'asGrid' and not {'dx', 'lx'} & set(b):
                b['lx'] = ps
            if name in ('asPolar', 'asSpokes'):
                b.setdefault('outer', T.rmul(const(Fraction(1, 2)), ps))
                b.setdefault('inner', T.rmul(const(Fraction(1, 2)), T.rmul(ps, po)))
        b.setdefault('flux', ONE)
        if name == 'asGrid':
            b.setdefault('ny', b.get('nx'))
        pr = b.pop('projection', 'postel')
        if 'theta_x' in b and name != 'fromFieldAngles':
            b['dirCos'] = self.dircos({'u': b.pop('theta_x'), 'v': b.pop('theta_y', ZERO), 'projection': pr})
        elif name == 'fromFieldAngles':
            b['projection'] = pr
        d = self.ip.arr_of(b.get('dirCos')) if b.get('dirCos') is not None else None
        if d is not None:
            b['dirCos'] = d
        return Tup([name] + [Tup([k, self.ip.freeze(b[k])]) for k in sorted(b)])

    def argnames(self, name):
        a = self.ctx.py.cls('RayVector').find(name)[1].args
        ps = [x.arg for x in a.args][1:]
        d = {}
        for p, q in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(x.arg, q) for x, q in zip(a.kwonlyargs, a.kw_defaults) if q is not None]:
            try:
                v = ast.literal_eval(q)
            except ValueError:
                continue
            d[p] = const(Fraction(repr(v))) if isinstance(v, (int, float)) and not isinstance(v, bool) else v
        return ps, d

    def bind(self, name, a, k):
        ps, d = self.argnames(name)
        out = dict(d)
        out.update(zip(ps, a))
        out.update(k)
        return out

    def factory(self, name):
        def h(ip, a, k):
            b = self.bind(name, a[1:] if a and isinstance(a[0], Cls) else a, k)
            return self.bundle(self.make(name, **b), b.get('coordSys') if b.get('coordSys') is not None else oattr('coordSys') if b.get('optic') is not None else thing('made frame'))
        return h

    def make(self, name, **b):
        """Rays of a factory called with these arguments."""
        b = dict(self.argnames(name)[1], **b)
        n = {'asPolar': 7, 'asSpokes': 7}.get(name)
        if name == 'asGrid':
            n = ival(b['nx']) ** 2
        if name in ('fromStop', 'fromFieldAngles'):
            x = self.ip.arr_of(b['x' if name == 'fromStop' else 'theta_x'])
            n = x.dims[0] if x.dims else 1
        k = self.key(name, b)
        self.made.append((name, b))
        st = ('made', self.intern('made', k))
        return [(st, i) for i in range(n)]

    # -------------------------------------------------------------- bundles
    def bundle(self, rays, cs):
        r = self.ip.instance(self.ctx.py.cls('RayVector'), {'_rv': thing('native rays')})
        self.put(r, rays, cs)
        return r

    def put(self, ref, rays, cs=None):
        rays = list(rays)
        n = len(rays)
        f = self.ip.wr(ref).fields
        f['@rays'] = Bundle(rays)
        L = lambda dims, items, nm: f.__setitem__(nm, LiveArr(dims, items, ref, nm))
        for c in FIELDS:
            L((n,), {(j,): self.value(r, c) for j, r in enumerate(rays)}, '_' + c)
        for nm, cs3 in (('_r', ('x', 'y', 'z')), ('_v', ('vx', 'vy', 'vz'))):
            L((n, 3), {(j, q): self.value(r, c) for j, r in enumerate(rays) for q, c in enumerate(cs3)}, nm)
        for c in ('vignetted', 'failed'):
            L((n,), {(j,): self.flag(r, c) for j, r in enumerate(rays)}, '_' + c)
        if cs is not None:
            f['coordSys'] = cs

    def rays(self, ref):
        if not isinstance(ref, Ref) or '@rays' not in self.ip.obj(ref).fields:
            raise P.NoVerdict('not a bundle: %s' % T.show(ref))
        return self.ip.obj(ref).fields['@rays'].rays

    def value(self, r, c):
        st, i = r
        if c == 'wavelength' or c == 'flux':
            while st[0] != 'made':
                st = st[1]
        return ray(st, c, i)

    def flag(self, r, c):
        st, i = r
        while st[0] not in ('made', 'traced'):
            st = st[1]
        return st[0] == 'traced' and i in (self.VIG if c == 'vignetted' else self.FAILED) and (self.fails or c == 'vignetted')

    def traced(self, rays):
        return [(('traced', st, self.intern('optic', OPT)), i) for st, i in rays]

    def trace(self, ip, recv, a, k):
        b = a[0] if a else k['rv']
        rays = [(('traced', st, self.intern('optic', recv)), i) for st, i in self.rays(b)]
        self.put(b, rays, self.exit)
        return b

    def framekey(self, cs):
        if isinstance(cs, Ref):
            return Tup([self.ip.getattr(cs, 'origin'), self.ip.getattr(cs, 'rot')])
        return Tup([cs])

    def moved(self, rays, frame):
        k = self.intern('frame', frame)
        return [(('moved', st, k), i) for st, i in rays]

    def move(self, ref, cs):
        self.put(ref, self.moved(self.rays(ref), self.framekey(cs)), cs)
        return ref

    def met(self, rays, surf):
        k = self.intern('surface', surf)
        return [(('met', st, k), i) for st, i in rays]

    def meet(self, surf, a, k):
        b = a[0] if a else k['rv']
        cs = a[1] if len(a) > 1 else k.get('coordSys')
        if cs is not None:
            self.move(b, cs)
        if isinstance(surf, Ref):
            o = self.ip.obj(surf)
            if o.cls is None or o.cls.name != 'Sphere':
                raise P.NoVerdict('intersection with %s' % T.show(surf))
            surf = Tup(['Sphere', self.ip.getattr(surf, 'R')])
        self.put(b, self.met(self.rays(b), surf))
        return b

    def getitem(self, ip, a, k):
        rays, i = self.rays(a[0]), a[1]
        n = ival(i) if isinstance(i, R) else None
        if n is not None:
            if not -len(rays) <= n < len(rays):
                ip.throw('IndexError', 'index out of bounds')
            out = [rays[n]]
        elif isinstance(i, SliceV):
            ks = [None if q is None else ival(q) for q in i.sub_values()]
            if any(q is None and p is not None for p, q in zip(i.sub_values(), ks)):
                raise P.NoVerdict('slice of a bundle')
            out = list(rays)[slice(*ks)]
        else:
            ix = ip.fancy_get(Arr((len(rays),), {(j,): const(j) for j in range(len(rays))}), [i])
            if ix is None:
                raise P.NoVerdict('index of a bundle')
            out = [rays[ival(x)] for x in ix.items.values()]
        return self.bundle(out, ip.getattr(a[0], 'coordSys'))

    # ---------------------------------------------------------- black boxes
    def amp(self, rays, point):
        k = self.intern('amp', Tup([Bundle(rays)] + list(point)))
        return T.radd(T.atom('amp re', (k,), ('real',)), T.rmul(IMAG, T.atom('amp im', (k,), ('real',))))

    def amplitude(self, ip, a, k):
        b = dict(zip(('self', 'r', 't', 'ignoreVignetted'), a), **k)
        p = ip.arr_of(b['r'])
        if p is None or p.dims != (3,) or b.get('ignoreVignetted', True) is not True:
            raise P.NoVerdict('amplitude arguments')
        self.zs.append(p.items[(2,)])
        return self.amp(self.rays(b['self']), [p.items[(0,)], p.items[(1,)]])

    def solve(self, A, B):
        """Least squares A (n,m), B (n,k): solution atoms (m,k), rank."""
        n, m = A.dims
        order = sorted(range(n), key=lambda i: T.show(Tup([A.items[(i, j)] for j in range(m)])))
        cols = [self.intern('column', Arr((n,), {(i,): A.items[(o, j)] for i, o in enumerate(order)})) for j in range(m)]
        sysid = self.intern('system', Tup([const(c) for c in sorted(cols)]))
        kb = B.dims[1]
        rhs = [self.intern('rhs', Arr((n,), {(i,): B.items[(o, j)] for i, o in enumerate(order)})) for j in range(kb)]
        x = Arr((m, kb), {(j, q): T.atom('lsq', (sysid, cols[j], rhs[q]), ('real',)) for j in range(m) for q in range(kb)})
        return x, T.atom('lsq rank', (sysid,), ('int', 'real'))

    def lstsq(self, ip, a, k):
        A, B = ip.arr_of(a[0]), ip.arr_of(a[1])
        if A is None or B is None or len(A.dims) != 2 or len(B.dims) not in (1, 2) or A.dims[0] != B.dims[0]:
            return NotImplemented
        B2 = B if len(B.dims) == 2 else Arr(B.dims + (1,), {q + (0,): v for q, v in B.items.items()})
        x, rank = self.solve(A, B2)
        if len(B.dims) == 1:
            x = Arr((A.dims[1],), {(j,): x.items[(j, 0)] for j in range(A.dims[1])})
        return Tup([x, thing('residuals'), rank, thing('singular values')])

    def fft(self, x):
        k = self.intern('fft', x)
        return Arr(x.dims, {q: T.radd(T.atom('fft re', (k, q), ('real',)), T.rmul(IMAG, T.atom('fft im', (k, q), ('real',)))) for q in x.keys()})

    def fft2(self, ip, a, k):
        x = ip.arr_of(a[0])
        return self.fft(x) if x is not None and len(a) == 1 and not k else NotImplemented

    def zb(self, j, x, y, ro, ri, kind='zernike'):
        return T.atom(kind, (j, x, y, ro, ri), ('real',)) if j else ZERO

    def basis(self, ip, a, k):
        b = dict(zip(('jmax', 'x', 'y', 'R_outer', 'R_inner'), a), **k)
        x, y, j = ip.arr_of(b['x']), ip.arr_of(b['y']), ival(b['jmax'])
        if x is None or y is None or j is None or x.dims != y.dims or len(x.dims) != 1:
            return NotImplemented
        ro, ri = b.get('R_outer', ONE), b.get('R_inner', ZERO)
        return Arr((j + 1,) + x.dims, {(q,) + p: self.zb(q, x.items[p], y.items[p], ro, ri) for q in range(j + 1) for p in x.keys()})

    def zernike(self, ip, a, k):
        b = dict(zip(('coef', 'R_outer', 'R_inner'), a), **k)
        c = ip.as_list(b['coef'])
        if c is None:
            x = ip.arr_of(b['coef'])
            c = [x.items[q] for q in x.keys()] if x is not None and len(x.dims) == 1 else None
        ks = [i for i, q in enumerate(c or []) if ival(q) != 0]
        if len(ks) != 1 or ival(c[ks[0]]) != 1:
            return NotImplemented
        return T.atom('Zernike', (ks[0], ip.freeze(b.get('R_outer', ONE)), ip.freeze(b.get('R_inner', ZERO))), ('obj',))

    def grad(self, d):
        def h(ip, recv, a, k):
            i = T.single_atom(recv) if isinstance(recv, R) else None
            if i is None or T.ATOMS[i][0] != 'Zernike' or len(a) != 2:
                return NotImplemented
            j, ro, ri = T.ATOMS[i][1]
            x, y = ip.arr_of(a[0]), ip.arr_of(a[1])
            if x is None or y is None or x.dims != y.dims:
                return NotImplemented
            return Arr(x.dims, {p: self.zb(j, x.items[p], y.items[p], ro, ri, 'zernike ' + d) for p in x.keys()})
        return h

    # ------------------------------------------------------------------ run
    def run(self, name, *a, **k):
        self.zs = []
        ip = self.ip
        r0 = len(ip.raised)
        self.where = loc(self.ctx, name)
        self.res = ip.toplevel(lambda: ip.call(ip.function('analysis', name), list(a), dict(k)))
        self.raised = ip.raised[r0:]
        done(self.ctx, ip)
        return self.res

    # ----------------------------------------------------- spec ingredients
    def grid(self, nx, thx=THX, thy=THY):
        return self.make('asGrid', optic=OPT, wavelength=WL, nx=const(nx), dirCos=self.dir(thx, thy))

    def dir(self, thx=THX, thy=THY):
        return self.dircos({'u': thx, 'v': thy, 'projection': PROJ})

    def vec(self, r, c=('x', 'y', 'z')):
        return [self.value(r, q) for q in c]

    def good(self, rays):
        return [r for r in rays if not self.flag(r, 'vignetted')]

    def mean(self, vs):
        s = ZERO
        for v in vs:
            s = T.radd(s, v)
        return T.rdiv(s, const(len(vs)))

    def point(self, rays, ref, chief):
        if ref == 'chief':
            return self.vec(chief)
        g = [self.vec(r) for r in self.good(rays)]
        return [self.mean([v[i] for v in g]) for i in range(3)]

    def frame(self, p):
        """The exit frame shifted by p (its own coordinates)."""
        ip = self.ip
        o, r = ip.getattr(self.exit, 'origin'), ip.getattr(self.exit, 'rot')
        q = {}
        for i in range(3):
            s = o.items[(i,)]
            for j in range(3):
                s = T.radd(s, T.rmul(r.items[(i, j)], p[j]))
            q[(i,)] = s
        return Tup([Arr((3,), q), r])

    def wave(self, rays, ref, radius, chief=None):
        """(OPD in waves per ray, rays on the sphere)."""
        S = self.traced(rays)
        p = self.point(S, ref, chief)
        F = self.frame([p[0], p[1], T.radd(p[2], radius)])
        sph = Tup(['Sphere', T.rneg(radius)])
        I = self.met(self.moved(S, F), sph)
        if ref == 'chief':
            t0 = self.value(self.met(self.moved([chief], F), sph)[0], 't')
        else:
            t0 = self.mean([self.value(r, 't') for r in self.good(I)])
        return [T.rdiv(T.rsub(t0, self.value(r, 't')), WL) for r in I], S, I


def cridx(nx):
    return (nx // 2) * nx + nx // 2 if nx % 2 == 0 else (nx * nx - 1) // 2


def vals(xs):
    return Arr((len(xs),), {(i,): x for i, x in enumerate(xs)})


def mat(rows):
    return Arr((len(rows), len(rows[0])), {(i, j): x for i, q in enumerate(rows) for j, x in enumerate(q)})


def arr(w, v):
    return w.ip.arr_of(v) if v is not None else None


def eq(s, w, subj, got, want, msg=''):
    g = arr(w, got) if not isinstance(got, (R, V)) else got
    if isinstance(want, Arr) and isinstance(g, Arr):
        if g.dims != want.dims:
            s.bad(subj, w.where, '%s: shape %s, expected %s' % (msg, g.dims, want.dims))
            return
        bad = None
        for k in want.keys():
            x = judge1(s, w, g.items[k], want.items[k])
            if x is not None:
                bad = (k, x) if bad is None or x[0] == 'bad' else bad
                if x[0] == 'bad':
                    break
        if bad is None:
            s.ok(subj, w.where)
        elif bad[1][0] == 'bad':
            s.bad(subj, w.where, '%s: element %s is %s' % (msg, bad[0], bad[1][1]))
        else:
            s.und(subj, w.where, bad[1][1])
        return
    if g is None or isinstance(got, Arr) != isinstance(want, Arr):
        s.und(subj, w.where, 'no comparable value: ' + T.show(got)[:100])
        return
    judge(s, subj, w.where, g, want, known=KN, msg=msg)


class _S:
    def __init__(self):
        self.r = None

    def ok(self, *a):
        self.r = None

    def bad(self, a, b, m):
        self.r = ('bad', m)

    def und(self, a, b, m):
        self.r = ('und', m)


def judge1(s, w, a, b):
    q = _S()
    judge(q, '', '', a, b, known=KN)
    return q.r


def refs(w, rays, nx, ref):
    S = w.traced(rays)
    return S[cridx(nx)]


def dkdu_want(w, rays):
    S = w.traced(rays)
    A, B = [], []
    for a, b in zip(rays, S):
        if w.flag(b, 'vignetted'):
            continue
        A.append([ONE, w.value(a, 'x'), w.value(a, 'y')])
        v = w.vec(b, ('vx', 'vy', 'vz'))
        n = T.radd(T.radd(T.rmul(v[0], v[0]), T.rmul(v[1], v[1])), T.rmul(v[2], v[2]))
        c = T.rdiv(T.rmul(const(2), PI), T.rmul(w.value(b, 'wavelength'), n))
        B.append([T.rmul(c, v[0]), T.rmul(c, v[1])])
    x, _ = w.solve(mat(A), mat(B))
    return Arr((2, 2), {(i, j): x.items[(i + 1, j)] for i in range(2) for j in range(2)})


ARGS = (THX, THY, WL)


def half(v):
    return T.rmul(const(Fraction(1, 2)), v)


def raises(s, w, subj, want, exc, what):
    """The call raises exc exactly when want holds."""
    g = False
    for r in w.raised:
        if r[1] == exc:
            g = T.vor(g, r[0])
    judge(s, subj, w.where, g, want, known=KN, msg='%s is not raised exactly when %s' % (exc, what))


def attempt(s, subj, f):
    try:
        return f()
    except (P.NoVerdict, P.Budget, P.Dead) as e:
        s.und(subj, '', '%s: %s' % (type(e).__name__, e))
    except (KeyError, TypeError, AttributeError, IndexError) as e:
        s.und(subj, '', 'analysis gave up: %r' % (e,))


def returned(s, w, subj):
    """The call can return normally."""
    if w.res is None:
        us = sorted({'%s %s' % (x[1], x[-1]) for x in w.raised})
        s.und(subj, w.where, 'no result: ' + '; '.join(us)[:160])
        return False
    return True


def lattice(w, f):
    return w.ip.getattr(w.res, f) if isinstance(w.res, Ref) else None


def masked(s, w, subj, got, want, vig, nx):
    """got: masked array holding want wherever vig is False."""
    if not isinstance(got, Arr):
        return s.und(subj, w.where, 'no array: ' + T.show(got)[:80])
    if got.dims != (nx, nx):
        return s.bad(subj, w.where, 'shape %s, expected %s' % (got.dims, (nx, nx)))
    m = got.mask if isinstance(got, MArr) else None
    if m is None:
        return s.und(subj + '/mask', w.where, 'result is not a masked array')
    for j in range(nx * nx):
        if m.items[divmod(j, nx)] is not vig[j]:
            return s.bad(subj + '/mask', w.where, 'ray %d is %svignetted but %smasked' % (j, '' if vig[j] else 'not ', 'not ' if vig[j] else ''))
    s.ok(subj + '/mask', w.where)
    keep = [j for j in range(nx * nx) if not vig[j]]
    eq(s, w, subj, vals([got.items[divmod(j, nx)] for j in keep]), vals([want[j] for j in keep]), 'wrong value')


@rule('C23', 'bilinear-fit', need=1)
def r_fit(ctx, s):
    def go():
        w = World(ctx)
        n = 5
        cs = [Arr((n,), {(i,): REAL('%s%d' % (c, i)) for i in range(n)}) for c in ('ux', 'uy', 'kx', 'ky')]
        w.zs = []
        ip = w.ip
        w.where = loc(ctx, 'bilinear_fit')
        w.res = ip.toplevel(lambda: ip.call(ip.function('utils', 'bilinear_fit'), list(cs), {}))
        done(ctx, ip)
        x, _ = w.solve(mat([[ONE, cs[0].items[(i,)], cs[1].items[(i,)]] for i in range(n)]), mat([[cs[2].items[(i,)], cs[3].items[(i,)]] for i in range(n)]))
        eq(s, w, 'bilinear_fit', w.res, x, 'fit of (kx, ky) onto (1, ux, uy)')
    attempt(s, 'bilinear_fit', go)


def polar(w, **k):
    b = dict(optic=OPT, wavelength=WL, dirCos=w.dir(), nrad=const(6), naz=const(36))
    b.update(k)
    return w.make('asPolar', **b)


NR = {'nrad': T.atom('var', ('nrad',), ('int', 'pos')), 'naz': T.atom('var', ('naz',), ('int', 'pos'))}


@rule('C23', 'dkdu', need=2)
def r_dkdu(ctx, s):
    for tag, kw in (('defaults', {}), ('sampling given', NR)):
        def go():
            w = World(ctx)
            w.run('dkdu', OPT, *ARGS, projection=PROJ, **kw)
            if returned(s, w, 'dkdu ' + tag):
                eq(s, w, 'dkdu ' + tag, w.res, dkdu_want(w, polar(w, **kw)), 'gradient of the wavevector over the pupil')
        attempt(s, 'dkdu ' + tag, go)


def drdth_want(w, **kw):
    """Matrix, from whatever step the code uses (taken from the bundles it made)."""
    d = None
    for n, b in w.made:
        if n == 'asPolar' and b.get('dirCos') is not None:
            a = T.single_atom(w.ip.arr_of(b['dirCos']).items[(0,)])
            u = T.ATOMS[a][1][0]
            if isinstance(u, R):
                q = T.rsub(u, THX)
                if T.is_const(q) and T.cval(q) != 0:
                    d = q
    if d is None:
        return None
    N = w.traced(polar(w, **kw))
    X = w.traced(polar(w, dirCos=w.dir(T.radd(THX, d), THY), **kw))
    Y = w.traced(polar(w, dirCos=w.dir(THX, T.radd(THY, d)), **kw))
    m = lambda B, c: w.mean([w.value(r, c) for r in w.good(B)])
    return mat([[T.rdiv(T.rsub(m(B, c), m(N, c)), d) for B in (X, Y)] for c in ('x', 'y')])


@rule('C23', 'drdth', need=6)
def r_drdth(ctx, s):
    for tag, kw in (('defaults', {}), ('sampling given', NR)):
        for fn in ('drdth', 'dthdr', 'focalLength'):
            def go():
                w = World(ctx)
                w.run(fn, OPT, *ARGS, projection=PROJ, **kw)
                t = '%s %s' % (fn, tag)
                if not returned(s, w, t):
                    return
                want = drdth_want(w, **kw)
                if want is None:
                    return s.und(t, w.where, 'no bundle displaced in field angle')
                g = lambda i, j: want.items[(i, j)]
                det = T.rsub(T.rmul(g(0, 0), g(1, 1)), T.rmul(g(0, 1), g(1, 0)))
                if fn == 'drdth':
                    eq(s, w, t, w.res, want, 'gradient of the mean position over field angle')
                elif fn == 'dthdr':
                    inv = mat([[T.rdiv(g(1, 1), det), T.rdiv(T.rneg(g(0, 1)), det)], [T.rdiv(T.rneg(g(1, 0)), det), T.rdiv(g(0, 0), det)]])
                    eq(s, w, t, w.res, inv, 'inverse of drdth')
                else:
                    eq(s, w, t, w.res, T.fn('sqrt', det), 'geometric mean focal length')
            attempt(s, '%s %s' % (fn, tag), go)


def primitive(nx):
    d = T.rdiv(oattr('pupilSize'), const(nx - 2 if nx % 2 == 0 else nx - 1))
    return mat([[d, ZERO], [ZERO, d]])


RAD = REAL('radius')


def wavecases():
    for nx in (3, 4):
        for ref in ('chief', 'mean'):
            for rad in (None, RAD):
                yield '%s nx=%d %s' % (ref, nx, 'default radius' if rad is None else 'radius given'), nx, ref, rad


def wargs(ref, rad, **k):
    k = dict(k, projection=PROJ)
    if ref != 'chief':
        k['reference'] = ref
    if rad is not None:
        k['sphereRadius'] = rad
    return k


@rule('C23', 'wavefront', need=24)
def r_wavefront(ctx, s):
    for tag, nx, ref, rad in wavecases():
        def go():
            w = World(ctx)
            w.run('wavefront', OPT, *ARGS, **wargs(ref, rad, nx=const(nx)))
            t = 'wavefront ' + tag
            if not returned(s, w, t):
                return
            G = w.grid(nx)
            want, S, I = w.wave(G, ref, rad if rad is not None else oattr('sphereRadius'), w.traced(G)[cridx(nx)])
            masked(s, w, t, lattice(w, 'array'), want, [w.flag(r, 'vignetted') for r in S], nx)
            eq(s, w, t + '/primitive', lattice(w, 'primitiveVectors'), primitive(nx), 'pupil sampling')
        attempt(s, 'wavefront ' + tag, go)


@rule('C23', 'spot', need=6)
def r_spot(ctx, s):
    for nx in (3, 4):
        for ref in ('chief', 'mean', 'other'):
            t = 'spot %s nx=%d' % (ref, nx)

            def go():
                w = World(ctx)
                w.run('spot', OPT, *ARGS, **wargs(ref, None, nx=const(nx)))
                if not returned(s, w, t):
                    return
                S = w.traced(w.grid(nx))
                p = w.point(S, ref, S[cridx(nx)]) if ref != 'other' else [ZERO] * 3
                M = w.good(w.moved(S, w.frame(p)))
                l = w.ip.as_list(w.res)
                if l is None or len(l) != 2:
                    return s.und(t, w.where, 'result is ' + T.show(w.res)[:80])
                for c, g in zip('xy', l):
                    eq(s, w, '%s/%s' % (t, c), g, vals([w.value(r, c) for r in M]), 'spot positions')
            attempt(s, t, go)


def reciprocal(K, n):
    """X with K_a . X_b = 2 pi delta_ab / n."""
    g = lambda i, j: K.items[(i, j)]
    f = T.rdiv(T.rmul(const(2), PI), T.rmul(const(n), T.rsub(T.rmul(g(0, 0), g(1, 1)), T.rmul(g(0, 1), g(1, 0)))))
    return mat([[T.rmul(f, g(1, 1)), T.rneg(T.rmul(f, g(1, 0)))], [T.rneg(T.rmul(f, g(0, 1))), T.rmul(f, g(0, 0))]])


def mm(a, b):
    n = a.dims[1]
    out = []
    for i in range(a.dims[0]):
        r = []
        for j in range(b.dims[1]):
            x = ZERO
            for k in range(n):
                x = T.radd(x, T.rmul(a.items[(i, k)], b.items[(k, j)]))
            r.append(x)
        out.append(r)
    return mat(out)


@rule('C23', 'fft-psf', need=8)
def r_fft(ctx, s):
    for nx, pad in ((3, 2), (4, 2), (4, 3), (3, 3)):
        for ref, rad in (('chief', None), ('mean', RAD)):
            t = 'fftPSF %s nx=%d pad=%d' % (ref, nx, pad)

            def go():
                w = World(ctx)
                w.run('fftPSF', OPT, *ARGS, **wargs(ref, rad, nx=const(nx), **({} if pad == 2 else {'pad_factor': const(pad)})))
                if not returned(s, w, t):
                    return
                G = w.grid(nx)
                wf, S, I = w.wave(G, ref, rad if rad is not None else oattr('sphereRadius'), w.traced(G)[cridx(nx)])
                n = nx * pad
                E = {(i, j): ZERO for i in range(n) for j in range(n)}
                st = n // 2 - nx // 2
                for q, v in enumerate(wf):
                    if not w.flag(S[q], 'vignetted'):
                        i, j = divmod(q, nx)
                        E[(st + i, st + j)] = P.cexp(T.rmul(IMAG, T.rmul(const(2), T.rmul(PI, v))))
                F = w.fft(Arr((n, n), E))
                out = {}
                for i in range(n):
                    for j in range(n):
                        re, im = cparts(F.items[((i - n // 2) % n, (j - n // 2) % n)])
                        out[(i, j)] = T.radd(T.rmul(re, re), T.rmul(im, im))
                eq(s, w, t, lattice(w, 'array'), Arr((n, n), out), 'squared transform of the pupil function')
                K = mm(dkdu_want(w, polar(w)), primitive(nx))
                eq(s, w, t + '/primitive', lattice(w, 'primitiveVectors'), reciprocal(K, n), 'image sampling')
            attempt(s, t, go)


@rule('C23', 'huygens-psf', need=8)
def r_huygens(ctx, s):
    D, E = REAL('dx'), REAL('dy')
    B1, B2 = (Arr((2,), {(0,): REAL(n + '0'), (1,): REAL(n + '1')}) for n in ('b1', 'b2'))
    for tag, nx, ref, kw in (('default step', 3, 'chief', {}), ('default step', 2 + 2, 'chief', {'nxOut': const(2)}), ('dx', 3, 'mean', {'dx': D}), ('dx', 4, 'chief', {'dx': D}),
                             ('dx dy', 4, 'mean', {'dx': D, 'dy': E}), ('dx dy nxOut', 4, 'chief', {'dx': D, 'dy': E, 'nxOut': const(3)}),
                             ('vectors', 3, 'chief', {'dx': B1, 'dy': B2, 'nxOut': const(2)})):
        t = 'huygensPSF %s %s nx=%d' % (tag, ref, nx)

        def go():
            w = World(ctx)
            w.run('huygensPSF', OPT, *ARGS, **wargs(ref, None, nx=const(nx), **kw))
            if not returned(s, w, t):
                return
            S = w.traced(w.grid(nx))
            p = w.point(S, ref, S[cridx(nx)])
            n = ival(kw.get('nxOut', const(nx)))
            if 'dx' not in kw:
                n *= 2
                # the step matches the resolution of the input grid
                X = reciprocal(mm(dkdu_want(w, polar(w)), primitive(nx)), 2 * nx)
            elif isinstance(kw['dx'], Arr):
                X = mat([[B1.items[(0,)], B1.items[(1,)]], [B2.items[(0,)], B2.items[(1,)]]])
            else:
                X = mat([[D, ZERO], [ZERO, kw.get('dy', D)]])
            eq(s, w, t + '/primitive', lattice(w, 'primitiveVectors'), X, 'image sampling')
            out = {}
            for i in range(n):
                for j in range(n):
                    # array is [y, x]; the lattice's first vector runs along x
                    c = [const(j - n // 2), const(i - n // 2)]
                    q = [T.radd(p[e], T.radd(T.rmul(c[0], X.items[(0, e)]), T.rmul(c[1], X.items[(1, e)]))) for e in (0, 1)]
                    re, im = cparts(w.amp(S, q))
                    out[(i, j)] = T.radd(T.rmul(re, re), T.rmul(im, im))
            eq(s, w, t, lattice(w, 'array'), Arr((n, n), out), 'squared sum of the amplitudes')
        attempt(s, t, go)


EPS = REAL('eps')


def stoprays(w, rays):
    return w.met(w.moved(rays, Tup([oattr('stopSurface', 'coordSys')])), oattr('stopSurface', 'surface'))


def zcase():
    for ref, rad, eps in (('chief', None, None), ('mean', RAD, EPS)):
        yield '%s %s' % (ref, 'defaults' if rad is None else 'given'), ref, rad, eps


@rule('C23', 'zernike', need=8)
def r_zernike(ctx, s):
    J = 3
    for tag, ref, rad, eps in zcase():
        for nx in (3, 4):
            t = 'zernike %s nx=%d' % (tag, nx)

            def go():
                w = World(ctx)
                w.run('zernike', OPT, *ARGS, **wargs(ref, rad, nx=const(nx), jmax=const(J), **({'eps': eps} if eps is not None else {})))
                G = w.grid(nx)
                wf, S, I = w.wave(G, ref, rad if rad is not None else oattr('sphereRadius'), w.traced(G)[cridx(nx)])
                keep = [j for j in range(nx * nx) if not w.flag(S[j], 'vignetted')]
                E = stoprays(w, G)
                ro = half(oattr('pupilSize'))
                ri = T.rmul(ro, eps) if eps is not None else ZERO
                A = mat([[w.zb(q, w.value(E[j], 'x'), w.value(E[j], 'y'), ro, ri) for q in range(J + 1)] for j in keep])
                x, rank = w.solve(A, mat([[wf[j]] for j in keep]))
                raises(s, w, t + '/rank', T.lt(rank, const(J)), 'RuntimeError', 'the fit is degenerate')
                if returned(s, w, t):
                    ok = T.le(const(J), rank)
                    want = vals([ZERO] + [x.items[(q, 0)] for q in range(1, J + 1)])
                    g = under(w, ok)
                    eq(s, w, t, g, want, 'Zernike coefficients')
            attempt(s, t, go)


def under(w, ok):
    from .pyvals import constrain
    return constrain(w.res, ok)


@rule('C23', 'zernike-gq', need=8)
def r_gq(ctx, s):
    J = 3
    for tag, ref, rad, eps in zcase():
        for rings, spokes in ((None, None), (T.atom('var', ('rings',), ('int', 'pos')), T.atom('var', ('spokes',), ('int', 'pos')))):
            t = 'zernikeGQ %s%s' % (tag, '' if rings is None else ' sampling')

            def go(fails=False):
                w = World(ctx, fails)
                kw = wargs(ref, rad, jmax=const(J), **({'eps': eps} if eps is not None else {}))
                if rings is not None:
                    kw.update(rings=rings, spokes=spokes)
                w.run('zernikeGQ', OPT, *ARGS, **kw)
                if fails:
                    return s.check(w.res is None and any(r[0] is True and r[1] == 'ValueError' for r in w.raised), t + '/failed', w.where, 'rays have failed, but no ValueError is raised')
                if not returned(s, w, t):
                    return
                e = eps if eps is not None else ZERO
                inner = T.rmul(e, half(oattr('pupilSize')))
                G = w.make('asSpokes', optic=OPT, wavelength=WL, dirCos=w.dir(), inner=inner, rings=rings if rings is not None else const(6), spokes=spokes, spacing='GQ')
                E = stoprays(w, G)
                chief = w.traced(w.make('fromStop', optic=OPT, x=ZERO, y=ZERO, wavelength=WL, dirCos=w.dir()))[0]
                wf, S, I = w.wave(G, ref, rad if rad is not None else oattr('sphereRadius'), chief)
                area = T.rmul(PI, T.rsub(ONE, T.rmul(e, e)))
                out = []
                for q in range(J + 1):
                    x = ZERO
                    for j in range(len(G)):
                        x = T.radd(x, T.rmul(w.zb(q, w.value(E[j], 'x'), w.value(E[j], 'y'), half(oattr('pupilSize')), inner), T.rmul(wf[j], w.value(I[j], 'flux'))))
                    out.append(T.rdiv(x, area))
                eq(s, w, t, w.res, vals(out), 'Zernike coefficients')
            attempt(s, t, go)
            attempt(s, t + '/failed', lambda: go(True))


@rule('C23', 'zernike-ta', need=8)
def r_ta(ctx, s):
    J = 3
    FL = REAL('focal_length')
    for tag, ref, eps, fl, kw in (('defaults', 'chief', None, None, {}), ('mean', 'mean', EPS, FL, NR), ('chief', 'chief', EPS, FL, NR), ('own focal length', 'mean', None, None, NR)):
        t = 'zernikeTA ' + tag

        def go():
            w = World(ctx)
            w.run('zernikeTA', OPT, *ARGS, **wargs(ref, None, jmax=const(J), **dict(kw, **dict({'eps': eps} if eps is not None else {}, **({'focal_length': fl} if fl is not None else {})))))
            G = polar(w, **kw)
            E, S = stoprays(w, G), w.traced(G)
            keep = [j for j in range(len(G)) if not w.flag(S[j], 'vignetted')]
            ro = half(oattr('pupilSize'))
            ri = T.rmul(eps, ro) if eps is not None else ZERO
            chief = w.traced(w.make('fromStop', optic=OPT, x=ZERO, y=ZERO, wavelength=WL, dirCos=w.dir()))[0]
            p = w.point(S, ref, chief)
            rows, rhs = [], []
            for d, c, o in (('dx', 'x', 0), ('dy', 'y', 1)):
                for j in keep:
                    rows.append([ZERO, ZERO] + [w.zb(q, w.value(E[j], 'x'), w.value(E[j], 'y'), ro, ri, 'zernike ' + d) for q in range(2, J + 1)])
                    rhs.append([T.rsub(w.value(S[j], c), p[o])])
            x, rank = w.solve(mat(rows), mat(rhs))
            raises(s, w, t + '/rank', T.lt(rank, const(J - 1)), 'RuntimeError', 'the fit is degenerate')
            if not returned(s, w, t):
                return
            f = fl
            if f is None:
                m = drdth_want(w)
                if m is None:
                    return s.und(t, w.where, 'no focal length')
                f = T.fn('sqrt', T.rsub(T.rmul(m.items[(0, 0)], m.items[(1, 1)]), T.rmul(m.items[(0, 1)], m.items[(1, 0)])))
            want = vals([ZERO] + [T.rneg(T.rdiv(x.items[(q, 0)], T.rmul(f, WL))) for q in range(1, J + 1)])
            eq(s, w, t, under(w, T.le(const(J - 1), rank)), want, 'Zernike coefficients')
        attempt(s, t, go)


@rule('C23', 'zernike-xy', need=8)
def r_xy(ctx, s):
    J = 3
    for tag, ref, eps, iv, kw in (('defaults', 'chief', None, None, {}), ('mean', 'mean', EPS, None, NR), ('chief', 'chief', EPS, True, NR), ('mean all', 'mean', EPS, True, NR)):
        t = 'zernikeXYAberrations ' + tag

        def go():
            w = World(ctx)
            w.run('zernikeXYAberrations', OPT, *ARGS, **wargs(ref, None, jmax=const(J), **dict(kw, **dict({'eps': eps} if eps is not None else {}, **({'include_vignetted': iv} if iv is not None else {})))))
            G = polar(w, **kw)
            E, S = stoprays(w, G), w.traced(G)
            keep = [j for j in range(len(G)) if iv or not w.flag(S[j], 'vignetted')]
            ro = half(oattr('pupilSize'))
            ri = T.rmul(eps, ro) if eps is not None else ZERO
            chief = w.traced(w.make('fromStop', optic=OPT, x=ZERO, y=ZERO, wavelength=WL, dirCos=w.dir()))[0]
            p = w.point(S, ref, chief)
            A = mat([[w.zb(q, w.value(E[j], 'x'), w.value(E[j], 'y'), ro, ri) for q in range(J + 1)] for j in keep])
            x, rank = w.solve(A, mat([[T.rsub(w.value(S[j], c), p[o]) for o, c in enumerate('xy')] for j in keep]))
            raises(s, w, t + '/rank', T.lt(rank, const(J)), 'RuntimeError', 'the fit is degenerate')
            if not returned(s, w, t):
                return
            r = under(w, T.le(const(J), rank))
            l = w.ip.as_list(r) if not isinstance(r, V) else None
            if l is None or len(l) != 2:
                return s.und(t, w.where, 'result is ' + T.show(r)[:80])
            for o, c in enumerate('xy'):
                eq(s, w, '%s/%s' % (t, c), l[o], vals([ZERO] + [x.items[(q, o)] for q in range(1, J + 1)]), 'Zernike coefficients of ' + c)
        attempt(s, t, go)


@rule('C23', 'double-zernike', need=2)
def r_double(ctx, s):
    KM = 2
    FLD = REAL('field')
    for tag, rings, spokes, kw in (('default spokes', 1, None, {}), ('given', 2, 3, {'jmax': const(4), 'eps': EPS})):
        t = 'doubleZernike ' + tag

        def go():
            w = World(ctx)
            nc = ival(kw.get('jmax', const(22))) + 1
            calls = []

            def gq(ip, a, k):
                b = bindargs(ctx, 'analysis', 'zernikeGQ', a, k)
                q = w.intern('gq', Tup([Tup([n, ip.freeze(b[n])]) for n in sorted(b) if b[n] is not None]))
                calls.append(q)
                return vals([T.atom('gq', (q, j), ('real',)) for j in range(nc)])
            w.ip.hooks['analysis.zernikeGQ'] = gq
            w.run('doubleZernike', OPT, FLD, WL, rings=const(rings), kmax=const(KM), **dict(kw, **({'spokes': const(spokes)} if spokes else {})))
            if not returned(s, w, t):
                return
            ns = spokes or 2 * rings + 1
            pts = []
            for a in range(ns):
                for r in range(rings):
                    L, W = (T.atom('leggauss.' + q, (const(rings), const(r)), ('real',)) for q in 'xw')
                    rad = T.rmul(T.fn('sqrt', half(T.radd(ONE, L))), FLD)
                    az = T.rdiv(T.rmul(const(2 * a), PI), const(ns))
                    pts.append((T.rmul(rad, T.fn('cos', az)), T.rmul(rad, T.fn('sin', az)), T.rdiv(W, const(2 * ns))))
            want = {}
            co = []
            for x, y, _ in pts:
                b = bindargs(ctx, 'analysis', 'zernikeGQ', [OPT, x, y, WL], dict(kw, rings=const(rings), spokes=const(ns)))
                q = w.intern('gq', Tup([Tup([n, w.ip.freeze(b[n])]) for n in sorted(b) if b[n] is not None]))
                co.append([T.atom('gq', (q, j), ('real',)) for j in range(nc)])
            for k in range(KM + 1):
                for j in range(nc):
                    v = ZERO
                    for (x, y, wt), c in zip(pts, co):
                        v = T.radd(v, T.rmul(w.zb(k, x, y, FLD, ZERO), T.rmul(c[j], wt)))
                    want[(k, j)] = v
            g = arr(w, w.res)
            if g is None or g.dims != (KM + 1, nc):
                return s.und(t, w.where, 'result is ' + T.show(w.res)[:80])
            bad = None
            for k in sorted(want):
                q = _S()
                judge(q, '', '', g.items[k], want[k], known=KN + ('gq',))
                if q.r is not None:
                    bad = (k, q.r)
                    break
            if bad is None:
                s.ok(t, w.where)
            elif bad[1][0] == 'bad':
                s.bad(t, w.where, 'element %s is %s' % (bad[0], bad[1][1]))
            else:
                s.und(t, w.where, bad[1][1])
        attempt(s, t, go)


@rule('C23', 'exit-pupil', need=1)
def r_exit(ctx, s):
    def go():
        w = World(ctx)
        A = REAL('small')
        w.run('exitPupilPos', OPT, WL, smallAngle=A, projection=PROJ)
        if not returned(s, w, 'exitPupilPos'):
            return
        fr = [b for n, b in w.made if n == 'fromFieldAngles']
        if len(fr) != 1:
            return s.und('exitPupilPos', w.where, '%d bundles from field angles' % len(fr))
        b = fr[0]
        th = [w.ip.arr_of(b.get(n)) for n in ('theta_x', 'theta_y')]
        pts = list(zip(*[[x.items[(i,)] for i in range(x.dims[0])] for x in th]))
        want = [(A, ZERO), (T.rneg(A), ZERO), (ZERO, A), (ZERO, T.rneg(A))]
        ok = len(pts) == 4 and all(any(all(T.compare(x, y) is None for x, y in zip(p, q)) for q in want) for p in pts) and all(any(all(T.compare(x, y) is None for x, y in zip(p, q)) for p in pts) for q in want)
        s.check(ok, 'exitPupilPos/angles', w.where, 'the rays do not come from the four field points at the given small angle')
        G = w.make('fromFieldAngles', theta_x=th[0], theta_y=th[1], optic=OPT, wavelength=WL, projection=PROJ)
        glob = w.ip.construct(ctx.py.cls('CoordSys'), [], {})
        M = w.moved(w.traced(G), w.framekey(glob))
        ps = []
        for r in M:
            p, v = w.vec(r), w.vec(r, ('vx', 'vy', 'vz'))
            k = T.rneg(T.rdiv(T.radd(T.rmul(p[0], v[0]), T.rmul(p[1], v[1])), T.radd(T.rmul(v[0], v[0]), T.rmul(v[1], v[1]))))
            ps.append([T.radd(p[i], T.rmul(k, v[i])) for i in range(3)])
        eq(s, w, 'exitPupilPos', w.res, vals([w.mean([q[i] for q in ps]) for i in range(3)]), 'closest approach of the rays to the axis')
    attempt(s, 'exitPupilPos', go)
