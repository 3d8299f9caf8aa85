"""Ray-bundle factories: which value reaches which role, and where the rays start."""
import ast
from fractions import Fraction
from . import terms as T
from .terms import V, R, ZERO, ONE, const, var
from .core import rule
from .cfront import AnalysisBroken
from .pyvals import Arr, Tup, Ref, Cls, Str, MISSING
from .py import interp, done, loc, judge, same_values, mm, tr, vsub
from .rules_frames import thing
from .rules_native import pointee
from .rules_values import attempt
from . import cpp

REAL = lambda n: T.atom('var', (n,), ('real',))
KN = ('.getN', '.sag', 'sag', 'native:*', 'leggauss.*', 'leggauss.x', 'leggauss.w', 'field', 'hexapolar', '.uniform', 'numpy.random.default_rng', 'getitem', '.normal')
DIRCOS = Arr((3,), {(i,): REAL('dc%d' % i) for i in range(3)})
FIELD = Arr((3,), {(i,): REAL('fd%d' % i) for i in range(3)})
OPT = thing('optic')


def oattr(n):
    return T.atom('attr', (OPT, n))


def assume(v):
    """Optional attributes present and not None; scalars are real."""
    if isinstance(v, Arr):
        return Arr(v.dims, {k: assume(x) for k, x in v.items.items()})
    if isinstance(v, bool) or not isinstance(v, (R, V)):
        return v
    sub = {}
    for i in T.val_atoms(v):
        for d in T.deep_atoms(i):
            n, a = T.ATOMS[d]
            if n == 'is' and len(a) == 2 and (a[1] is None or a[0] is None):
                sub[d] = False
            elif n == 'hasattr':
                sub[d] = True
            elif n == 'isinstance' and a[1] in ('Real', 'Number') and isinstance(a[0], R):
                sub[d] = True
    return T.vsubst(v, sub) if sub else v


def bindargs(ctx, mod, fn, a, kw):
    """Call arguments by parameter name (with constant defaults)."""
    node, _ = ctx.py.func(mod, fn)
    ps = [x.arg for x in node.args.args]
    out = dict(zip(ps, a))
    out.update({k: v for k, v in kw.items() if k in ps or k is None})
    for p, d in zip(ps[len(ps) - len(node.args.defaults):], node.args.defaults):
        if p not in out:
            try:
                x = ast.literal_eval(d)
            except ValueError:
                continue
            out[p] = const(Fraction(str(x))) if isinstance(x, (int, float)) and not isinstance(x, bool) else x
    return out


class Run:
    """One analysed call of a factory."""

    make = staticmethod(interp)

    def __init__(self, ctx, name, kw, pos=()):
        self.ctx, self.name = ctx, name
        self.ip = ip = self.make(ctx)
        self.tf, self.field, self.hexa, self.init, self.prop = [], [], [], [], []

        def field(ip, a, k):
            self.field.append(bindargs(ctx, 'utils', 'fieldToDirCos', a, k))
            return Arr(FIELD.dims, dict(FIELD.items))

        def fwd(ip, a, k):
            self.tf.append(('f', bindargs(ctx, 'trace', 'applyForwardTransformArrays', a, k), ip.g))

        def rev(ip, a, k):
            self.tf.append(('r', bindargs(ctx, 'trace', 'applyReverseTransformArrays', a, k), ip.g))

        def hexa(ip, a, k):
            self.hexa.append(bindargs(ctx, 'utils', 'hexapolar', a, k))
            return Tup([Arr(('N',), {(): REAL('hex0')}), Arr(('N',), {(): REAL('hex1')})])

        ip.hooks['utils.fieldToDirCos'] = field
        ip.hooks['trace.applyForwardTransformArrays'] = fwd
        ip.hooks['trace.applyReverseTransformArrays'] = rev
        ip.hooks['utils.hexapolar'] = hexa
        self.extra(ip)
        n0, r0 = len(ip.events), len(ip.raised)
        self.res = ip.toplevel(lambda: ip.call(ip.getattr(Cls(ctx.py.cls('RayVector')), name), list(pos), dict(kw)))
        self.events = [e for e in ip.events[n0:] if assume(e.guard) is not False]
        self.raised = [r for r in ip.raised[r0:] if assume(r[0]) is not False]
        self.where = loc(ctx, 'RayVector', name)
        done(ctx, ip)

    def extra(self, ip):
        pass

    def ev(self, name, kind=None):
        return [e for e in self.events if e.name == name and (kind is None or e.kind == kind)]

    def get(self, f):
        return assume(self.ip.getattr(self.res, f)) if isinstance(self.res, Ref) else None

    def leaf(self, v):
        return assume(v)


def obj(n):
    return thing(n)


BASE = {
    # factory: (sampling arguments, pupil coordinates)
    'asGrid': lambda: ({'nx': const(3), 'lx': REAL('lx')}, ()),
    'asPolar': lambda: ({'outer': REAL('ro'), 'inner': REAL('ri'), 'nrad': T.atom('var', ('nr',), ('int', 'pos')), 'naz': T.atom('var', ('na',), ('int', 'pos'))}, ()),
    'asSpokes': lambda: ({'outer': REAL('ro'), 'inner': REAL('ri'), 'rings': const(3), 'spokes': const(2)}, ()),
    'fromStop': lambda: ({}, (Arr(('N',), {(): REAL('px')}), Arr(('N',), {(): REAL('py')}))),
}
GIVEN = {'backDist': REAL('bd'), 'medium': obj('med'), 'stopSurface': obj('stop'), 'coordSys': obj('cs')}
FROM = {'backDist': 'backDist', 'medium': 'inMedium', 'stopSurface': 'stopSurface', 'coordSys': 'coordSys'}


def scenarios():
    """(tag, given parameters, optic given)"""
    yield 'all given', set(GIVEN), True
    yield 'all given, no optic', set(GIVEN), False
    yield 'from the optic', set(), True
    yield 'defaults', set(), False
    for p in GIVEN:
        yield 'only %s given' % p, {p}, True
    for p in GIVEN:
        yield 'only %s defaulted' % p, set(GIVEN) - {p}, False


def runs(ctx, name):
    def go():
        out = []
        for tag, given, optic in scenarios():
            kw, pos = BASE[name]()
            kw = dict(kw)
            kw.update({p: GIVEN[p] for p in given})
            if optic:
                kw['optic'] = OPT
            kw.update(wavelength=REAL('wl'), flux=REAL('fl'), dirCos=Arr(DIRCOS.dims, dict(DIRCOS.items)))
            out.append((tag, given, optic, Run(ctx, name, kw, pos)))
        return out
    return ctx.memo(('factory', name), go)


def default_frame(r, s, subj, got, want_global=True):
    """got is a coordinate system equal to the global one."""
    if not isinstance(got, Ref):
        return s.und(subj, r.where, 'frame is ' + T.show(got)) if not isthing(got) else s.bad(subj, r.where, 'frame is %s, expected the global one' % T.show(got))
    z = Arr((3,), {(i,): ZERO for i in range(3)})
    e = Arr((3, 3), {(i, j): ONE if i == j else ZERO for i in range(3) for j in range(3)})
    judge(s, subj + '.origin', r.where, r.ip.getattr(got, 'origin'), z)
    judge(s, subj + '.rot', r.where, r.ip.getattr(got, 'rot'), e)


def isthing(v):
    i = T.single_atom(v) if isinstance(v, R) else None
    return i is not None and T.ATOMS[i][0] in ('var', 'attr')


def same_thing(r, s, subj, got, want, what):
    """Identity of opaque objects."""
    if isinstance(got, Ref):
        return s.bad(subj, r.where, 'uses %s, expected %s' % (r.ip.obj(got).cls.name if r.ip.obj(got).cls is not None else 'another object', what))
    judge(s, subj, r.where, got, want, msg=what)


def pick(p, given, optic):
    """The value a parameter must take: ('is', value) or 'default'."""
    if p in given:
        return GIVEN[p]
    return oattr(FROM[p]) if optic else None


def unit(d):
    q = T.fn('sqrt', T.vadd(T.vadd(T.vmul(d.items[(0,)], d.items[(0,)]), T.vmul(d.items[(1,)], d.items[(1,)])), T.vmul(d.items[(2,)], d.items[(2,)])))
    return [T.vdiv(d.items[(i,)], q) for i in range(3)]


def filled(r, v):
    """The single value all elements of a freshly made column have, or None."""
    v = same_values(v)
    if isinstance(v, Arr):
        xs = list(v.items.values())
        return xs[0] if xs and all(T.compare(x, xs[0]) is None for x in xs) else None
    if isinstance(v, (bool,)):
        return v
    i = T.single_atom(v) if isinstance(v, R) else None
    if i is None:
        return v if isinstance(v, R) and T.is_const(v) else None
    n, a = T.ATOMS[i]
    if n in ('.ravel', '.flatten', 'numpy.ravel'):
        return filled(r, a[0]) if not (isinstance(a[0], R) and isthing(a[0])) else a[0]
    if n in ('numpy.zeros', 'numpy.zeros_like'):
        return ZERO
    if n in ('numpy.ones', 'numpy.ones_like'):
        return ONE
    if n in ('numpy.full', 'numpy.full_like'):
        return assume(a[1])
    if n in ('numpy.empty', 'numpy.empty_like'):
        fs = [e for e in r.ev('fill') if e.recv is not None and T.compare(assume(e.recv), v) is None]
        return assume(fs[-1].args[0]) if fs else None
    return None


def chain(ctx, s, name, role):
    for tag, given, optic, r in runs(ctx, name):
        t = '%s %s' % (name, tag)
        if r.res is None:
            if role == 'rays':
                s.bad(t, r.where, 'fails: ' + '; '.join(sorted({'%s %s' % (x[1], x[-1]) for x in r.raised}))[:200]) if any(assume(x[0]) is True for x in r.raised) else s.und(t, r.where, 'no result')
            continue
        fin = r.ev('finishParallel', 'native')
        if role == 'frames':
            if len(r.tf) != 1:
                s.und(t + '/transform', r.where, '%d array transforms' % len(r.tf))
            else:
                way, b, _ = r.tf[0]
                ct = b.get('ct')
                f, to = (assume(r.ip.getattr(ct, q)) for q in (('fromSys', 'toSys') if way == 'f' else ('toSys', 'fromSys'))) if isinstance(ct, Ref) else (None, None)
                st = pick('stopSurface', given, optic)
                if st is None:
                    default_frame(r, s, t + '/from', f)
                else:
                    same_thing(r, s, t + '/from', f, T.atom('attr', (st, 'coordSys')), 'the frame of the stop surface')
                cs = pick('coordSys', given, optic)
                if cs is None:
                    default_frame(r, s, t + '/to', to)
                else:
                    same_thing(r, s, t + '/to', to, cs, 'the requested frame')
            cs = pick('coordSys', given, optic)
            got = r.get('coordSys')
            if cs is None:
                default_frame(r, s, t + '/label', got)
            else:
                same_thing(r, s, t + '/label', got, cs, 'the requested frame')
        elif role == 'stop':
            sg = r.ev('sag')
            st = pick('stopSurface', given, optic)
            if len(sg) != 1:
                s.und(t, r.where, '%d sag calls' % len(sg))
                continue
            recv = assume(sg[0].recv)
            i = T.single_atom(recv) if isinstance(recv, R) else None
            if st is None:
                if i is not None and T.ATOMS[i][0] == 'native:CPPPlane':
                    s.ok(t + '/surface', sg[0].loc)
                else:
                    s.bad(t + '/surface', sg[0].loc, 'rays start from %s, expected a plane' % T.show(recv)) if isthing(recv) else s.und(t + '/surface', sg[0].loc, T.show(recv))
            else:
                h = T.atom('attr', (st, 'surface'))
                if i is not None and T.ATOMS[i][0] == 'native:CPPPlane':
                    s.bad(t + '/surface', sg[0].loc, 'uses the default plane, expected the stop surface')
                else:
                    judge(s, t + '/surface', sg[0].loc, recv, h, msg='the stop surface')
            # the same pupil coordinates everywhere
            if len(r.tf) == 1 and len(fin) == 1:
                b = r.tf[0][1]
                for k, q in enumerate('xyz'):
                    p = pointee(assume(fin[0].args[3 + k]))
                    if p is None or b.get(q) is None:
                        s.und('%s/%s moved' % (t, q), fin[0].loc, 'address not understood')
                        continue
                    judge(s, '%s/%s moved' % (t, q), fin[0].loc, assume(p), assume(b[q]), known=KN)
                    if k < 2:
                        judge(s, '%s/%s height' % (t, q), sg[0].loc, assume(sg[0].args[k]), assume(b[q]), known=KN)
                    judge(s, '%s/%s result' % (t, q), r.where, r.get('_' + q), assume(b[q]), known=KN)
        elif role == 'rays':
            n = None
            gn = r.ev('getN')
            med = pick('medium', given, optic)
            if len(gn) == 1 and len(gn[0].args) == 1:
                e = gn[0]
                recv = assume(e.recv)
                if med is None:
                    i = T.single_atom(recv) if isinstance(recv, R) else None
                    if i is not None and T.ATOMS[i][0] == 'native:CPPConstMedium':
                        judge(s, t + '/medium', e.loc, T.ATOMS[i][1][0], ONE)
                    else:
                        s.bad(t + '/medium', e.loc, 'speed from %s, expected vacuum' % T.show(recv)) if isthing(recv) else s.und(t + '/medium', e.loc, T.show(recv))
                else:
                    i = T.single_atom(recv) if isinstance(recv, R) else None
                    if i is not None and T.ATOMS[i][0] == 'native:CPPConstMedium':
                        s.bad(t + '/medium', e.loc, 'speed from vacuum, expected the medium')
                    else:
                        judge(s, t + '/medium', e.loc, recv, med)
                judge(s, t + '/index wavelength', e.loc, assume(e.args[0]), REAL('wl'))
                n = assume(e.res)
            else:
                s.und(t + '/medium', r.where, '%d index lookups' % len(gn))
            u = unit(DIRCOS)
            if n is not None and isinstance(n, (R, V)):
                for k, q in enumerate(('vx', 'vy', 'vz')):
                    got = filled(r, r.get('_' + q))
                    if got is None:
                        s.und('%s/%s' % (t, q), r.where, T.show(r.get('_' + q)))
                    else:
                        judge(s, '%s/%s' % (t, q), r.where, got, T.vdiv(u[k], n), known=KN)
            for q, want in (('t', ZERO), ('wavelength', REAL('wl')), ('flux', REAL('fl')), ('vignetted', False), ('failed', False)):
                v = r.get('_' + q)
                got = filled(r, v)
                i = T.single_atom(got) if isinstance(got, R) else None
                if got is None:
                    got = same_values(v) if isinstance(same_values(v), R) else None
                if got is None:
                    s.und('%s/%s' % (t, q), r.where, T.show(v))
                    continue
                if want is False and isinstance(got, R) and T.is_const(got):
                    got = T.cval(got) != 0
                judge(s, '%s/%s' % (t, q), r.where, got, want, known=KN)
            # the plane: perpendicular to the rays, at backDist before the origin
            if len(fin) != 1 or len(fin[0].args) != 7:
                s.und(t + '/plane', r.where, '%d native calls' % len(fin))
                continue
            dr, rot, vv = (same_values(assume(x)) for x in fin[0].args[:3])
            bd = pick('backDist', given, optic)
            bd = const(40) if bd is None else bd
            judge(s, t + '/plane origin', fin[0].loc, dr, Arr((3,), {(k,): T.vneg(T.vmul(u[k], bd)) for k in range(3)}), known=KN)
            if isinstance(rot, Arr) and rot.dims == (9,) and isinstance(vv, Arr) and vv.dims == (3,):
                g = lambda i, j: rot.items[(3 * i + j,)]
                for j in range(3):
                    for k in range(j, 3):
                        d = T.vadd(T.vadd(T.vmul(g(0, j), g(0, k)), T.vmul(g(1, j), g(1, k))), T.vmul(g(2, j), g(2, k)))
                        judge(s, '%s/plane axes %d%d' % (t, j, k), fin[0].loc, d, ONE if j == k else ZERO, known=KN)
                for j in range(2):
                    d = T.vadd(T.vadd(T.vmul(g(0, j), u[0]), T.vmul(g(1, j), u[1])), T.vmul(g(2, j), u[2]))
                    judge(s, '%s/plane perpendicular %d' % (t, j), fin[0].loc, d, ZERO, known=KN)
                for j in range(3):
                    a, b = (j + 1) % 3, (j + 2) % 3
                    judge(s, '%s/moves along the rays %d' % (t, j), fin[0].loc, T.vmul(vv.items[(a,)], u[b]), T.vmul(vv.items[(b,)], u[a]), known=KN)
            else:
                s.und(t + '/plane', fin[0].loc, 'rotation or direction not understood')


NAMES = ('asGrid', 'asPolar', 'asSpokes', 'fromStop')


@rule('C21', 'frames', need=30)
def frames(ctx, s):
    """Rays are made on the stop surface in its frame and delivered in the requested frame: given, or the optic's, or the global one."""
    for n in NAMES:
        chain(ctx, s, n, 'frames')


@rule('C21', 'stop-surface', need=30)
def stop(ctx, s):
    """The stop surface is the given one, or the optic's, or a plane; the same pupil points are lifted, transformed, moved and returned."""
    for n in NAMES:
        chain(ctx, s, n, 'stop')


@rule('C21', 'rays', need=60)
def rays(ctx, s):
    """Speed 1/n of the medium along the direction cosines, time 0, the wavelength and flux asked for, starting on the plane perpendicular to the rays at backDist."""
    for n in NAMES:
        chain(ctx, s, n, 'rays')


# ------------------------------------------------------------------ directions
@rule('C21', 'directions', need=12)
def directions(ctx, s):
    """Explicit direction cosines are used as given; otherwise the field angles with the projection asked for."""
    for name in NAMES:
        kw, pos = BASE[name]()
        ang = dict(theta_x=REAL('tx'), theta_y=REAL('ty'))
        for tag, proj in (('default projection', None), ('given projection', Str.of('zemax') if hasattr(Str, 'of') else 'zemax')):
            k = dict(kw, wavelength=REAL('wl'), **ang)
            if proj is not None:
                k['projection'] = proj
            r = Run(ctx, name, k, pos)
            t = '%s %s' % (name, tag)
            if len(r.field) != 1:
                s.und(t, r.where, '%d conversions of the field angle' % len(r.field))
                continue
            b = r.field[0]
            for p, w in (('u', REAL('tx')), ('v', REAL('ty')), ('projection', 'postel' if proj is None else 'zemax')):
                got = b.get(p, MISSING)
                if got is MISSING:
                    s.und('%s/%s' % (t, p), r.where, 'not passed')
                    continue
                judge(s, '%s/%s' % (t, p), r.where, got, w)
            u = unit(FIELD)
            gn = r.ev('getN')
            if len(gn) == 1 and isinstance(gn[0].res, (R, V)):
                for j, q in enumerate(('vx', 'vy', 'vz')):
                    got = filled(r, r.get('_' + q))
                    if got is None:
                        s.und('%s/%s' % (t, q), r.where, '')
                    else:
                        judge(s, '%s/%s' % (t, q), r.where, got, T.vdiv(u[j], assume(gn[0].res)), known=KN)
        # both given: the direction cosines win
        r = Run(ctx, name, dict(kw, wavelength=REAL('wl'), dirCos=Arr(DIRCOS.dims, dict(DIRCOS.items)), **ang), pos)
        got = filled(r, r.get('_vx'))
        if isinstance(got, (R, V)):
            names = {T.ATOMS[d][1][0] for i in T.val_atoms(got) for d in T.deep_atoms(i) if T.ATOMS[d][0] == 'var'}
            s.check(not any(str(x).startswith('fd') for x in names), '%s explicit direction' % name, r.where, 'the field angle overrides the direction cosines given')
        else:
            s.und('%s explicit direction' % name, r.where, '')


# ------------------------------------------------------------------ mandatory
@rule('C21', 'mandatory', need=8)
def mandatory(ctx, s):
    """Missing wavelengths and under- or over-specified grids raise."""
    def must(tag, name, kw, pos=()):
        r = Run(ctx, name, kw, pos)
        if r.res is not None:
            g = [x for x in r.raised]
            s.bad(tag, r.where, 'is accepted') if not g else s.und(tag, r.where, 'raises only conditionally')
        else:
            s.check(any(x[1] == 'ValueError' for x in r.raised), tag, r.where, 'raises %s' % sorted({x[1] for x in r.raised}))
    dc = lambda: Arr(DIRCOS.dims, dict(DIRCOS.items))
    for name in NAMES:
        kw, pos = BASE[name]()
        for o in (True, False):
            must('%s without wavelength%s' % (name, ', with optic' if o else ''), name, dict(kw, dirCos=dc(), **({'optic': OPT} if o else {})), pos)
    must('fromFieldAngles without wavelength', 'fromFieldAngles', dict(theta_x=REAL('tx'), theta_y=REAL('ty')))
    g = {'nx': const(3), 'dx': REAL('dx'), 'lx': REAL('lx')}
    for sub in ((), ('nx',), ('dx',), ('lx',), ('nx', 'dx', 'lx')):
        must('asGrid with %s' % (' and '.join(sub) or 'no grid'), 'asGrid', dict({k: g[k] for k in sub}, wavelength=REAL('wl'), dirCos=dc()))
    must('asGrid with nx, dx and lx and an optic', 'asGrid', dict(g, optic=OPT, wavelength=REAL('wl'), dirCos=dc()))


# ------------------------------------------------------------------ sampling
def vec2(a, b):
    return Arr((2,), {(0,): a, (1,): b})


def steps(n):
    """Denominator and first index of an n-point side: the spacing is length / steps."""
    return n - 2 if n % 2 == 0 else n - 1


def pupil(r):
    sg = r.ev('sag')
    if len(sg) != 1:
        return None
    xy = [assume(a) for a in sg[0].args]
    return xy if all(isinstance(q, Arr) for q in xy) else None


def grid_want(nx, ny, dx, dy):
    """Positions: column index varies fastest, the origin is the sample n//2 of each side."""
    x, y = {}, {}
    for j in range(ny):
        for i in range(nx):
            a, b = const(i - nx // 2), const(j - ny // 2)
            x[(j * nx + i,)] = T.vadd(T.vmul(a, dx[0]), T.vmul(b, dy[0]))
            y[(j * nx + i,)] = T.vadd(T.vmul(a, dx[1]), T.vmul(b, dy[1]))
    return [Arr((nx * ny,), x), Arr((nx * ny,), y)]


def same_grid(s, tag, r, want):
    xy = pupil(r)
    if xy is None:
        if r.res is None and any(assume(x[0]) is True for x in r.raised):
            s.bad(tag, r.where, 'fails: %s' % sorted({'%s %s' % (x[1], x[-1]) for x in r.raised if assume(x[0]) is True}))
        else:
            s.und(tag, r.where, 'pupil points not understood')
        return
    for q, g, w in zip('xy', xy, want):
        if g.dims != w.dims:
            s.bad('%s/%s' % (tag, q), r.where, '%s points, expected %s' % (g.dims, w.dims)) if all(isinstance(d, int) for d in g.dims) else s.und('%s/%s' % (tag, q), r.where, '')
            continue
        judge(s, '%s/%s' % (tag, q), r.where, g, w, known=KN)


@rule('C21', 'grid', need=30)
def grid(ctx, s):
    """asGrid places rays at multiples of its two spacing vectors, whichever two of number, spacing and length are given."""
    Z = ZERO
    L, M, D, E = REAL('lx'), REAL('ly'), REAL('dx'), REAL('dy')
    L2, M2, D2, E2 = (vec2(REAL(q + '0'), REAL(q + '1')) for q in ('lx', 'ly', 'dx', 'dy'))
    co = lambda v: [v.items[(0,)], v.items[(1,)]]
    turn = lambda v: [T.vneg(v[1]), v[0]]
    div = lambda v, n: [T.vdiv(x, const(n)) for x in v]

    def go(tag, kw, nx, ny, dx, dy):
        r = Run(ctx, 'asGrid', dict(kw, wavelength=REAL('wl'), dirCos=Arr(DIRCOS.dims, dict(DIRCOS.items))))
        same_grid(s, tag, r, grid_want(nx, ny, dx, dy))
    for n in (3, 4, 5):
        N = const(n)
        k = steps(n)
        go('nx=%d lx' % n, dict(nx=N, lx=L), n, n, div([L, Z], k), div([Z, L], k))
        go('nx=%d lx vector' % n, dict(nx=N, lx=L2), n, n, div(co(L2), k), div(turn(co(L2)), k))
        go('nx=%d dx' % n, dict(nx=N, dx=D), n, n, [D, Z], [Z, D])
        go('nx=%d dx vector' % n, dict(nx=N, dx=D2), n, n, co(D2), turn(co(D2)))
        go('nx=%d optic' % n, dict(nx=N, optic=OPT), n, n, div([oattr('pupilSize'), Z], k), div([Z, oattr('pupilSize')], k))
        go('nx=%d dx optic' % n, dict(nx=N, dx=D, optic=OPT), n, n, [D, Z], [Z, D])
        go('nx=%d lx optic' % n, dict(nx=N, lx=L, optic=OPT), n, n, div([L, Z], k), div([Z, L], k))
    for n, m in ((3, 4), (4, 3), (5, 1), (1, 3)):
        kx, ky = steps(n) or 1, steps(m) or 1
        go('nx=%d ny=%d lx' % (n, m), dict(nx=const(n), ny=const(m), lx=L), n, m, div([L, Z], kx), div([Z, L], ky))
        go('nx=%d ny=%d lx ly' % (n, m), dict(nx=const(n), ny=const(m), lx=L, ly=M), n, m, div([L, Z], kx), div([Z, M], ky))
        go('nx=%d ny=%d vectors' % (n, m), dict(nx=const(n), ny=const(m), lx=L2, ly=M2), n, m, div(co(L2), kx), div(co(M2), ky))
        if 1 not in (n, m):
            go('nx=%d ny=%d dx dy' % (n, m), dict(nx=const(n), ny=const(m), dx=D, dy=E), n, m, [D, Z], [Z, E])
            go('nx=%d ny=%d dx dy vectors' % (n, m), dict(nx=const(n), ny=const(m), dx=D2, dy=E2), n, m, co(D2), co(E2))
    # spacing and length (numbers): the smallest even number of samples covering the length
    for lx, dx, ly, dy in ((4, 1, None, None), (6, 1, 4, 2), (4, 1, 6, None), (6, 2, None, 1)):
        ly_, dy_ = ly or lx, dy or dx
        n, m = lx // dx // 2 * 2 + 2, ly_ // dy_ // 2 * 2 + 2
        kw = dict(lx=const(lx), dx=const(dx))
        kw.update({q: const(v) for q, v in (('ly', ly), ('dy', dy)) if v})
        go('lx=%s dx=%s ly=%s dy=%s' % (lx, dx, ly, dy), kw, n, m, [const(Fraction(lx, steps(n))), Z], [Z, const(Fraction(ly_, steps(m)))])


@rule('C21', 'polar', need=12)
def polar(ctx, s):
    """asPolar and asSpokes sample between the radii asked for, or the optic's; the numbers of radii and azimuths are passed on."""
    W = dict(wavelength=REAL('wl'))
    dc = lambda: Arr(DIRCOS.dims, dict(DIRCOS.items))
    nr, na, kf = (T.atom('var', (q,), ('int', 'pos')) for q in ('nr', 'na', 'kf'))
    half = T.vdiv(oattr('pupilSize'), const(2))
    for tag, kw, want in (
            ('given', dict(outer=REAL('ro'), inner=REAL('ri'), nrad=nr, naz=na, kfold=kf), dict(outer=REAL('ro'), inner=REAL('ri'), nrad=nr, naz=na, kfold=kf)),
            ('given with optic', dict(outer=REAL('ro'), inner=REAL('ri'), nrad=nr, naz=na, optic=OPT), dict(outer=REAL('ro'), inner=REAL('ri'), nrad=nr, naz=na, kfold=const(6))),
            ('from the optic', dict(nrad=nr, naz=na, optic=OPT), dict(outer=half, inner=T.vmul(half, oattr('pupilObscuration')), nrad=nr, naz=na)),
            ('inner given', dict(inner=REAL('ri'), nrad=nr, naz=na, optic=OPT), dict(outer=half, inner=REAL('ri'))),
            ('outer given', dict(outer=REAL('ro'), nrad=nr, naz=na, optic=OPT), dict(outer=REAL('ro'), inner=T.vmul(half, oattr('pupilObscuration')))),
            ('no optic', dict(outer=REAL('ro'), nrad=nr, naz=na), dict(outer=REAL('ro'), inner=ZERO))):
        r = Run(ctx, 'asPolar', dict(kw, dirCos=dc(), **W))
        t = 'asPolar ' + tag
        if len(r.hexa) != 1:
            s.und(t, r.where, '%d hexapolar grids' % len(r.hexa))
            continue
        b = r.hexa[0]
        for p, w in want.items():
            judge(s, '%s/%s' % (t, p), r.where, assume(b.get(p)), w)
        rth = b.get('rth', False)
        xy = pupil(r)
        if xy is None or rth not in (True, False):
            s.und(t + '/points', r.where, '')
            continue
        a, c = REAL('hex0'), REAL('hex1')
        want2 = (T.vmul(a, T.fn('cos', c)), T.vmul(a, T.fn('sin', c))) if rth else (a, c)
        for q, g, w in zip('xy', xy, want2):
            judge(s, '%s/%s' % (t, q), r.where, g, Arr(('N',), {(): w}))
    # spokes
    def spokes(tag, kw, rings, angs, flux=None):
        r = Run(ctx, 'asSpokes', dict(kw, dirCos=dc(), **W))
        n = len(rings)
        x = {(j * n + i,): T.vmul(rings[i], T.fn('cos', angs[j])) for i in range(n) for j in range(len(angs))}
        y = {(j * n + i,): T.vmul(rings[i], T.fn('sin', angs[j])) for i in range(n) for j in range(len(angs))}
        same_grid(s, 'asSpokes ' + tag, r, [Arr((n * len(angs),), x), Arr((n * len(angs),), y)])
        if flux is not None:
            got = same_values(r.get('_flux'))
            w = Arr((n * len(angs),), {(j * n + i,): flux[i] for i in range(n) for j in range(len(angs))})
            if isinstance(got, Arr) and got.dims == w.dims:
                judge(s, 'asSpokes %s/flux' % tag, r.where, got, w, known=KN)
            else:
                s.und('asSpokes %s/flux' % tag, r.where, T.show(got))
    pi = T.atom('pi', (), ('pos',))
    ro, ri = REAL('ro'), REAL('ri')
    if pi is not None:
        az = lambda n: [T.vmul(const(Fraction(2 * j, n)), pi) for j in range(n)]
        lin = lambda a, b, n: [T.vadd(a, T.vmul(const(Fraction(i, n - 1)), T.vsub(b, a))) for i in range(n)]
        spokes('uniform', dict(outer=ro, inner=ri, rings=const(3), spokes=const(4)), lin(ri, ro, 3), az(4))
        spokes('uniform with optic', dict(outer=ro, inner=ri, rings=const(3), spokes=const(4), optic=OPT), lin(ri, ro, 3), az(4))
        spokes('outer from the optic', dict(inner=ri, rings=const(3), spokes=const(2), optic=OPT), lin(ri, half, 3), az(2))
        spokes('inner default', dict(outer=ro, rings=const(3), spokes=const(2)), lin(ZERO, ro, 3), az(2))
        A = lambda nm, n: Arr((n,), {(i,): REAL('%s.%d' % (nm, i)) for i in range(n)})
        sp, rg = A('sp', 3), A('rg', 2)
        it = lambda v: [v.items[(i,)] for i in range(v.dims[0])]
        spokes('rings and spokes given', dict(rings=rg, spokes=sp, outer=ro), it(rg), it(sp))
        spokes('rings given', dict(rings=rg, spokes=const(3), outer=ro), it(rg), az(3))
        spokes('spokes given', dict(rings=const(2), spokes=sp, outer=ro, inner=ri), lin(ri, ro, 2), it(sp))
        lx = lambda n, i: T.atom('leggauss.x', (const(n), const(i)), ('real',))
        lw = lambda n, i: T.atom('leggauss.w', (const(n), const(i)), ('real',))

        def gq(n, k):
            # Gauss-Legendre in the squared radius: r^2 = ri^2 + (1+x)/2 (ro^2-ri^2), weight w/2 * area / spokes
            eps = T.vdiv(ri, ro)
            f = T.vsub(ONE, T.vmul(eps, eps))
            rr = [T.vmul(ro, T.fn('sqrt', T.vadd(T.vmul(eps, eps), T.vdiv(T.vmul(T.vadd(ONE, lx(n, i)), f), const(2))))) for i in range(n)]
            fl = [T.vdiv(T.vmul(T.vmul(lw(n, i), pi), f), const(2 * k)) for i in range(n)]
            return rr, fl
        for n, k in ((2, None), (3, 4)):
            m = k or 2 * n + 1
            rr, fl = gq(n, m)
            kw = dict(outer=ro, inner=ri, rings=const(n), spacing='GQ')
            if k:
                kw['spokes'] = const(k)
            spokes('GQ %d %s' % (n, k or ''), kw, rr, az(m), fl)
        rr, fl = gq(2, 3)
        spokes('GQ spokes given', dict(outer=ro, inner=ri, rings=const(2), spacing='GQ', spokes=sp), rr, it(sp), fl)


@rule('C21', 'random', need=8)
def random_(ctx, s):
    """Random sampling draws from the generator given (or one made from the seed) over the region asked for."""
    NR = T.atom('var', ('nrandom',), ('int', 'pos'))
    W = dict(wavelength=REAL('wl'), nrandom=NR)
    dc = lambda: Arr(DIRCOS.dims, dict(DIRCOS.items))
    gens = (('generator', thing('rng'), lambda v: T.compare(v, thing('rng')) is None),
            ('seed', const(7), lambda v: isatom(v, 'numpy.random.default_rng') and T.compare(isatom(v, 'numpy.random.default_rng')[0], const(7)) is None),
            ('none', None, lambda v: isatom(v, 'numpy.random.default_rng') is not None and not [x for x in isatom(v, 'numpy.random.default_rng') if x is not None and not isinstance(x, (int, Tup)) and not (isinstance(x, R) and T.is_const(x))]))
    for name, kw in (('asGrid', dict(nx=const(3), lx=vec2(REAL('lx0'), REAL('lx1')), ly=vec2(REAL('ly0'), REAL('ly1')))), ('asPolar', dict(outer=REAL('ro'), inner=REAL('ri')))):
        for tag, rng, ok in gens:
            k = dict(kw, dirCos=dc(), **W)
            if rng is not None:
                k['rng'] = rng
            r = Run(ctx, name, k)
            t = '%s random %s' % (name, tag)
            un = r.ev('uniform')
            if len(un) != 2:
                s.und(t, r.where, '%d draws' % len(un))
                continue
            half = const(Fraction(1, 2))
            want = [(T.vneg(half), half)] * 2 if name == 'asGrid' else [(T.vmul(REAL('ri'), REAL('ri')), T.vmul(REAL('ro'), REAL('ro'))), (ZERO, T.vmul(const(2), T.atom('pi', (), ('pos',))))]
            vals = []
            for i, e in enumerate(un):
                rc = assume(e.recv)
                if tag == 'generator' and not ok(rc):
                    s.bad('%s/rng %d' % (t, i), e.loc, 'draws from %s, not the generator given' % T.show(rc)) if isatom(rc, 'numpy.random.default_rng') is not None else s.und('%s/rng %d' % (t, i), e.loc, T.show(rc))
                elif tag == 'seed' and not ok(rc):
                    a = isatom(rc, 'numpy.random.default_rng')
                    s.bad('%s/rng %d' % (t, i), e.loc, 'draws from %s, not from the seed given' % T.show(rc)) if a is not None else s.und('%s/rng %d' % (t, i), e.loc, T.show(rc))
                else:
                    s.ok('%s/rng %d' % (t, i), e.loc)
                a = dict(zip(('low', 'high', 'size'), e.args))
                a.update(e.kw)
                lo, hi = want[i]
                judge(s, '%s/low %d' % (t, i), e.loc, assume(a.get('low', ZERO)), lo)
                judge(s, '%s/high %d' % (t, i), e.loc, assume(a.get('high', ONE)), hi)
                if 'size' in a:
                    judge(s, '%s/number %d' % (t, i), e.loc, assume(a['size']), NR)
                else:
                    s.und('%s/number %d' % (t, i), e.loc, '')
                vals.append(assume(e.res))
            if all(isinstance(v, R) for v in vals) and len(r.ev('sag')) == 1:
                a, b = vals
                if name == 'asGrid':
                    want = [T.vadd(T.vmul(REAL('lx%d' % j), a), T.vmul(REAL('ly%d' % j), b)) for j in range(2)]
                else:
                    q = T.fn('sqrt', a)
                    want = [T.vmul(q, T.fn('cos', b)), T.vmul(q, T.fn('sin', b))]
                for j, (g, w) in enumerate(zip(r.ev('sag')[0].args, want)):
                    judge(s, '%s/point %s' % (t, 'xy'[j]), r.where, assume(g), w, known=KN)


def isatom(v, n):
    i = T.single_atom(v) if isinstance(v, R) else None
    return T.ATOMS[i][1] if i is not None and T.ATOMS[i][0] == n else None


class FanRun(Run):
    def extra(self, ip):
        self.grids, self.joined = [], []
        ctx = self.ctx

        def grid(ip, a, k):
            node = ctx.py.cls('RayVector').find('asGrid')[1]
            ps = [x.arg for x in node.args.args]
            if not (a and isinstance(a[0], Cls)):
                ps = ps[1:]
            b = dict(zip(ps, a))
            b.pop('cls', None)
            b.update(k)
            self.grids.append(((), b, ip.g))
            return thing('grid%d' % len(self.grids))

        def join(ip, a, k):
            self.joined.append(a[0] if a else k.get('rvs'))
            return thing('joined')
        ip.hooks['RayVector.asGrid'] = grid
        ip.hooks['rayVector.concatenateRayVectors'] = join


@rule('C21', 'fan', need=6)
def fan(ctx, s):
    """asFan makes an nx-by-1 and a 1-by-ny grid with every other argument passed on."""
    extra = {'optic': OPT, 'wavelength': REAL('wl'), 'theta_x': REAL('tx'), 'lx': REAL('lx'), 'flux': REAL('fl'), 'backDist': REAL('bd')}
    for tag, kw, want in (('both', dict(nx=const(5), ny=const(4)), [(5, 1), (1, 4)]),
                          ('x only', dict(nx=const(5)), [(5, 1)]), ('y only', dict(ny=const(4)), [(1, 4)]),
                          ('y of one', dict(nx=const(5), ny=const(1)), [(5, 1)])):
        r = FanRun(ctx, 'asFan', dict(kw, **extra))
        t = 'asFan ' + tag
        if r.res is None and not r.grids or any(assume(x[0]) is True for x in r.raised):
            s.bad(t, r.where, 'fails: %s' % sorted({'%s %s' % (x[1], x[-1]) for x in r.raised}))
            continue
        if not r.grids:
            s.und(t, r.where, 'no grids')
            continue
        got = []
        ok = True
        for a, k, g in r.grids:
            if a or not all(isinstance(k.get(q), R) and T.is_const(k[q]) for q in ('nx', 'ny')):
                ok = False
                continue
            got.append((int(T.cval(k['nx'])), int(T.cval(k['ny']))))
            for q, w in extra.items():
                if q not in k:
                    s.bad('%s/%s' % (t, q), r.where, 'argument not passed to the grid')
                else:
                    judge(s, '%s/%s' % (t, q), r.where, k[q], w)
        if not ok:
            s.und(t + '/sizes', r.where, '')
            continue
        s.check(sorted(got) == sorted(want), t + '/sizes', r.where, 'grids of %s, expected %s' % (got, want))


class FieldRun(Run):
    def extra(self, ip):
        self.made = []
        ctx = self.ctx

        def new(ip, a, k):
            node = ctx.py.cls('RayVector').find('__init__')[1]
            ps = [x.arg for x in node.args.args][1:]
            b = dict(zip(ps, a))
            b.update(k)
            self.made.append(b)
            return ip.instance('RayVector', {}, True, T.atom('var', ('made%d' % len(self.made),), ('obj',)))

        def prop(ip, a, k):
            self.prop.append((a, k))
            return a[0]
        ip.hooks['new:RayVector'] = new
        ip.hooks['RayVector.propagate'] = prop


@rule('C21', 'field-angles', need=20)
def field_angles(ctx, s):
    """fromFieldAngles sends rays through one stop point along every field angle, backed up by backDist."""
    col = lambda n: Arr(('N',), {(): REAL(n)})
    for tag, given, optic in (('all given', {'backDist', 'medium', 'stopSurface'}, True), ('from the optic', set(), True), ('defaults', set(), False),
                              ('only backDist given', {'backDist'}, True), ('only medium given', {'medium'}, True), ('only stopSurface given', {'stopSurface'}, True)):
        kw = dict(theta_x=col('tx'), theta_y=col('ty'), wavelength=REAL('wl'), flux=REAL('fl'), x=REAL('px'), y=REAL('py'), projection='zemax')
        kw.update({p: GIVEN[p] for p in given})
        if optic:
            kw['optic'] = OPT
        r = FieldRun(ctx, 'fromFieldAngles', kw)
        t = 'fromFieldAngles ' + tag
        if len(r.made) != 1 or len(r.prop) != 1 or len(r.field) != 1:
            s.und(t, r.where, '%d bundles, %d propagations' % (len(r.made), len(r.prop)))
            continue
        b = r.field[0]
        for p, w in (('u', col('tx')), ('v', col('ty')), ('projection', 'zemax')):
            judge(s, '%s/%s' % (t, p), r.where, b.get(p), w)
        b = {k: assume(v) if isinstance(v, (R, V, Arr)) else v for k, v in r.made[0].items()}
        gn, sg = r.ev('getN'), r.ev('sag')
        st, med = pick('stopSurface', given, optic), pick('medium', given, optic)
        if len(gn) != 1 or len(sg) != 1:
            s.und(t, r.where, '%d index lookups, %d sag calls' % (len(gn), len(sg)))
            continue
        n, z = assume(gn[0].res), assume(sg[0].res)
        if med is not None:
            judge(s, t + '/medium', gn[0].loc, assume(gn[0].recv), med)
        if st is not None:
            judge(s, t + '/stop', sg[0].loc, assume(sg[0].recv), T.atom('attr', (st, 'surface')))
            same_thing(r, s, t + '/frame', b.get('coordSys'), T.atom('attr', (st, 'coordSys')), 'the frame of the stop surface')
        judge(s, t + '/index wavelength', gn[0].loc, assume(gn[0].args[0]), REAL('wl'))
        for k, (q, w) in enumerate(zip('xy', (REAL('px'), REAL('py')))):
            judge(s, '%s/stop %s' % (t, q), sg[0].loc, assume(sg[0].args[k]), w, known=KN)
        for q, w in (('x', REAL('px')), ('y', REAL('py')), ('z', z), ('t', ZERO), ('wavelength', REAL('wl')), ('flux', REAL('fl'))):
            v = b.get(q)
            got = filled(r, v) if v is not None else None
            if got is None and isinstance(v, R):
                got = v
            if got is None:
                s.und('%s/%s' % (t, q), r.where, T.show(v)) if q in b or q != 'flux' else s.bad(t + '/flux', r.where, 'the flux is not passed on')
            else:
                judge(s, '%s/%s' % (t, q), r.where, got, w, known=KN)
        for k, q in enumerate(('vx', 'vy', 'vz')):
            v = b.get(q)
            judge(s, '%s/%s' % (t, q), r.where, v, T.vdiv(FIELD.items[(k,)], n), known=KN) if isinstance(v, (R, V)) else s.und('%s/%s' % (t, q), r.where, T.show(v))
        a, k = r.prop[0]
        bd = pick('backDist', given, optic)
        bd = const(40) if bd is None else bd
        d = a[1] if len(a) > 1 else k.get('t')
        judge(s, t + '/backed up', r.where, assume(d), T.vneg(T.vmul(bd, n)), known=KN)
        s.check(r.res == a[0], t + '/result', r.where, 'another bundle is returned') if isinstance(r.res, Ref) else s.und(t + '/result', r.where, '')


@rule('C21', 'finite-source', need=4)
def finite(ctx, s):
    """A source at a finite distance gives a ray bundle starting there."""
    for name in NAMES:
        kw, pos = BASE[name]()
        r = Run(ctx, name, dict(kw, wavelength=REAL('wl'), source=Arr((3,), {(i,): REAL('src%d' % i) for i in range(3)})), pos)
        if r.res is None and not r.raised:
            s.bad('%s.source' % name, r.where, 'returns None instead of rays')
        elif r.res is None:
            s.ok('%s.source' % name, r.where)
        else:
            t = '%s.source' % name
            fs = [filled(r, r.get('_' + q)) for q in 'xyz']
            s.und(t, r.where, 'rays from a finite source are not modelled')


@rule('C21', 'back-up-kernel', need=6)
def backup(ctx, s):
    """The native helper moves each point along the given direction onto the plane through dr whose normal is the third axis."""
    from . import rules_kernels as RK
    from .py import cayley
    r = ctx.memo(('run', 'finishParallel'), lambda: RK.Run(ctx, 'finishParallel'))
    k = T.fresh_idx('ray')
    p = [T.atom('load', (('param', f), k)) for f in 'xyz']
    d, v = ([RK.el(q, i) for i in range(3)] for q in ('dr', 'vv'))
    n = [RK.el('drot', 3 * i + 2) for i in range(3)]
    dot = lambda a, b: T.vadd(T.vadd(T.vmul(a[0], b[0]), T.vmul(a[1], b[1])), T.vmul(a[2], b[2]))
    t = T.vdiv(dot([T.vsub(x, y) for x, y in zip(d, p)], n), dot(v, n))
    mats = [T.single_atom(RK.el('drot', i)) for i in range(9)]
    for j, f in enumerate('xyz'):
        got = r.I.mem_get(('param', f), k, 'double', r.st, None)
        want = T.vadd(p[j], T.vmul(t, v[j]))
        if not isinstance(got, (R, V)) or T.has_unknown(got):
            s.und('finishParallel.' + f, r.loc, T.show(got))
            continue
        for q in range(2):
            # the matrix is a rotation: compare on rational rotations
            m = cayley(Fraction(2 + 5 * q, 7), Fraction(-3 + q, 4), Fraction(5 - 2 * q, 6))
            sub = {mats[3 * a + b]: const(m[a][b]) for a in range(3) for b in range(3)}
            s.same('finishParallel.%s %d' % (f, q), r.loc, T.vsubst(got, sub), T.vsubst(want, sub))


@rule('C21', 'hexapolar', need=8)
def hexapolar(ctx, s):
    """Hexapolar grids have rings from the inner to the outer radius, each with a multiple of kfold equally spaced azimuths (one point at radius zero)."""
    from .pyinterp import ival

    def empty(ip, a, k):
        n = ival(a[0]) if a and isinstance(a[0], R) else None
        return NotImplemented if n is None else Arr((n,), {(i,): T.atom('uninit', (const(i),)) for i in range(n)})
    pi = T.atom('pi', (), ('pos',))
    where = loc(ctx, 'hexapolar')
    for outer, inner, nrad, naz, kf in ((2, Fraction(1, 2), 3, 13, 6), (2, 0, 3, 13, 4), (Fraction(5, 2), Fraction(1, 3), 4, 25, 6), (1, 0, 2, 7, 6), (3, 1, 2, 40, 5), (1, Fraction(1, 10), 2, 31, None)):
        kw = dict(outer=const(outer), inner=const(inner), nrad=const(nrad), naz=const(naz))
        if kf:
            kw['kfold'] = const(kf)
        kf_ = kf or 6
        rt = []
        for i in range(nrad):
            rho = Fraction(outer) + Fraction(i, nrad - 1) * (Fraction(inner) - outer)
            n = int((naz * rho / outer) // kf_) * kf_ or kf_
            if rho == 0:
                n = 1
            rt += [(const(rho), T.vmul(const(Fraction(2 * j, n)), pi)) for j in range(n)]
        for rth in (True, False):
            ip = interp(ctx)
            ip.hooks['numpy.empty'] = empty
            got = ip.call_value(ip.function('utils', 'hexapolar'), rth=rth, **kw) if rth else ip.call_value(ip.function('utils', 'hexapolar'), **kw)
            done(ctx, ip)
            t = 'outer %s inner %s nrad %d naz %d kfold %s%s' % (outer, inner, nrad, naz, kf_, ' polar' if rth else '')
            if not isinstance(got, Tup) or len(got.items) != 2 or not all(isinstance(g, Arr) and len(g.dims) == 1 and isinstance(g.dims[0], int) for g in got.items) or T.has_unknown(got):
                s.und(t, where, T.show(got))
                continue
            g = [list(x.items.values()) for x in got.items]
            if len(g[0]) != len(rt) or len(g[1]) != len(rt):
                s.bad(t + ' size', where, '%d points, expected %d' % (len(g[0]), len(rt)))
                continue
            w = rt if rth else [(T.vmul(a, T.fn('cos', b)), T.vmul(a, T.fn('sin', b))) for a, b in rt]
            left = list(w)
            miss = None
            for p in zip(*g):
                k = next((q for q in left if T.compare(p[0], q[0]) is None and T.compare(p[1], q[1]) is None), None)
                if k is None:
                    miss = p
                    break
                left.remove(k)
            if miss is not None and any(T.ATOMS[d][0] not in ('pi', 'sin', 'cos', 'uninit') for v in miss for i in T.val_atoms(v) for d in T.deep_atoms(i)):
                s.und(t, where, T.show(miss[0]))
            else:
                s.check(miss is None, t, where, '' if miss is None else 'the point (%s, %s) is not on the grid' % (T.show(miss[0]), T.show(miss[1])))
