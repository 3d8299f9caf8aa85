"""Surfaces: heights, normals, gradients, intersections, bicubic tables."""
from . import terms as T
from .terms import V, R, ZERO, ONE
from .core import rule
from .cpp import surface, Run, kernel
from .cfront import AnalysisBroken, line_of, params_of

add, sub, mul, div, neg = T.vadd, T.vsub, T.vmul, T.vdiv, T.vneg
c = T.const
var = T.var


def summ(ctx, cls, meth, opaque=()):
    """Summary of the implementation class `cls` uses for `meth` (its own or the inherited one)."""
    P = ctx.src
    fn = P.method(cls, meth)
    if fn is None:
        raise AnalysisBroken('no %s::%s' % (cls, meth))
    return ctx.memo(('surf', cls, meth, opaque), lambda: Run(ctx, fn['_clsname'] + '::' + meth, ctor=cls, fn=fn, opaque=opaque))


def vpow(a, n):
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def load(base, i):
    return T.atom('load', (base, i))


def P(name):
    return ('param', name)


def xy(S):
    return [S.param(n) if False else var(n) for n in ('x', 'y')]


def params(S, *pos):
    """The scalar inputs of the summarised method by position."""
    ps = [p.get('name') for p in params_of(S.fn)]
    return [var(ps[i]) for i in pos]


def cpar(ctx, cls, i):
    """name of the i-th constructor parameter"""
    cs = [k for k in ctx.src.ctor(cls) if params_of(k)]
    if not cs:
        raise AnalysisBroken('no constructor of ' + cls)
    return params_of(cs[0])[i].get('name')


def conic_sag(x, y, Rr, cp1):
    r2 = add(mul(x, x), mul(y, y))
    return div(r2, mul(Rr, add(ONE, T.vfn('sqrt', sub(ONE, div(mul(cp1, r2), mul(Rr, Rr)))))))


def sqrtv(v):
    return T.vmap(T.sqrt, v)


def spec_sag(ctx, cls, x, y):
    r2 = add(mul(x, x), mul(y, y))
    v = lambda i: var(cpar(ctx, cls, i))
    if cls == 'Plane':
        return ZERO, None
    if cls == 'Tilted':
        return add(mul(x, v(0)), mul(y, v(1))), None
    nz = lambda Rr: T.vnot(T.eq0(Rr))
    if cls == 'Paraboloid':
        return div(r2, mul(c(2), v(0))), nz(v(0))
    if cls == 'Sphere':
        return mul(v(0), sub(ONE, sqrtv(sub(ONE, div(r2, mul(v(0), v(0))))))), nz(v(0))
    if cls in ('Quadric', 'Asphere'):
        Rr, K = v(0), v(1)
        q = div(r2, mul(Rr, add(ONE, sqrtv(sub(ONE, div(mul(add(ONE, K), r2), mul(Rr, Rr)))))))
        if cls == 'Asphere':
            k = T.fresh_idx()
            a = load(P(cpar(ctx, cls, 2)), k)
            q = add(q, T.mksum(k, v(3), mul(mul(a, r2), T.ipow(r2, k))))
        return q, nz(Rr)
    raise KeyError(cls)


ANALYTIC = ['Plane', 'Tilted', 'Paraboloid', 'Sphere', 'Quadric']


@rule('C07', 'sag-formula', need=6)
def sag_formula(ctx, s):
    """The height equals the documented formula of the class at every point."""
    for cls in ANALYTIC + ['Asphere']:
        S = summ(ctx, cls, 'sag')
        x, y = params(S, 0, 1)
        want, assume = spec_sag(ctx, cls, x, y)
        s.same(cls, S.loc, S.ret, want, assume)


@rule('C07', 'sag-polynomial', need=1)
def sag_poly(ctx, s):
    """sum_ij coefs[i*xsize+j] (x-x0)^i (y-y0)^j"""
    cls = 'PolynomialSurface'
    S = summ(ctx, cls, 'sag')
    x, y = params(S, 0, 1)
    n = [cpar(ctx, cls, i) for i in range(7)]
    want = poly2d(sub(x, var(n[3])), sub(y, var(n[4])), P(n[0]), var(n[5]), var(n[6]))
    s.same(cls, S.loc, S.ret, want)


def poly2d(x, y, base, nx, ny):
    i, j = T.fresh_idx(), T.fresh_idx()
    inner = T.mksum(j, nx, mul(load(base, add(mul(i, nx), j)), T.ipow(y, j)))
    return T.mksum(i, ny, mul(inner, T.ipow(x, i)))


@rule('C07', 'sag-sum', need=1)
def sag_sum(ctx, s):
    S = summ(ctx, 'Sum', 'sag')
    x, y = params(S, 0, 1)
    n = [cpar(ctx, 'Sum', i) for i in range(2)]
    k = T.fresh_idx()
    o = ('obj', ('elem', P(n[0]), k))
    want = T.mksum(k, var(n[1]), T.atom('Surface::sag', (o, x, y)))
    s.same('Sum', S.loc, S.ret, want)


def spec_grad(ctx, cls, x, y):
    """The derivative of spec_sag."""
    v = lambda i: var(cpar(ctx, cls, i))
    if cls == 'Plane':
        return ZERO, ZERO
    if cls == 'Tilted':
        return v(0), v(1)
    if cls == 'Paraboloid':
        return div(x, v(0)), div(y, v(0))
    r2 = add(mul(x, x), mul(y, y))
    cp1 = ONE if cls == 'Sphere' else add(ONE, v(1))
    g = div(ONE, mul(v(0), sqrtv(sub(ONE, div(mul(cp1, r2), mul(v(0), v(0)))))))
    if cls == 'Asphere':
        k = T.fresh_idx()
        a = load(P(cpar(ctx, cls, 2)), k)
        g = add(g, T.mksum(k, v(3), mul(mul(mul(c(2), add(k, ONE)), a), T.ipow(r2, k))))
    return mul(g, x), mul(g, y)


def tilted_normal(s, S, gx, gy):
    n = [S.out(o) for o in out_names(S)]
    s.same('Tilted.unit', S.loc, add(add(mul(n[0], n[0]), mul(n[1], n[1])), mul(n[2], n[2])), ONE)
    s.same('Tilted.azimuth', S.loc, mul(n[0], gy), mul(n[1], gx))
    s.same('Tilted.flat-is-up', S.loc, T.vsubst(n[2], {T.single_atom(gx): ZERO, T.single_atom(gy): ZERO}), ONE)
    s.holds('Tilted.downhill', S.loc, T.vnot(T.gt0(mul(n[0], gx))), 'the normal leans uphill')
    s.same('Tilted.perpendicular', S.loc, n[0], neg(mul(gx, n[2])))


def grad_of(v, x, y):
    """Exact derivative of a gated height with respect to x and y."""
    out = []
    for w in (x, y):
        wi = T.single_atom(w)
        out.append(T.vmap(lambda r: T.rdiff(r, wi, None), v))
    return out


def unit_normal(gx, gy):
    n = sqrtv(add(add(mul(gx, gx), mul(gy, gy)), ONE))
    return neg(div(gx, n)), neg(div(gy, n)), div(ONE, n)


def grads_to_normals(v):
    """Express queried Surface::grad values by the (unit, upward) normal."""
    def sub_map(vals):
        m = {}
        for v in vals:
            for a in T.all_atoms(v):
                n, ar = T.ATOMS[a]
                if n in ('Surface::grad#2', 'Surface::grad#3'):
                    pass
        return m
    return v


def out_names(S):
    ps = [p.get('name') for p in params_of(S.fn)]
    return ps[2:]


def same_normal(ctx, s, cls, S, want, assume=None):
    for o, w, lab in zip(out_names(S), want, ('nx', 'ny', 'nz')):
        s.same('%s.%s' % (cls, lab), S.loc, S.out(o), w, assume)


@rule('C07', 'normal-is-gradient', need=18)
def normal_rule(ctx, s):
    """normal(x, y) == (-dz/dx, -dz/dy, 1)/|.| with dz the derivative of sag(x, y) as implemented."""
    for cls in ANALYTIC + ['Asphere']:
        S = summ(ctx, cls, 'normal')
        x, y = params(S, 0, 1)
        assume = spec_sag(ctx, cls, x, y)[1]
        gx, gy = spec_grad(ctx, cls, x, y)
        if cls == 'Tilted':
            tilted_normal(s, S, gx, gy)
            continue
        same_normal(ctx, s, cls, S, unit_normal(gx, gy), assume)


@rule('C07', 'polynomial-gradient', need=3)
def poly_normal(ctx, s):
    """The polynomial's normal uses the gradient coefficient arrays as 2-D polynomials one smaller in each size."""
    cls = 'PolynomialSurface'
    S = summ(ctx, cls, 'normal')
    x, y = params(S, 0, 1)
    n = [cpar(ctx, cls, i) for i in range(7)]
    X, Y = sub(x, var(n[3])), sub(y, var(n[4]))
    g = [poly2d(X, Y, P(n[i]), sub(var(n[5]), ONE), sub(var(n[6]), ONE)) for i in (1, 2)]
    same_normal(ctx, s, cls, S, unit_normal(*g))


def sub_normal(o, x, y):
    u = ('undef',)
    return [T.atom('Surface::normal#%d' % i, (o, x, y, u, u, u)) for i in (2, 3, 4)]


@rule('C07', 'sum-gradient', need=3)
def sum_normal(ctx, s):
    """A sum's gradient is the sum of its parts' gradients."""
    S = summ(ctx, 'Sum', 'normal')
    x, y = params(S, 0, 1)
    n = [cpar(ctx, 'Sum', i) for i in range(2)]
    k = T.fresh_idx()
    o = ('obj', ('elem', P(n[0]), k))
    nx, ny, nz = sub_normal(o, x, y)
    u = ('undef',)
    alts = [[neg(div(nx, nz)), neg(div(ny, nz))],
            [T.atom('Surface::grad#%d' % i, (o, x, y, u, u)) for i in (2, 3)]]
    best = None
    for g in alts:
        from .core import Sink
        t = Sink(s.rid)
        same_normal(ctx, t, 'Sum', S, unit_normal(*[T.mksum(k, var(n[1]), gi) for gi in g]))
        if best is None or sum(o.status == 'ok' for o in t.obs) > sum(o.status == 'ok' for o in best.obs):
            best = t
    s.obs += best.obs


@rule('C07', 'grad-from-normal', need=2)
def grad_rule(ctx, s):
    """Surface::grad returns -n_xy/n_z of the surface's own normal."""
    S = Run(ctx, 'Surface::grad', this=('obj', 'this'))
    x, y = params(S, 0, 1)
    nx, ny, nz = sub_normal(('obj', 'this'), x, y)
    nan = [T.bool_atom('isnan', q) for q in (nx, ny, nz)]
    assume = True
    for b in nan:
        assume = T.vand(assume, T.vnot(b))
    o = out_names(S)
    s.same('dzdx', S.loc, S.out(o[0]), neg(div(nx, nz)), assume)
    s.same('dzdy', S.loc, S.out(o[1]), neg(div(ny, nz)), assume)


@rule('C07', 'bicubic-normal', need=4)
def bicubic_normal(ctx, s):
    """A bicubic surface's height and gradient are its table's."""
    op = ('Table::eval', 'Table::grad')
    Z = summ(ctx, 'Bicubic', 'sag', op)
    x, y = params(Z, 0, 1)
    tab = [a for a in T.all_atoms(Z.ret) if T.ATOMS[a][0].startswith('Table::eval')]
    S = summ(ctx, 'Bicubic', 'normal', op)
    loads = {}
    for o in out_names(S):
        v = S.out(o)
        if v is not None:
            for a in T.all_atoms(v):
                if T.ATOMS[a][0].startswith('Table::grad'):
                    loads[T.ATOMS[a][0]] = a
    if not tab:
        s.und('Bicubic.sag', Z.loc, 'height is not expressed by Table::eval')
    else:
        s.same('Bicubic.sag', Z.loc, Z.ret, T.R({((tab[0], 1),): 1}, T.P1))
        ar = T.ATOMS[tab[0]][1]
        s.check(len(ar) >= 3 and T.leaf_eq(ar[1], x) and T.leaf_eq(ar[2], y), 'Bicubic.sag-args', Z.loc,
                'the table is not evaluated at (x, y)')
    g = [loads.get('Table::grad#2'), loads.get('Table::grad#3')]
    if None in g:
        s.und('Bicubic.normal', S.loc, 'normal is not expressed by Table::grad')
        return
    gx, gy = [T.R({((i, 1),): 1}, T.P1) for i in g]
    ar = T.ATOMS[g[0]][1]
    X, Y = params(S, 0, 1)
    s.check(T.leaf_eq(ar[1], X) and T.leaf_eq(ar[2], Y), 'Bicubic.normal-args', S.loc, 'the table gradient is not taken at (x, y)')
    assume = T.vand(T.vnot(T.bool_atom('isnan', gx)), T.vnot(T.bool_atom('isnan', gy)))
    same_normal(ctx, s, 'Bicubic', S, unit_normal(gx, gy), assume)


# --------------------------------------------------------------------- C08
def implicit(ctx, cls, p):
    """F(p) with F = 0 the (algebraic closure of the) surface."""
    x, y, z = p
    v = lambda i: var(cpar(ctx, cls, i))
    r2 = add(mul(x, x), mul(y, y))
    if cls == 'Plane':
        return z
    if cls == 'Tilted':
        return sub(z, add(mul(x, v(0)), mul(y, v(1))))
    if cls == 'Paraboloid':
        return sub(r2, mul(mul(c(2), v(0)), z))
    if cls == 'Sphere':
        return add(sub(r2, mul(mul(c(2), v(0)), z)), mul(z, z))
    return add(sub(r2, mul(mul(c(2), v(0)), z)), mul(add(ONE, v(1)), mul(z, z)))


def ray(S):
    a = params(S, 0, 1, 2, 3, 4, 5)
    return a[:3], a[3:]


def quadratic(ctx, cls, p, v):
    """a, b, c of F(p + v t) = a t^2 + b t + c"""
    t = var('t!')
    ti = T.single_atom(t)
    F = implicit(ctx, cls, [add(p[i], mul(v[i], t)) for i in range(3)])
    d1 = T.rdiff(F, ti, None)
    d2 = T.rdiff(d1, ti, None)
    z = {ti: ZERO}
    return T.rdiv(d2, c(2)), T.vsubst(d1, z), T.vsubst(F, z)


@rule('C08', 'analytic-on-surface', need=5)
def on_surface(ctx, s):
    """Where an analytic surface reports a hit at dt, the implicit equation of the surface vanishes at the ray's point."""
    for cls in ANALYTIC:
        S = summ(ctx, cls, 'timeToIntersect')
        p, v = ray(S)
        dt = S.out([q.get('name') for q in params_of(S.fn)][6])
        if dt is None or S.ret is None:
            s.und(cls, S.loc, 'no hit time computed')
            continue
        hit = T.truthv(S.ret)
        res = None
        n = 0
        nz = T.vnot(T.eq0(var(cpar(ctx, cls, 0)))) if cls in ('Paraboloid', 'Sphere', 'Quadric') else True
        G = T.ite(T.vand(hit, nz), dt, False)
        for path, l in T.leaves(G):
            if l is False:
                continue
            n += 1
            F = implicit(ctx, cls, [add(p[i], mul(v[i], l)) for i in range(3)])
            m = T.compare(F, ZERO, path)
            if m is not None and (res is None or not m.undecided):
                res = m
        if res is None:
            s.check(n > 0, cls, S.loc, 'never reports a hit')
        elif res.undecided:
            s.und(cls, S.loc, res.text())
        else:
            s.bad(cls, S.loc, 'the reported point is not on the surface: ' + res.text())


@rule('C08', 'analytic-hit-condition', need=5)
def hit_condition(ctx, s):
    """An analytic surface reports a hit exactly when the ray's line meets it."""
    for cls in ANALYTIC:
        S = summ(ctx, cls, 'timeToIntersect')
        p, v = ray(S)
        assume = True
        if cls == 'Plane':
            want = T.vnot(T.eq0(v[2]))
        elif cls == 'Tilted':
            a = [var(cpar(ctx, cls, i)) for i in (0, 1)]
            want = T.vnot(T.eq0(sub(add(mul(v[0], a[0]), mul(v[1], a[1])), v[2])))
        else:
            A, B, C = quadratic(ctx, cls, p, v)
            want = T.vnot(T.gt0(neg(sub(mul(B, B), mul(c(4), mul(A, C))))))
            assume = T.vand(T.vnot(T.eq0(A)), T.vnot(T.eq0(var(cpar(ctx, cls, 0)))))
            if cls != 'Quadric':
                assume = T.vand(assume, T.gt0(A)) if not isinstance(T.gt0(A), bool) else assume
            if cls == 'Paraboloid':
                # negative scaling by 1/R^2 is positive
                pass
        s.same(cls, S.loc, T.truthv(S.ret), want, assume)


def point_value(v, j):
    """Value of a gated number at identity-testing sample j; None if a gate is not numeric."""
    while isinstance(v, V):
        n, a = T.ATOMS[v.c]
        if n not in ('gt0', 'eq0') or not isinstance(a[0], R):
            return None
        if (T.rbad(a[0]) >> j) & 1:
            return None
        (nn, sn), (dd, sd) = T.rfp2(a[0])
        z = T.rfp(a[0])[j]
        if abs(nn[j]) <= 1e-9 * sn[j]:
            return None
        b = z.real > 0 if n == 'gt0' else False
        v = v.hi if b else v.lo
    return v


@rule('C08', 'nearest-sheet', need=3)
def root_choice(ctx, s):
    """Of the two roots, the one on the sheet through the vertex is chosen (smaller |z|), by identity testing of the gated formula."""
    for cls in ('Paraboloid', 'Sphere', 'Quadric'):
        S = summ(ctx, cls, 'timeToIntersect')
        p, v = ray(S)
        dt = S.out([q.get('name') for q in params_of(S.fn)][6])
        # sample rays that meet the surface: lateral components small against the radius
        small = {T.single_atom(q): var('lateral%d#small' % i) for i, q in enumerate([p[0], p[1], p[2], v[0], v[1]])}
        if cls == 'Sphere':
            R0 = var(cpar(ctx, cls, 0))
            small[T.single_atom(R0)] = mul(c(3), R0)
        dt = T.vsubst(dt, small) if dt is not None else None
        p, v = [[T.vsubst(q, small) for q in w] for w in (p, v)]
        A, B, C = [T.vsubst(q, small) for q in quadratic(ctx, cls, p, v)]
        D = T.rsub(T.rmul(B, B), T.rmul(c(4), T.rmul(A, C)))
        sq = T.sqrt(D)
        r1 = T.rdiv(T.radd(T.rneg(B), sq), T.rmul(c(2), A))
        r2 = T.rdiv(T.rsub(T.rneg(B), sq), T.rmul(c(2), A))
        Rf = T.rfp(var(cpar(ctx, cls, 0)))        # sign only
        z, vz = T.rfp(p[2]), T.rfp(v[2])
        f1, f2, fA = T.rfp(r1), T.rfp(r2), T.rfp(A)
        Df = T.rfp(D)
        good = bad = 0
        msg = ''
        for j in range(T.NPT):
            if Df[j].real <= 0 or abs(fA[j]) < 1e-9:
                continue
            z1, z2 = (z[j] + vz[j] * f1[j]).real, (z[j] + vz[j] * f2[j]).real
            if abs(abs(z1) - abs(z2)) < 1e-6 * (abs(z1) + abs(z2)):
                continue
            l = point_value(dt, j) if dt is not None else None
            if l is None or not isinstance(l, R) or T.has_unknown(l):
                continue
            got = T.rfp(l)[j].real
            want = (f1[j] if abs(z1) < abs(z2) else f2[j]).real
            if abs(got - want) <= 1e-7 * (abs(want) + abs(got)):
                good += 1
            else:
                bad += 1
                msg = 'the reported root is the one farther from the vertex (or none) for vz*R %s 0' % (
                    '<' if (vz[j] * Rf[j]).real < 0 else '>')
        if bad:
            s.bad(cls, S.loc, msg)
        elif good >= 3:
            s.ok(cls, S.loc)
        else:
            s.und(cls, S.loc, 'gates of the root choice are not tracked (%d samples decided)' % good)


NEWTON = ['Surface', 'Asphere', 'Sum', 'PolynomialSurface', 'Bicubic']


@rule('C08', 'newton-residual', need=5)
def newton(ctx, s):
    """An iteratively intersected surface reports a hit only if the advanced ray is within 1e-12 of the surface's height there."""
    P_ = ctx.src
    for cls in NEWTON:
        if cls == 'Surface':
            S = Run(ctx, 'Surface::timeToIntersect', this=('obj', 'this'))
        elif P_.method(cls, 'timeToIntersect') is P_.method('Surface', 'timeToIntersect'):
            s.ok(cls, line_of(P_.method(cls, 'timeToIntersect')), 'inherits the generic iteration')
            continue
        else:
            op = 'Surface::timeToIntersect'
            S = summ(ctx, cls, 'timeToIntersect', (op,))
            r = delegates(S, op)
            if r is not None:
                s.check(r is True, cls, S.loc, 'may report a hit that the generic iteration did not confirm (or at another time)')
                continue
            S = summ(ctx, cls, 'timeToIntersect')
        p, v = ray(S)
        dt = S.out([q.get('name') for q in params_of(S.fn)][6])
        ret = T.truthv(S.ret)
        # the iterates themselves are arbitrary values: name them
        named = {}
        for w in (dt, ret):
            for a in T.all_atoms(w):
                if T.ATOMS[a][0].startswith('unk') or 'unk' in T._FLAGS[a]:
                    if T.ATOMS[a][0] in ('unknown', 'unk'):
                        named.setdefault(a, var('iterate%d' % len(named)))
        if len(named) > 1:
            s.und(cls, S.loc, 'the iterates are not related by the loop summary')
            continue
        if named and all(isinstance(b, R) for b in named.values()):
            dt, ret = T.vsubst(dt, named), T.vsubst(ret, named)
        X, Y, Z = [add(p[i], mul(v[i], dt)) for i in range(3)]
        h = height(ctx, cls, X, Y)
        tol = T.vlt(T.vmap(T.rabs, sub(Z, h)), c(T.Fraction(1, 10 ** 12)))
        s.holds(cls, S.loc, T.vor(T.vnot(ret), tol), 'reports a hit although the height residual may exceed 1e-12')
        if cls == 'Surface':
            s.same(cls + '.complete', S.loc, ret, tol)


def delegates(S, op):
    """True: every reported hit is one confirmed by `op` on this surface, at its time.  None: `op` is not used."""
    dt = S.out([q.get('name') for q in params_of(S.fn)][6])
    ret = T.truthv(S.ret)
    oks = [a for a in T.all_atoms(ret) if T.ATOMS[a][0] == op and T.ATOMS[a][1][0] == ('obj', 'this')]
    if not oks:
        return None
    for path, l in T.leaves(T.ite(ret, dt, False)):
        if l is False:
            continue
        conf = [c_ for c_, b in path if b and c_ in oks]
        if not conf:
            return False
        if not any(T.leaf_eq(l, T.atom(op + '#6', T.ATOMS[c_][1])) for c_ in conf):
            return False
    return True


def height(ctx, cls, X, Y):
    if cls == 'Surface':
        return T.vmap(lambda a, b: T.atom('Surface::sag', (('obj', 'this'), a, b)), X, Y)
    Z = summ(ctx, cls, 'sag')
    x, y = params(Z, 0, 1)
    xi, yi = T.single_atom(x), T.single_atom(y)
    return T.vmap(lambda a, b: T.vsubst(Z.ret, {xi: a, yi: b}), X, Y)


# --------------------------------------------------------------------- C27
def table(ctx, meth):
    return ctx.memo(('table', meth), lambda: Run(ctx, 'Table::' + meth, ctor='Table'))


def table_spec(ctx, x, y):
    n = [cpar(ctx, 'Table', i) for i in range(11)]
    x0, y0, dx, dy = [var(q) for q in n[:4]]
    zz, zx, zy, zxy = [P(q) for q in n[4:8]]
    nx, ny = var(n[8]), var(n[9])
    nan = T.bool_atom('param', n[10])
    fx, fy = div(sub(x, x0), dx), div(sub(y, y0), dy)
    return (x0, y0, dx, dy), (zz, zx, zy, zxy), nx, ny, fx, fy


def hermite(t, order=0):
    """(value at 0, value at 1, slope at 0, slope at 1) weights and their derivatives in t"""
    t2, t3 = mul(t, t), mul(t, mul(t, t))
    k = lambda q: c(q)
    if order == 0:
        return ([add(sub(mul(k(2), t3), mul(k(3), t2)), ONE), sub(mul(k(3), t2), mul(k(2), t3))],
                [add(sub(t3, mul(k(2), t2)), t), sub(t3, t2)])
    return ([sub(mul(k(6), t2), mul(k(6), t)), sub(mul(k(6), t), mul(k(6), t2))],
            [add(sub(mul(k(3), t2), mul(k(4), t)), ONE), sub(mul(k(3), t2), mul(k(2), t))])


def bicubic(ctx, x, y, ix, iy, ox=0, oy=0):
    (x0, y0, dx, dy), (zz, zx, zy, zxy), nx, ny, fx, fy = table_spec(ctx, x, y)
    u, v = sub(fx, ix), sub(fy, iy)
    hu, gu = hermite(u, ox)
    hv, gv = hermite(v, oy)
    acc = ZERO
    for a in (0, 1):
        for b in (0, 1):
            i = add(add(mul(nx, add(iy, c(b))), ix), c(a))
            acc = add(acc, mul(mul(hu[a], hv[b]), load(zz, i)))
            acc = add(acc, mul(mul(dx, mul(gu[a], hv[b])), load(zx, i)))
            acc = add(acc, mul(mul(dy, mul(hu[a], gv[b])), load(zy, i)))
            acc = add(acc, mul(mul(mul(dx, dy), mul(gu[a], gv[b])), load(zxy, i)))
    if ox:
        acc = div(acc, dx)
    if oy:
        acc = div(acc, dy)
    return acc


def fl(r):
    return T.fn('floor', r)


def inside(ix, iy, nx, ny):
    lo = lambda i: T.vnot(T.gt0(neg(i)))
    hi = lambda i, n: T.gt0(sub(sub(n, ONE), i))
    return T.vand(T.vand(lo(ix), hi(ix, nx)), T.vand(lo(iy), hi(iy, ny)))


@rule('C27', 'value', need=2)
def table_value(ctx, s):
    """Inside the grid the height is the bicubic Hermite interpolant of the cell that contains the point."""
    S = table(ctx, 'eval')
    x, y = params(S, 0, 1)
    _, _, nx, ny, fx, fy = table_spec(ctx, x, y)
    ix, iy = fl(fx), fl(fy)
    ins = inside(ix, iy, nx, ny)
    s.same('inside', S.loc, S.ret, bicubic(ctx, x, y, ix, iy), ins)
    outside(ctx, s, 'outside', S, S.ret, ins)


def outside(ctx, s, name, S, got, ins):
    flag = T.bool_atom_of_param(cpar(ctx, 'Table', 10)) if hasattr(T, 'bool_atom_of_param') else None
    out = T.vnot(ins)
    gates = [a for a in T.all_atoms(got)]
    nanf = [a for a in gates if cpar(ctx, 'Table', 10) in repr(T.ATOMS[a])]
    want_nan = T.vfn('nan') if False else None
    bad = None
    for path, l in T.leaves(T.ite(out, got, False)):
        if l is False:
            continue
        f = [b for c_, b in path if c_ in nanf]
        isnan = isinstance(l, R) and any(T.ATOMS[a][0] == 'nan' for a in T.all_atoms(l))
        iszero = isinstance(l, R) and not l.num
        if not f:
            bad = bad or ('und' if T.has_unknown(l) else 'the value outside the grid does not depend on the policy')
        elif f[0] != isnan or (not f[0]) != iszero:
            bad = 'outside the grid the value is %s when use_nan is %s' % (T.clip(T.show(l), 80), f[0])
    if bad is None:
        s.ok(name, S.loc)
    elif bad == 'und':
        s.und(name, S.loc)
    else:
        s.bad(name, S.loc, bad)


@rule('C27', 'gradient', need=4)
def table_grad(ctx, s):
    """The gradient is the exact derivative of the interpolant of the same cell."""
    S = table(ctx, 'grad')
    x, y = params(S, 0, 1)
    _, _, nx, ny, fx, fy = table_spec(ctx, x, y)
    ix, iy = fl(fx), fl(fy)
    ins = inside(ix, iy, nx, ny)
    for o, (ox, oy) in zip(out_names(S), ((1, 0), (0, 1))):
        s.same(o, S.loc, S.out(o), bicubic(ctx, x, y, ix, iy, ox, oy), ins)
        outside(ctx, s, o + '.outside', S, S.out(o), ins)


@rule('C27', 'nodes', need=1)
def table_nodes(ctx, s):
    """At a node of the half-open grid the interpolant is the supplied value."""
    S = table(ctx, 'eval')
    x, y = params(S, 0, 1)
    (x0, y0, dx, dy), (zz, _, _, _), nx, ny, fx, fy = table_spec(ctx, x, y)
    i, j = T.fresh_idx(), T.fresh_idx()
    m = {T.single_atom(x): add(x0, mul(i, dx)), T.single_atom(y): add(y0, mul(j, dy))}
    got = T.vsubst(S.ret, m)
    s.same('value-at-node', S.loc, got, load(zz, add(mul(nx, j), i)), inside(i, j, nx, ny))
