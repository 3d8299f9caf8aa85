"""Field-angle projections and lattices."""
import ast
from fractions import Fraction
from . import terms as T
from .terms import V, R, ZERO, ONE, const, var
from .core import rule
from .pyvals import Arr, Tup, Ref, Str, Sym, mkstr, MISSING, Cls, Fn, Ext
from .pyinterp import vand, vor, vnot, truthv, NoVerdict
from .cfront import AnalysisBroken
from .py import interp, done, loc, judge, same_values, unclear
from .rules_optic import name as symname

PROJECTIONS = ['postel', 'zemax', 'gnomonic', 'stereographic', 'lambert', 'orthographic']
add, sub, mul, div = T.vadd, T.vsub, T.vmul, T.vdiv
two = const(2)


def f(n, *a):
    return T.vfn(n, *a)


def small(n):
    return T.atom('angle#small', (n,))


# projections that reach directions more than a right angle from the axis, with the scale that puts the sample angles there
WIDE = {'postel': Fraction(3, 2), 'stereographic': const(2), 'lambert': ONE}


def wide(p, n):
    q = WIDE[p]
    return mul(q if isinstance(q, R) else const(q), T.atom('angle#wide', (n,)))


def forward(p, u, v):
    """The direction a field angle stands for: azimuth kept, polar angle theta with rho = sqrt(u^2+v^2) by projection."""
    rho = f('sqrt', add(mul(u, u), mul(v, v)))
    if p == 'zemax':
        tu, tv = f('tan', u), f('tan', v)
        n = f('sqrt', add(ONE, add(mul(tu, tu), mul(tv, tv))))
        return div(tu, n), div(tv, n), div(const(-1), n)
    th = {'postel': rho, 'gnomonic': f('arctan', rho), 'stereographic': mul(two, f('arctan', div(rho, two))),
          'lambert': mul(two, f('arcsin', div(rho, two))), 'orthographic': f('arcsin', rho)}[p]
    s = f('sin', th)
    return div(mul(u, s), rho), div(mul(v, s), rho), sub(ZERO, f('cos', th))


def backward(p, a, b, c):
    if p == 'zemax':
        return f('arctan', sub(ZERO, div(a, c))), f('arctan', sub(ZERO, div(b, c)))
    th = f('arccos', sub(ZERO, c))
    rho = {'postel': th, 'gnomonic': f('tan', th), 'stereographic': mul(two, f('tan', div(th, two))), 'lambert': mul(two, f('sin', div(th, two))),
           'orthographic': f('sin', th)}[p]
    s = f('sqrt', add(mul(a, a), mul(b, b)))
    return div(mul(a, rho), s), div(mul(b, rho), s)


def elem(v):
    """The generic element of a scalar or batched result."""
    if isinstance(v, V):
        return T.vmap(elem, v)
    if isinstance(v, Arr):
        return v.items.get((), v)
    return v


def call(ctx, ip, fn, args, **kw):
    return ip.toplevel(lambda: ip.call_value(ip.function('utils', fn), *args, **kw))


KNOWN = ('arctan', 'arccos', 'arcsin', 'numpy.any@others', 'angle#small', 'let', 'ipow')


def triple(s, tag, where, got, want, guard, n):
    if isinstance(got, V):
        parts = [T.vmap(lambda l: l.items[i] if isinstance(l, Tup) and len(l.items) == n else T.unknown('result'), got) for i in range(n)]
    elif isinstance(got, Tup) and len(got.items) == n:
        parts = got.items
    elif isinstance(got, Arr) and got.dims[:1] == (n,):
        parts = [got.items[(i,)] if len(got.dims) == 1 else Arr(got.dims[1:], {k[1:]: v for k, v in got.items.items() if k[0] == i}) for i in range(n)]
    else:
        s.und(tag, where, 'result ' + T.show(got))
        return
    for q, g, w in zip(('x', 'y', 'z'), parts, want):
        judge(s, '%s.%s' % (tag, q), where, elem(g), w, guard=guard, known=KNOWN)


def generic(v):
    """The value away from the exceptional points (equations that do not hold for generic angles)."""
    if isinstance(v, V):
        n, args = T.ATOMS[v.c]
        if n == 'eq0' and isinstance(args[0], R):
            fp, bad = T.rfp(args[0]), T.rbad(args[0])
            ok = [abs(z) for j, z in enumerate(fp) if not (bad >> j) & 1]
            if ok and all(z > 1e-9 for z in ok):
                return generic(v.lo)
        return T.node(v.c, generic(v.hi), generic(v.lo))
    if isinstance(v, Tup):
        return Tup([generic(x) for x in v.items])
    if isinstance(v, Arr):
        return Arr(v.dims, {k: generic(x) for k, x in v.items.items()})
    return v


@rule('C19', 'forward', need=30)
def to_directions(ctx, s):
    """fieldToDirCos gives, for every projection, the unit direction the projection defines."""
    where = loc(ctx, 'fieldToDirCos')
    for p, range_, u, v in [(p, '', small('u'), small('v')) for p in PROJECTIONS] + [(p, ' beyond 90 deg', wide(p, 'u'), wide(p, 'v')) for p in WIDE]:
        for mode in ('scalar', 'array'):
            ip = interp(ctx)
            ip.ambiguous = True
            a = (u, v) if mode == 'scalar' else (Arr(('N',), {(): u}), Arr(('N',), {(): v}))
            for how, r in (('named', call(ctx, ip, 'fieldToDirCos', a, projection=p)),) + ((('direct', call(ctx, ip, p + 'ToDirCos', a)),) if ctx.py.has_func('utils', p + 'ToDirCos') else ()):
                tag = '%s %s %s%s' % (p, mode, how, range_)
                if r is None:
                    s.und(tag, where, 'no value')
                    continue
                triple(s, tag, where, generic(r), forward(p, u, v), True, 3)
                # on axis: the field direction itself
                if not range_ and T.single_atom(u) is not None:
                    z = {T.single_atom(u): ZERO, T.single_atom(v): ZERO}
                    onaxis(s, tag + ' on axis', where, r, z, (ZERO, ZERO, const(-1)))
            done(ctx, ip)


def onaxis(s, tag, where, r, sub_, want):
    n = len(want)
    try:
        x = subst(r, sub_)
    except ZeroDivisionError:
        s.und(tag, where, 'division by zero')
        return
    triple(s, tag, where, x, want, True, n)


def subst(v, sub_):
    """Substitute, dropping the paths the substitution rules out."""
    if isinstance(v, V):
        i = v.c
        n, args = T.ATOMS[i]
        if n in ('eq0', 'gt0') and isinstance(args[0], R):
            try:
                q = T.rsubst(args[0], sub_)
            except ZeroDivisionError:
                q = None
            if q is not None and T.is_const(q):
                t = (T.cval(q) == 0) if n == 'eq0' else T.cval(q) > 0
                return subst(v.hi if t else v.lo, sub_)
        return T.node(i, subst(v.hi, sub_), subst(v.lo, sub_))
    if isinstance(v, Tup):
        return Tup([subst(x, sub_) for x in v.items])
    if isinstance(v, Arr):
        return Arr(v.dims, {k: subst(x, sub_) for k, x in v.items.items()})
    if isinstance(v, R):
        try:
            return T.rsubst(v, sub_)
        except ZeroDivisionError:
            return T.unknown('0/0')
    return v


@rule('C19', 'backward', need=20)
def to_angles(ctx, s):
    """dirCosToField inverts each projection."""
    where = loc(ctx, 'dirCosToField')
    a, b = small('alpha'), small('beta')
    c0 = f('sqrt', sub(ONE, add(mul(a, a), mul(b, b))))
    for p, range_, c in [(p, '', sub(ZERO, c0)) for p in PROJECTIONS] + [(p, ' beyond 90 deg', c0) for p in WIDE]:
        for mode in ('scalar', 'array'):
            ip = interp(ctx)
            ip.ambiguous = True
            x = (a, b, c) if mode == 'scalar' else tuple(Arr(('N',), {(): q}) for q in (a, b, c))
            for how, r in (('named', call(ctx, ip, 'dirCosToField', x, projection=p)),) + ((('direct', call(ctx, ip, 'dirCosTo' + p.capitalize(), x)),) if ctx.py.has_func('utils', 'dirCosTo' + p.capitalize()) else ()):
                tag = '%s %s %s%s' % (p, mode, how, range_)
                if r is None:
                    s.und(tag, where, 'no value')
                    continue
                triple(s, tag, where, generic(r), backward(p, a, b, c), True, 2)
                if range_:
                    continue
                z = {T.single_atom(a): ZERO, T.single_atom(b): ZERO}
                onaxis(s, tag + ' on axis', where, r, z, (ZERO, ZERO))
            done(ctx, ip)


@rule('C19', 'inverse', need=40)
def inverses(ctx, s):
    """Going to directions and back, or to angles and back, is the identity."""
    where = loc(ctx, 'dirCosToField')
    for p in PROJECTIONS:
        ip = interp(ctx)
        ip.ambiguous = True
        for range_, u, v, sgn in (('', small('u'), small('v'), -1),) + (((' beyond 90 deg', wide(p, 'u'), wide(p, 'v'), 1),) if p in WIDE else ()):
            roundtrips(s, ip, ctx, p, where, range_, u, v, sgn)
        done(ctx, ip)


def roundtrips(s, ip, ctx, p, where, range_, u, v, sgn):
    d = generic(call(ctx, ip, 'fieldToDirCos', (u, v), projection=p))
    for path, l in T.leaves(d) if d is not None else ():
        if not isinstance(l, Tup) or len(l.items) != 3:
            s.und(p + range_ + ' angles -> direction', where, 'result ' + T.show(l))
            continue
        r = generic(call(ctx, ip, 'dirCosToField', tuple(l.items), projection=p))
        triple(s, p + range_ + ' angles -> direction -> angles', where, r, (u, v), True, 2)
        n2 = add(add(mul(l.items[0], l.items[0]), mul(l.items[1], l.items[1])), mul(l.items[2], l.items[2]))
        judge(s, p + range_ + ' unit length', where, n2, ONE, known=KNOWN)
        range_ or s.check(sign_neg(l.items[2]), p + ' towards the optic', where, 'the z direction cosine %s is not negative' % T.show(l.items[2]))
    a, b = small('alpha'), small('beta')
    c = mul(const(sgn), f('sqrt', sub(ONE, add(mul(a, a), mul(b, b)))))
    r = generic(call(ctx, ip, 'dirCosToField', (a, b, c), projection=p))
    for path, l in T.leaves(r) if r is not None else ():
        if not isinstance(l, Tup) or len(l.items) != 2:
            s.und(p + range_ + ' direction -> angles', where, 'result ' + T.show(l))
            continue
        d = generic(call(ctx, ip, 'fieldToDirCos', tuple(l.items), projection=p))
        triple(s, p + range_ + ' direction -> angles -> direction', where, d, (a, b, c), True, 3)


def sign_neg(r):
    if not isinstance(r, R):
        return False
    return all(z.real < 0 for j, z in enumerate(T.rfp(r)) if not (T.rbad(r) >> j) & 1)


@rule('C19', 'dispatch', need=6)
def dispatch(ctx, s):
    """Unknown names raise; the default is the documented one."""
    for fn, n in (('fieldToDirCos', 2), ('dirCosToField', 3)):
        where = loc(ctx, fn)
        for tag, nm in (('unknown name', 'nosuchprojection'), ('other case', 'Postel'), ('empty name', '')):
            ip = interp(ctx)
            ip.ambiguous = True
            k = len(ip.raised)
            r = call(ctx, ip, fn, [small('a%d' % i) for i in range(n)], projection=nm)
            s.check(r is None and len(ip.raised) > k, '%s %s' % (fn, tag), where, 'does not raise for the projection %r' % nm)
            if r is None:
                s.check(all(x[1] == 'ValueError' for x in ip.raised[k:]), '%s %s kind' % (fn, tag), where, 'raises %s' % sorted({x[1] for x in ip.raised[k:]}))
            done(ctx, ip)
        ip = interp(ctx)
        ip.ambiguous = True
        x = [small('a%d' % i) for i in range(n)]
        judge(s, fn + ' default', where, call(ctx, ip, fn, x), call(ctx, ip, fn, x, projection='postel'), known=KNOWN)
        done(ctx, ip)


# ------------------------------------------------------------------ lattices
SIZES = [(1,), (2,), (3,), (4,), (7,), (1, 1), (2, 2), (2, 3), (3, 2), (4, 5), (5, 4), (6, 1), (2, 2, 3), (3, 2, 2)]


def primitives(n, nm='P'):
    return Arr((n, n), {(i, j): var('%s%d%d' % (nm, i, j)) for i in range(n) for j in range(n)})


def points(N, P):
    """The coordinate every lattice index stands for."""
    d = len(N)
    out = {}
    for k in T_idx(N):
        for j in range(d):
            q = ZERO
            for i in range(d):
                q = add(q, mul(const(k[i] - N[i] // 2), P.items[(i, j)]))
            out[k + (j,)] = q
    return Arr(tuple(N) + (d,), out)


def T_idx(N):
    out = [()]
    for n in N:
        out = [o + (i,) for o in out for i in range(n)]
    return out


def array_result(s, tag, where, got, want, known=()):
    if not isinstance(got, Arr):
        for p, l in T.leaves(got):
            if isinstance(l, Arr):
                got = l
    if not isinstance(got, Arr):
        s.und(tag, where, 'result ' + T.show(got))
    elif got.dims != want.dims:
        s.bad(tag, where, 'has shape %s, expected %s' % (got.dims, want.dims))
    else:
        judge(s, tag, where, got, want, known=known)


def zeros(N):
    return Arr(tuple(N), {k: ZERO for k in T_idx(N)})


@rule('C28', 'coords', need=28)
def coords(ctx, s):
    """The coordinate at an index is the integer combination of the primitive vectors, centred on index n//2."""
    where = loc(ctx, 'primitiveToLattice') or loc(ctx, 'Lattice', 'coords')
    for N in SIZES:
        P = primitives(len(N))
        want = points(N, P)
        tag = 'x'.join(map(str, N))
        if ctx.py.has_func('lattice', 'primitiveToLattice'):
            ip = interp(ctx)
            r = ip.toplevel(lambda: ip.call_value(ip.function('lattice', 'primitiveToLattice'), P, Tup([const(n) for n in N])))
            array_result(s, 'primitiveToLattice ' + tag, where, r, want)
            done(ctx, ip)
        ip = interp(ctx)
        lat = ip.construct(ctx.py.cls('Lattice'), [zeros(N), P], {})
        if not isinstance(lat, Ref):
            s.und('Lattice ' + tag, where, 'not constructed')
            continue
        r = ip.getattr(lat, 'coords')
        array_result(s, 'Lattice.coords ' + tag, where, r, want)
        r = ip.getattr(lat, 'coords')
        array_result(s, 'Lattice.coords again ' + tag, where, r, want)
        array_result(s, 'Lattice.primitiveVectors ' + tag, where, ip.getattr(lat, 'primitiveVectors'), P)
        done(ctx, ip)


@rule('C28', 'shapes', need=6)
def lattice_shapes(ctx, s):
    """Primitive vectors that do not fit the array are rejected; one vector may be given flat."""
    where = loc(ctx, 'Lattice', '__init__')
    for N, dims in (((3, 3), (1, 2)), ((3, 3), (3, 3)), ((3,), (2, 2)), ((3,), (1, 2)), ((2, 3), (2, 3)), ((2, 2, 2), (2, 2))):
        ip = interp(ctx)
        P = Arr(dims, {k: var('P%d%d' % k) for k in T_idx(dims)})
        k = len(ip.raised)
        r = ip.toplevel(lambda: ip.construct(ctx.py.cls('Lattice'), [zeros(N), P], {}))
        s.check(r is None and len(ip.raised) > k, 'array %s vectors %s' % (N, dims), where, 'is accepted')
        done(ctx, ip)
    ip = interp(ctx)
    lat = ip.construct(ctx.py.cls('Lattice'), [zeros((4,)), Arr((1,), {(0,): var('p')})], {})
    if isinstance(lat, Ref):
        array_result(s, 'flat vector', where, ip.getattr(lat, 'coords'), points((4,), Arr((1, 1), {(0, 0): var('p')})))
    else:
        s.und('flat vector', where, 'not constructed')
    done(ctx, ip)


def rows(v):
    return [[v.items[(i, j)] for j in range(2)] for i in range(2)]


@rule('C28', 'dual', need=30)
def dual(ctx, s):
    """The lattice of a transform: x_i . k_j = 2 pi delta_ij / n with k the pupil lattice carried through dk/du."""
    for fn, cases in (('fftPSF', [(nx, pf) for nx in (4, 5, 6) for pf in (None, 1, 3)]), ('huygensPSF', [(nx, None) for nx in (4, 5, 6, 7)])):
        where = loc(ctx, fn)
        for nx, pf in cases:
            ip = interp(ctx)
            M = primitives(2, 'dkdu')
            ps = var('pupilSize')
            ip.hooks['analysis.dkdu'] = lambda ip_, a, k: M
            ip.hooks['numpy.ndindex'] = lambda ip_, a, k: ip_.newlist([])
            optic = ip.instance('CompoundOptic', {'pupilSize': ps}, True, T.atom('var', ('optic',), ('obj',)))
            ip.hooks['CompoundOptic.trace'] = lambda ip_, a, k: a[1]
            rays = T.atom('var', ('rays',), ('obj',))
            ip.hooks['RayVector.asGrid'] = lambda ip_, a, k: rays
            kw = dict(nx=const(nx))
            if pf is not None:
                kw['pad_factor'] = const(pf)
            r = call2(ip, 'analysis', fn, (optic, var('tx'), var('ty'), var('wl')), kw)
            tag = '%s nx=%d pad_factor=%s' % (fn, nx, pf)
            if not isinstance(r, Ref):
                s.und(tag, where, 'result ' + T.show(r))
                continue
            X = ip.getattr(r, 'primitiveVectors')
            if not isinstance(X, Arr) or X.dims != (2, 2):
                s.und(tag, where, 'primitive vectors ' + T.show(X))
                continue
            d = div(ps, const(nx - 2 if nx % 2 == 0 else nx - 1))
            n = nx * (pf or 2)
            twopi = mul(two, T.atom('pi', ()))
            for i in range(2):
                for j in range(2):
                    g = ZERO
                    for k in range(2):
                        g = add(g, mul(X.items[(i, k)], mul(d, M.items[(j, k)])))
                    judge(s, '%s x%d.k%d' % (tag, i, j), where, g, div(twopi, const(n)) if i == j else ZERO)
            A = ip.getattr(r, 'array')
            if isinstance(A, Arr):
                s.check(A.dims == (n, n), tag + ' size', where, 'array has shape %s, expected %d x %d' % (A.dims, n, n))
            done(ctx, ip)


def call2(ip, mod, fn, args, kw):
    return ip.toplevel(lambda: ip.call_value(ip.function(mod, fn), *args, **kw))
