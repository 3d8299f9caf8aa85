"""Obscurations and media."""
from . import terms as T
from .terms import V, R, ZERO, ONE
from .core import rule
from .cpp import Run
from .rules_surface import summ, params, cpar, load, P, sqrtv
from .cfront import AnalysisBroken, params_of

add, sub, mul, div, neg = T.vadd, T.vsub, T.vmul, T.vdiv, T.vneg
c = T.const
var = T.var


def positive(v, *names):
    """Assume the named inputs positive."""
    m = {T.single_atom(var(n)): var(n + '+', 'pos') for n in names}
    return T.vsubst(v, m)


def shape(ctx, cls, x, y):
    n = [cpar(ctx, cls, i) for i in range({'ObscCircle': 3, 'ObscAnnulus': 4, 'ObscRectangle': 5, 'ObscRay': 4}[cls])]
    v = [var(q) for q in n]
    if cls == 'ObscCircle':
        dx, dy = sub(x, v[1]), sub(y, v[2])
        return T.vlt(T.fn('hypot', dx, dy), v[0]), n[:1]
    if cls == 'ObscAnnulus':
        h = T.fn('hypot', sub(x, v[2]), sub(y, v[3]))
        return T.vand(T.vle(v[0], h), T.vlt(h, v[1])), n[:2]
    if cls == 'ObscRectangle':
        w, h, x0, y0, th = v
        xp, yp = rotate(x, y, x0, y0, th)
        half = lambda a, s_: T.vand(T.vlt(neg(div(s_, c(2))), a), T.vlt(a, div(s_, c(2))))
        return T.vand(half(xp, w), half(yp, h)), n[:2]
    w, th, x0, y0 = v
    xp, yp = rotate(x, y, x0, y0, th)
    return T.vand(T.gt0(xp), T.vand(T.vlt(neg(div(w, c(2))), yp), T.vlt(yp, div(w, c(2))))), n[:1]


def rotate(x, y, x0, y0, th):
    s, co = T.fn('sin', th), T.fn('cos', th)
    X, Y = sub(x, x0), sub(y, y0)
    return add(mul(X, co), mul(Y, s)), sub(mul(Y, co), mul(X, s))


@rule('C09', 'shape', need=4)
def shapes(ctx, s):
    """contains(x, y) is exactly the documented region."""
    for cls in ('ObscCircle', 'ObscAnnulus', 'ObscRectangle', 'ObscRay'):
        S = summ(ctx, cls, 'contains')
        x, y = params(S, 0, 1)
        want, pos = shape(ctx, cls, x, y)
        s.same(cls, S.loc, positive(T.truthv(S.ret), *pos), positive(want, *pos))


@rule('C09', 'boolean-algebra', need=3)
def algebra(ctx, s):
    S = summ(ctx, 'ObscNegation', 'contains')
    x, y = params(S, 0, 1)
    inner = [a for a in T.all_atoms(S.ret) if T.ATOMS[a][0] == 'Obscuration::contains']
    n = cpar(ctx, 'ObscNegation', 0)
    want = T.vnot(T.bool_atom('Obscuration::contains', ('obj', n), x, y))
    if len(inner) == 1:
        want = T.vnot(T.bool_atom('Obscuration::contains', T.ATOMS[inner[0]][1][0], x, y))
    s.same('ObscNegation', S.loc, T.truthv(S.ret), want)
    for cls, f in (('ObscUnion', T.mkany), ('ObscIntersection', T.mkall)):
        S = summ(ctx, cls, 'contains')
        x, y = params(S, 0, 1)
        k = T.fresh_idx()
        o = ('obj', ('elem', P(cpar(ctx, cls, 0)), k))
        s.same(cls, S.loc, T.truthv(S.ret), f(k, var(cpar(ctx, cls, 1)), T.bool_atom('Obscuration::contains', o, x, y)))


# ---------------------------------------------------------------- media
def micron2(w):
    return mul(mul(w, w), c(10 ** 12))


@rule('C10', 'formula', need=4)
def media(ctx, s):
    """getN(wavelength in m) equals the documented dispersion formula with the medium's own coefficients."""
    S = summ(ctx, 'ConstMedium', 'getN')
    s.same('ConstMedium', S.loc, S.ret, var(cpar(ctx, 'ConstMedium', 0)))
    S = summ(ctx, 'SellmeierMedium', 'getN')
    x = micron2(params(S, 0)[0])
    v = [var(cpar(ctx, 'SellmeierMedium', i)) for i in range(6)]
    t = ONE
    for i in range(3):
        t = add(t, div(mul(v[i], x), sub(x, v[3 + i])))
    s.same('SellmeierMedium', S.loc, S.ret, sqrtv(t))
    S = summ(ctx, 'SumitaMedium', 'getN')
    x = micron2(params(S, 0)[0])
    v = [var(cpar(ctx, 'SumitaMedium', i)) for i in range(6)]
    t = add(v[0], mul(v[1], x))
    xi = div(ONE, x)
    p = xi
    for i in range(2, 6):
        t = add(t, mul(v[i], p))
        p = mul(p, xi)
    s.same('SumitaMedium', S.loc, S.ret, sqrtv(t))
    S = summ(ctx, 'Air', 'getN')
    w = params(S, 0)[0]
    F = T.Fraction
    k = lambda q: c(F(q))
    press, temp, water = [var(cpar(ctx, 'Air', i)) for i in range(3)]
    Pm, W = mul(press, k('7.50061683')), mul(water, k('7.50061683'))
    Tc = sub(temp, k('273.15'))
    s2 = div(ONE, micron2(w))
    n1 = add(add(k('64.328'), div(k('29498.1'), sub(k(146), s2))), div(k('255.4'), sub(k(41), s2)))
    den = add(ONE, mul(k('0.003661'), Tc))
    n1 = mul(n1, div(mul(Pm, add(ONE, mul(mul(sub(k('1.049'), mul(k('0.0157'), Tc)), k('1e-6')), Pm))),
                     mul(k('720.883'), den)))
    n1 = sub(n1, mul(div(sub(k('0.0624'), mul(k('0.000680'), s2)), den), W))
    s.same('Air', S.loc, S.ret, add(ONE, mul(n1, k('1e-6'))))


def bracket(s, S, up, w, A, n):
    """The upper node is the first (from the second on) beyond the wavelength, or the last."""
    k = T.fresh_idx()
    for cmp in (T.vlt, T.vle):
        cond = T.truthv(cmp(w, load(P(A), T.radd(k, ONE))))
        d, b = T.close(k, cond)
        want = T.radd(ONE, T.flag(T.atom('first', (d, T.rsub(n, c(2)), b)), 'int', 'nonneg'))
        if T.req(up, want):
            s.ok('bracket', S.loc)
            return
    if any(T.ATOMS[a][0] == 'first' for a in T.all_atoms(up)) and not T.has_unknown(up):
        s.bad('bracket', S.loc, 'interpolates at node %s' % T.clip(T.show(up), 300))
    else:
        s.und('bracket', S.loc, 'node search not recognised: ' + T.clip(T.show(up), 200))


@rule('C10', 'table', need=4)
def table_medium(ctx, s):
    """Linear interpolation between neighbouring nodes; NaN outside; never outside the arrays."""
    S = summ(ctx, 'TableMedium', 'getN')
    w = params(S, 0)[0]
    A, Vv, n = [cpar(ctx, 'TableMedium', i) for i in range(3)]
    n = var(n)
    first, last = load(P(A), ZERO), load(P(A), T.rsub(n, ONE))
    below, above = T.vlt(w, first), T.vlt(last, w)
    seen = 0
    for path, l in T.leaves(S.ret):
        pd = dict(path)
        outside = any(isinstance(g, V) and pd.get(g.c) is (g.hi is True) for g in (below, above))
        isnan = isinstance(l, R) and any(T.ATOMS[a][0] == 'nan' for a in T.all_atoms(l))
        if outside or isnan:
            seen += 1
            s.check(outside == isnan, 'outside-%d' % seen, S.loc,
                    'outside the table the index is %s' % T.clip(T.show(l), 100) if outside else 'NaN inside the table')
            continue
        # inside: must be the chord through two nodes i-1, i
        idxs = {}
        for a in T.all_atoms(l):
            nm, ar = T.ATOMS[a]
            if nm == 'load' and ar[0] == P(A):
                idxs[a] = ar[1]
        ks = list(idxs.values())
        if not ks:
            s.und('inside', S.loc, T.clip(T.show(l), 300))
            continue
        ok = False
        for up in ks:
            a0, a1 = load(P(A), T.rsub(up, ONE)), load(P(A), up)
            v0, v1 = load(P(Vv), T.rsub(up, ONE)), load(P(Vv), up)
            want = add(v0, div(mul(sub(w, a0), sub(v1, v0)), sub(a1, a0)))
            if T.compare(l, want, path) is None:
                ok = True
                hi = up
        if ok:
            s.ok('inside', S.loc)
            bracket(s, S, hi, w, A, n)
        elif T.has_unknown(l) and False:
            s.und('inside', S.loc, T.clip(T.show(l), 300))
        else:
            s.bad('inside', S.loc, 'not the chord between neighbouring nodes: ' + T.clip(T.show(l), 300))
    s.check(seen >= 2, 'range-checked', S.loc, 'no NaN outside the table range')


# ------------------------------------------------------------- polygons
def small_eval(v, env):
    """Value of a gated term at exact rational values of its atoms; None when a gate is not arithmetic."""
    while isinstance(v, V):
        b = gate_eval(v.c, env)
        if b is None:
            return None
        v = v.hi if b else v.lo
    if isinstance(v, bool):
        return v
    return num_eval(v, env)


def gate_eval(i, env):
    n, a = T.ATOMS[i]
    if i in env:
        return env[i]
    if n in ('gt0', 'eq0') and isinstance(a[0], R):
        z = num_eval(a[0], env)
        if z is None:
            return None
        return z > 0 if n == 'gt0' else z == 0
    return None


def num_eval(r, env):
    def poly(p):
        t = T.Fraction(0)
        for m, k in p.items():
            q = T.Fraction(k)
            for a, e in m:
                if a not in env:
                    n, ar = T.ATOMS[a]
                    if n in ('let', 'abs') and isinstance(ar[0], R):
                        z = num_eval(ar[0], env)
                        if z is None:
                            return None
                        z = abs(z) if n == 'abs' else z
                    else:
                        return None
                else:
                    z = env[a]
                q *= T.Fraction(z) ** e
            t += q
        return t
    n, d = poly(r.num), poly(r.den)
    if n is None or not d:
        return None
    return n / d


def strip_mod(i, n):
    """index modulo the vertex count -> (linear index)"""
    a = T.single_atom(i)
    if a is not None and T.ATOMS[a][0] == 'mod' and T.req(T.ATOMS[a][1][1], n):
        return T.ATOMS[a][1][0], True
    return i, False


def edge_predicate(ctx, pred, X, Yn, n, x, y):
    """pred as a function of the two vertices of one edge: (indices, env maker) or a reason."""
    loads = {}
    for a in T.all_atoms(pred):
        nm, ar = T.ATOMS[a]
        if nm == 'load' and ar[0] in (P(X), P(Yn)):
            loads[a] = (ar[0] == P(X), ar[1])
    idx = []
    for _, i in loads.values():
        if not any(T.req(i, j) for j in idx):
            idx.append(i)
    return loads, idx


@rule('C09', 'polygon', need=3)
def polygon(ctx, s):
    """A point is inside iff an odd number of the n cyclic edges cross its horizontal to the right (half-open in y)."""
    S = summ(ctx, 'ObscPolygon', 'contains')
    x, y = params(S, 0, 1)
    X, Yn, n = [cpar(ctx, 'ObscPolygon', i) for i in range(3)]
    n = var(n)
    ret = S.ret
    a = ret.c if isinstance(ret, V) and ret.hi is True and ret.lo is False else None
    if a is None or T.ATOMS[a][0] != 'parity':
        s.und('parity', S.loc, 'not a parity over edges: ' + T.clip(T.show(ret), 300))
        return
    d, trip, body = T.ATOMS[a][1]
    k = T.fresh_idx()
    body = T.open_(d, body, k)
    loads, idx = edge_predicate(ctx, body, X, Yn, n, x, y)
    s.check(T.req(trip, n), 'all-edges', S.loc, 'visits %s edges instead of all %s' % (T.show(trip), T.show(n)))
    if len(idx) != 2:
        s.und('edges', S.loc, 'edge vertices not recognised')
        return
    (p, pm), (q, qm) = [strip_mod(i, n) for i in idx]
    diff = T.rsub(p, q)
    if T.is_const(diff) and abs(T.cval(diff)) == 1 and (qm if T.cval(diff) < 0 else pm):
        s.ok('neighbours', S.loc)
    elif T.is_const(diff) and T.cval(diff) in (0, 1, -1, 2, -2):
        s.bad('neighbours', S.loc, 'edges join vertices %s and %s' % (T.show(idx[0]), T.show(idx[1])))
    else:
        s.und('neighbours', S.loc, 'edges join vertices %s and %s' % (T.show(idx[0]), T.show(idx[1])))
    check_crossing(s, 'crossing', S.loc, body, loads, idx, x, y)


def check_crossing(s, name, loc, body, loads, idx, x, y):
    """Exhaustive comparison of the edge predicate with the crossing rule on the small model {0,1,2}^6."""
    import itertools
    xi, yi = T.single_atom(x), T.single_atom(y)
    unknown = 0
    for x1, y1, x2, y2, px, py in itertools.product(range(3), repeat=6):
        env = {xi: T.Fraction(px), yi: T.Fraction(py)}
        for a, (isx, i) in loads.items():
            first = T.req(i, idx[0])
            env[a] = T.Fraction((x1 if isx else y1) if first else (x2 if isx else y2))
        got = small_eval(body, env)
        cross = min(y1, y2) < py <= max(y1, y2)
        want = cross and px <= T.Fraction((py - y1) * (x2 - x1), (y2 - y1)) + x1
        if got is None:
            unknown += 1
        elif bool(got) != want:
            s.bad(name, loc, 'edge (%d,%d)-(%d,%d), point (%d,%d): counted %s, should be %s' % (x1, y1, x2, y2, px, py, got, want))
            return
    if unknown:
        s.und(name, loc, '%d model points undecided' % unknown)
    else:
        s.ok(name, loc)


@rule('C09', 'polygon-grid', need=4)
def polygon_grid(ctx, s):
    """Row by row grid evaluation uses the same crossings and writes row-major output."""
    S = summ(ctx, 'ObscPolygon', 'containsGrid')
    ps = [p.get('name') for p in params_of(S.fn)]
    X, Yn, n = [cpar(ctx, 'ObscPolygon', i) for i in range(3)]
    n = var(n)
    nx, ny = var(ps[3]), var(ps[4])
    loops = {l['id']: l for l in S.I.loops}
    stores = 0
    for e in S.events:
        if e['kind'] == 'store' and e['base'] == P(ps[2]):
            lp = [loops[i] for i in e['loops'] if i in loops]
            rows = [l for l in lp if l['n'] is not None and T.req(l['n'], ny)]
            cols = [l for l in lp if l['n'] is not None and T.req(l['n'], nx)]
            if len(rows) == 1 and len(cols) == 1 or (len(lp) == 2 and len(rows) == 2):
                r_, c_ = (rows[0], cols[0]) if len(rows) == 1 else (lp[0], lp[1])
                stores += 1
                want = T.radd(T.rmul(r_['k'], nx), c_['k'])
                s.same('layout-%d' % stores, S.loc, e['idx'], want)
    if not stores:
        s.und('layout', S.loc, 'no store to the output grid recognised')
    pushes = [e for e in S.events if e['kind'] == 'libcall' and e['name'] in ('push_back', 'emplace_back') and e['args']]
    names = {e['name'] for e in S.events if e['kind'] == 'libcall'}
    for e in pushes[:2]:
        yload = [a for a in T.all_atoms(e['guard']) if T.ATOMS[a][0] == 'load' and T.ATOMS[a][1][0] == P(ps[1])]
        if len(set(yload)) != 1:
            s.und('crossing', S.loc, 'row coordinate not recognised')
            continue
        yv = T.R({((yload[0], 1),): 1}, T.P1)
        rows = [loops[i] for i in e['loops'] if i in loops and loops[i]['n'] is not None and T.req(loops[i]['n'], ny)]
        if rows:
            s.same('row-coordinate', S.loc, T.ATOMS[yload[0]][1][1], rows[0]['k'])
        x = var('grid-x')
        pred = T.vand(e['guard'], T.vle(x, e['args'][0]))
        loads, idx = edge_predicate(ctx, pred, X, Yn, n, x, yv)
        loads = {a: v for a, v in loads.items()}
        if len(idx) != 2:
            s.und('crossing', S.loc, 'edge vertices not recognised')
            continue
        check_crossing(s, 'crossing', S.loc, pred, loads, idx, x, yv)
        inner = [loops[i] for i in e['loops'] if i in loops and loops[i] not in rows]
        if inner and inner[-1]['n'] is not None:
            s.check(T.req(inner[-1]['n'], n), 'all-edges', S.loc, 'visits %s edges' % T.show(inner[-1]['n']))
        s.check(bool(names & {'sort', 'stable_sort', 'insert', 'lower_bound', 'upper_bound'}), 'ordered', S.loc,
                'the crossings are consumed in order but never sorted')
        s.check('clear' in names or any(len(q['loops']) for q in S.events if q['kind'] == 'new'), 'cleared', S.loc,
                'crossings of earlier rows are kept')
    if not pushes:
        s.und('crossing', S.loc, 'no list of crossings')
