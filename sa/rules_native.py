"""From Python parameters through the bindings to the C++ parameters they stand for."""
import re
from . import terms as T
from .terms import V, R, ZERO, ONE, const, var
from .core import rule
from .pyvals import Arr, Tup, Ref, Str, MISSING
from .py import interp, done, loc, judge, same_values, unclear
from .cfront import AnalysisBroken, params_of
from .rules_values import VALUES, STAR, build, fresh
from .rules_optic import name as symname
from . import bind
from .rules_frames import thing


def bindings(ctx):
    return ctx.memo('bindings-table', lambda: bind.Bindings(ctx.bindings))


class Ptr:
    """Expected: the address of an array holding these values."""

    def __init__(self, v):
        self.v = v


class Same:
    """Expected: one of these values."""

    def __init__(self, *v):
        self.v = v


def handle(v):
    return v


def pointee(v):
    """The array behind X.ctypes.data."""
    i = T.single_atom(v) if isinstance(v, R) else None
    if i is None or T.ATOMS[i][0] != 'attr' or T.ATOMS[i][1][1] != 'data':
        return None
    x = T.ATOMS[i][1][0]
    j = T.single_atom(x) if isinstance(x, R) else None
    if j is None or T.ATOMS[j][0] != 'attr' or T.ATOMS[j][1][1] != 'ctypes':
        return None
    return T.ATOMS[j][1][0]


KNOWN = ('galsim.*', 'getitem', 'numpy.empty', 'numpy.empty_like', 'numpy.zeros', 'numpy.zeros_like', 'numpy.ones', 'op+', 'float', '.ravel', 'ctypes')


def arg_ok(s, subject, where, got, want):
    if isinstance(want, Same):
        for w in want.v:
            if T.compare(same_values(got), same_values(w)) is None:
                s.ok(subject, where)
                return
        want = want.v[0]
    if isinstance(want, Ptr):
        p = pointee(got)
        if p is None:
            if isinstance(got, R) and T.is_const(got):
                s.bad(subject, where, 'address %s is not that of an array' % T.show(got))
            else:
                s.und(subject, where, 'address ' + T.show(got))
            return
        want = want.v
        got = p
        if isinstance(got, Arr) and isinstance(want, Arr) and got.dims != want.dims:
            s.bad(subject, where, 'array of shape %s, expected %s' % (got.dims, want.dims))
            return
    judge(s, subject, where, got, want, known=KNOWN)


def routed(b, e):
    """The C++ argument list of a native call: list of values, or None where the binding computes."""
    if b is None or b.route is None:
        return None
    args = list(e.args)
    if e.kw:
        names = b.kwnames
        for k in e.kw:
            if k not in names:
                return None
        full = args + [None] * (len(names) - len(args))
        for k, v in e.kw.items():
            full[names.index(k)] = v
        args = full
    shift = 1 if getattr(b, 'lambda_self', False) else 0
    out = []
    for r in b.route:
        if r[0] == 'param' and 0 <= r[1] - shift < len(args):
            out.append(args[r[1] - shift])
        elif r[0] == 'const':
            out.append(('const', r[1]))
        else:
            out.append(None)
    return out


def compare_call(s, tag, b, e, roles):
    """roles: [(role name, expected)] in the order of the C++ parameters."""
    out = routed(b, e)
    if out is None:
        s.und(tag, e.loc, 'the binding of %s is not understood' % e.name)
        return
    if len(out) != len(roles):
        s.und(tag, e.loc, '%s takes %d arguments, %d expected' % (e.name, len(out), len(roles)))
        return
    for (role, want), got in zip(roles, out):
        if want is None:
            continue
        if got is None or isinstance(got, tuple):
            s.und('%s/%s' % (tag, role), b.loc, 'computed by the binding')
            continue
        arg_ok(s, '%s/%s' % (tag, role), e.loc, got, want)


def A(name, *n):
    import itertools
    return Arr(n, {k: var('p.%s.%s' % (name, '.'.join(map(str, k)))) for k in itertools.product(*[range(i) for i in n])})


def p(n):
    return var('p.' + n)


def native(cls, *args):
    return T.atom('native:' + cls, args, ('obj',))


def numbers(*names):
    return [(n, p(n)) for n in names]


def zernike_arrays(ip):
    z = T.atom('galsim.zernike.Zernike', (A('coef', 4), p('R_outer'), p('R_inner')))
    return z


# Python class -> (C++ class, roles in the order of the C++ constructor's parameters)
CTORS = {
    'Plane': ('Plane', []),
    'Tilted': ('Tilted', numbers('tanx', 'tany')),
    'Paraboloid': ('Paraboloid', numbers('R')),
    'Sphere': ('Sphere', numbers('R')),
    'Quadric': ('Quadric', numbers('R', 'conic')),
    'Bicubic': ('Table', [('x0', Same(var('p.xs.0'))), ('y0', Same(var('p.ys.0'))),
                          ('dx', T.vdiv(T.vsub(var('p.xs.2'), var('p.xs.0')), const(2))), ('dy', T.vdiv(T.vsub(var('p.ys.3'), var('p.ys.0')), const(3))),
                          ('z', Ptr(A('zs', 4, 3))), ('dzdx', Ptr(A('dzdxs', 4, 3))), ('dzdy', Ptr(A('dzdys', 4, 3))), ('d2zdxdy', Ptr(A('d2zdxdys', 4, 3))),
                          ('nx', const(3)), ('ny', const(4)), ('nan outside', True)]),
    'ConstMedium': ('ConstMedium', numbers('n')),
    'TableMedium': ('TableMedium', [('wavelengths', Ptr(A('wavelengths', 3))), ('ns', Ptr(A('ns', 3))), ('size', const(3))]),
    'SellmeierMedium': ('SellmeierMedium', [(q, var('p.coefs.%d' % i)) for i, q in enumerate(('B1', 'B2', 'B3', 'C1', 'C2', 'C3'))]),
    'SumitaMedium': ('SumitaMedium', [(q, var('p.coefs.%d' % i)) for i, q in enumerate(('A0', 'A1', 'A2', 'A3', 'A4', 'A5'))]),
    'Air': ('Air', numbers('pressure', 'temperature', 'h2o_pressure')),
    'SimpleCoating': ('SimpleCoating', numbers('reflectivity', 'transmissivity')),
    'ObscCircle': ('ObscCircle', numbers('radius', 'x', 'y')),
    'ObscAnnulus': ('ObscAnnulus', numbers('inner', 'outer', 'x', 'y')),
    'ObscRectangle': ('ObscRectangle', numbers('width', 'height', 'x', 'y', 'theta')),
    'ObscRay': ('ObscRay', numbers('width', 'theta', 'x', 'y')),
    'ObscPolygon': ('ObscPolygon', [('xs', Ptr(A('xs', 3))), ('ys', Ptr(A('ys', 3))), ('size', const(3))]),
    'ObscNegation': ('ObscNegation', [('original', native('CPPObscCircle', p('a'), ZERO, ZERO))]),
}


def class_of(B, pyname):
    return B.classes.get(pyname)


def check_ctor(ctx, s, ip, tag, cxx, roles):
    """The native object of C++ class cxx built during the interpretation gets the roles."""
    B = bindings(ctx)
    ev = [e for e in ip.events if e.kind == 'native']
    hit = [e for e in ev if class_of(B, e.name) is not None and class_of(B, e.name).cxx == cxx]
    if not hit:
        other = sorted({class_of(B, e.name).cxx for e in ev if class_of(B, e.name) is not None})
        known = [c for c in B.classes.values() if c.cxx == cxx]
        if other and known and ev:
            s.bad(tag, ev[-1].loc, 'builds a native %s, expected %s' % (', '.join(other), cxx))
        else:
            s.und(tag, '', 'no native %s is built' % cxx)
        return None
    e = hit[-1]
    b = class_of(B, e.name).members.get('__init__')
    if b is not None and b.kind == 'ctor' and b.target != cxx and b.target is not None:
        s.bad(tag + ' type', b.loc, '%s builds a %s' % (e.name, b.target))
    compare_call(s, tag, b, e, roles)
    return e


@rule('C22', 'constructors', need=60)
def constructors(ctx, s):
    """Every parameter of a surface, medium, coating or obscuration reaches the C++ constructor parameter it stands for."""
    for cls, (cxx, roles) in CTORS.items():
        ip = fresh(ctx)
        o = ip.toplevel(lambda: build(ip, cls))
        if o is None:
            s.und(cls, loc(ctx, cls, '__init__'), 'not constructed')
            continue
        check_ctor(ctx, s, ip, cls, cxx, roles)
        slot = {'Obsc': '_obsc'}.get(cls[:4], '_medium' if cls.endswith('Medium') or cls == 'Air' else '_coating' if cls.endswith('Coating') else '_surface')
        h = ip.getattr(o, slot)
        i = T.single_atom(h) if isinstance(h, R) else None
        if i is not None and T.ATOMS[i][0].startswith('native:CPP'):
            B = bindings(ctx)
            c = class_of(B, T.ATOMS[i][0][len('native:'):])
            want = 'Bicubic' if cls == 'Bicubic' else cxx
            s.check(c is not None and c.cxx == want, cls + ' handle', loc(ctx, cls, '__init__'), 'the native object kept is %s' % T.show(h))
        else:
            s.und(cls + ' handle', loc(ctx, cls, '__init__'), T.show(h))
        done(ctx, ip)


@rule('C22', 'constructor-forms', need=40)
def ctor_forms(ctx, s):
    """Other documented forms of the constructors: keywords, defaults, single-sequence forms and options."""
    def run(tag, cls, args, kw, cxx, roles):
        ip = fresh(ctx)
        o = ip.toplevel(lambda: ip.construct(ctx.py.cls(cls), [a(ip) if callable(a) else a for a in args], {k: v(ip) if callable(v) else v for k, v in kw.items()}))
        if o is None:
            s.und('%s %s' % (cls, tag), loc(ctx, cls, '__init__'), 'not constructed: %s' % ip.raised[-1:])
            return None, None
        check_ctor(ctx, s, ip, '%s %s' % (cls, tag), cxx, roles)
        done(ctx, ip)
        return ip, o
    # keywords in another order
    for cls, (cxx, roles) in CTORS.items():
        ps = [q for q in VALUES.get(cls, ())]
        if not ps or cls in STAR or any(q.kw for q in ps):
            continue
        run('by keyword', cls, [], {q.nm: q.make for q in reversed(ps)}, cxx, roles)
    # defaults
    d = lambda **k: [(n, v) for n, v in k.items()]
    run('defaults', 'ObscCircle', [p('radius')], {}, 'ObscCircle', d(radius=p('radius'), x=ZERO, y=ZERO))
    run('x only', 'ObscCircle', [p('radius')], {'x': p('x')}, 'ObscCircle', d(radius=p('radius'), x=p('x'), y=ZERO))
    run('y only', 'ObscCircle', [p('radius')], {'y': p('y')}, 'ObscCircle', d(radius=p('radius'), x=ZERO, y=p('y')))
    run('defaults', 'ObscAnnulus', [p('inner'), p('outer')], {}, 'ObscAnnulus', d(inner=p('inner'), outer=p('outer'), x=ZERO, y=ZERO))
    run('y only', 'ObscAnnulus', [p('inner'), p('outer')], {'y': p('y')}, 'ObscAnnulus', d(inner=p('inner'), outer=p('outer'), x=ZERO, y=p('y')))
    run('defaults', 'ObscRectangle', [p('w'), p('h')], {}, 'ObscRectangle', d(width=p('w'), height=p('h'), x=ZERO, y=ZERO, theta=ZERO))
    run('theta only', 'ObscRectangle', [p('w'), p('h')], {'theta': p('th')}, 'ObscRectangle', d(width=p('w'), height=p('h'), x=ZERO, y=ZERO, theta=p('th')))
    run('defaults', 'ObscRay', [p('w'), p('th')], {}, 'ObscRay', d(width=p('w'), theta=p('th'), x=ZERO, y=ZERO))
    run('defaults', 'Air', [], {}, 'Air', d(pressure=num_('69.328'), temperature=num_('293.15'), h2o_pressure=num_('1.067')))
    run('temperature only', 'Air', [], {'temperature': p('t')}, 'Air', d(pressure=num_('69.328'), temperature=p('t'), h2o_pressure=num_('1.067')))
    for cls, q in (('SellmeierMedium', ('B1', 'B2', 'B3', 'C1', 'C2', 'C3')), ('SumitaMedium', ('A0', 'A1', 'A2', 'A3', 'A4', 'A5'))):
        six = [var('p.coefs.%d' % i) for i in range(6)]
        roles = [(n, v) for n, v in zip(q, six)]
        run('list', cls, [lambda ip: ip.newlist(six)], {}, cls, roles)
        run('tuple', cls, [Tup(six)], {}, cls, roles)
        run('keywords', cls, [], dict(reversed(list(zip(q, six)))), cls, roles)
    for imin in (1, 2, 3, 4):
        cs = [var('p.coefs.%d' % i) for i in range(3)]
        pad = Arr((3 + imin - 1,), {(i,): ZERO if i < imin - 1 else cs[i - imin + 1] for i in range(3 + imin - 1)})
        roles = [('R', p('R')), ('conic', p('conic')), ('coefs', Ptr(pad)), ('size', const(2 + imin))]
        run('imin=%d' % imin, 'Asphere', [p('R'), p('conic'), lambda ip: ip.newlist(cs)], {'imin': const(imin)}, 'Asphere', roles)
        if imin == 2:
            run('default imin', 'Asphere', [p('R'), p('conic'), lambda ip: ip.newlist(cs)], {}, 'Asphere', roles)
            run('array', 'Asphere', [p('R'), p('conic'), A('coefs', 3)], {}, 'Asphere', roles)
    for tag, kw, want in (('nanpolicy nan', 'nan', True), ('nanpolicy NaN', 'NaN', True), ('nanpolicy zero', 'zero', False), ('nanpolicy ZERO', 'ZERO', False)):
        roles = CTORS['Bicubic'][1][:-1] + [('nan outside', want)]
        run(tag, 'Bicubic', [A('xs', 3), A('ys', 4), A('zs', 4, 3), A('dzdxs', 4, 3), A('dzdys', 4, 3), A('d2zdxdys', 4, 3)], {'nanpolicy': kw}, 'Table', roles)
    for nm in ('dzdxs', 'dzdys', 'd2zdxdys'):
        # derivatives given singly are used as given
        roles = [(r, None if r in ('dzdx', 'dzdy', 'd2zdxdy') and r + 's' != nm else w) for r, w in CTORS['Bicubic'][1]]
        run('only ' + nm, 'Bicubic', [A('xs', 3), A('ys', 4), A('zs', 4, 3)], {nm: A(nm, 4, 3)}, 'Table', roles)
    zernike_forms(ctx, s, run)
    # composites keep the members and their order
    for cls, mem, h in (('Sum', ('Sphere', 'Quadric'), '_surface'), ('ObscUnion', ('ObscCircle', 'ObscRectangle'), '_obsc'), ('ObscIntersection', ('ObscCircle', 'ObscRectangle'), '_obsc')):
        for how in ('separate', 'list'):
            ip = fresh(ctx)
            ms = [ip.construct(ctx.py.cls(m), [p(m)] if m in ('Sphere', 'ObscCircle') else [p(m), p(m + '.2')], {}) for m in mem]
            o = ip.toplevel(lambda: ip.construct(ctx.py.cls(cls), ms if how == 'separate' else [ip.newlist(ms)], {}))
            B = bindings(ctx)
            ev = [e for e in ip.events if e.kind == 'native' and class_of(B, e.name) is not None and class_of(B, e.name).cxx == cls]
            tag = '%s %s' % (cls, how)
            if o is None or len(ev) != 1 or len(ev[0].args) != 1:
                s.und(tag, loc(ctx, cls, '__init__'), 'no native %s' % cls)
                continue
            l = ip.as_list(ev[0].args[0])
            want = [ip.getattr(m, h) for m in ms]
            if l is None:
                s.und(tag, ev[0].loc, T.show(ev[0].args[0]))
            else:
                key = (lambda q: sorted(map(T.show, q))) if cls != 'Sum' else (lambda q: sorted(map(T.show, q)))
                s.check(key(l) == key(want), tag, ev[0].loc, 'native members %s, expected %s' % (list(map(T.show, l)), list(map(T.show, want))))
            done(ctx, ip)


def num_(t):
    from fractions import Fraction
    return const(Fraction(t))


def zernike_forms(ctx, s, run):
    xy = lambda z: T.atom('attr', (z, '_coef_array_xy'))
    z = T.atom('galsim.zernike.Zernike', (A('coef', 4), p('R_outer'), p('R_inner')))
    gx, gy = T.atom('attr', (z, 'gradX')), T.atom('attr', (z, 'gradY'))
    ip, o = run('given', 'Zernike', [A('coef', 4), p('R_outer'), p('R_inner'), p('x_origin'), p('y_origin')], {}, 'PolynomialSurface', [
        ('coefs', Ptr(xy(z))), ('gradient x', Ptr(xy(gx))), ('gradient y', Ptr(xy(gy))), ('x origin', p('x_origin')), ('y origin', p('y_origin')),
        ('x size', Same(item(attr(xy(z), 'shape'), 0), T.atom('len', (xy(z),), ('int', 'nonneg')))), ('y size', Same(item(attr(xy(z), 'shape'), 1)))])
    z1 = T.atom('galsim.zernike.Zernike', (A('coef', 4), ONE, ZERO))
    run('defaults', 'Zernike', [A('coef', 4)], {}, 'PolynomialSurface', [
        ('coefs', Ptr(xy(z1))), ('gradient x', None), ('gradient y', None), ('x origin', ZERO), ('y origin', ZERO), ('x size', None), ('y size', None)])


def attr(v, n):
    return T.atom('attr', (v, n))


def item(v, i):
    return T.atom('getitem', (v, const(i)))


# ------------------------------------------------------------------ operations
THREADS = T.atom('glob', ('_batoid_max_threads',), ('int', 'pos'))


def raysof(ip, nm='r'):
    """A bundle whose arrays are known symbols."""
    f = {'_' + q: Arr(('N',), {(): var('%s.%s' % (nm, q)) if q not in ('vignetted', 'failed') else T.bool_atom('truthy', T.atom('var', ('%s.%s' % (nm, q),)))})
         for q in ('x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux', 'vignetted', 'failed')}
    f['coordSys'] = thing('frame')
    return ip.instance('RayVector', f, True, T.atom('var', (nm,), ('obj',)))


def calls(ip, n, names):
    return [e for e in ip.events[n:] if e.kind == 'call' and e.name in names]


RAYOPS = {
    # method: (arguments, C++ method, roles)
    'positionAtTime': (lambda: [var('t')], 'positionAtTime', ['t', 'out', 'out', 'out', 'threads']),
    'propagate': (lambda: [var('t')], 'propagateInPlace', ['t', 'threads']),
    'phase': (lambda: [Arr((3,), {(i,): var('r%d' % i) for i in range(3)}), var('t')], 'phase', ['r0', 'r1', 'r2', 't', 'out', 'threads']),
    'amplitude': (lambda: [Arr((3,), {(i,): var('r%d' % i) for i in range(3)}), var('t')], 'amplitude', ['r0', 'r1', 'r2', 't', 'out', 'threads']),
    'sumAmplitude': (lambda: [Arr((3,), {(i,): var('r%d' % i) for i in range(3)}), var('t')], 'sumAmplitude', ['r0', 'r1', 'r2', 't', 'ignore', 'threads']),
}


def ray_calls(ctx):
    """[(tag, method, call event, receiver value, binding, routed C++ arguments, roles, interp, result, bundle)]"""
    def go():
        B = bindings(ctx)
        out = []
        for m, (mk, cxx, roles) in RAYOPS.items():
            forms = [({}, True)] if m != 'sumAmplitude' else [({}, True), ({'ignoreVignetted': False}, False), ({'ignoreVignetted': True}, True)]
            for kw, ign in forms:
                ip = fresh(ctx)
                rv = raysof(ip)
                n = len(ip.events)
                res = ip.toplevel(lambda: ip.call_method(rv, m, *mk(), **kw))
                ev = [e for e in ip.events[n:] if e.kind == 'call' and e.name in {b for b in RAYOPS} | {'propagateInPlace'} and isinstance(e.recv, R)]
                out.append((m + (' ignoreVignetted=%s' % ign if kw else ''), m, cxx, roles, ign, ip, rv, res, ev))
                done(ctx, ip)
        return out
    return ctx.memo('ray-calls', go)


def ray_roles(ctx, s, which):
    B = bindings(ctx)
    for tag, m, cxx, roles, ign, ip, rv, res, ev in ray_calls(ctx):
        where = loc(ctx, 'RayVector', m)
        if len(ev) != 1:
            s.und(tag, where, '%d native calls' % len(ev))
            continue
        e = ev[0]
        b = B.member('CPPRayVector', e.name)
        if b is None:
            s.bad(tag, e.loc, 'the native bundle has no member %s' % e.name)
            continue
        if b.target != cxx and 'roles' in which:
            if b.target in {c for _, c, _ in RAYOPS.values()}:
                s.bad(tag, e.loc, 'reaches the C++ method %s, expected %s' % (b.target, cxx))
            else:
                s.und(tag, e.loc, 'reaches the C++ method %s' % b.target)
            continue
        args = routed(b, e)
        if args is None or len(args) != len(roles):
            s.und(tag, e.loc, 'argument list of another shape')
            continue
        ptrs = []
        for i, (r, got) in enumerate(zip(roles, args)):
            sub = '%s/%s' % (tag, r)
            if got is None or isinstance(got, tuple):
                if r in which or r not in ('threads',) and 'roles' in which:
                    s.und(sub, b.loc, 'computed by the binding')
                continue
            if r == 'threads':
                if 'threads' in which:
                    judge(s, sub, e.loc, got, THREADS)
            elif 'roles' not in which:
                continue
            elif r == 'out':
                pt = pointee(got)
                ptrs.append(pt)
                if pt is None:
                    s.und('%s %d' % (sub, i), e.loc, 'address ' + T.show(got))
            elif r == 'ignore':
                judge(s, sub, e.loc, T.truth(got) if not isinstance(got, bool) else got, ign)
            else:
                judge(s, sub, e.loc, got, var(r))
        if 'roles' not in which:
            continue
        # the native bundle is the one of these rays
        h = T.single_atom(e.recv) if isinstance(e.recv, R) else None
        if h is None or T.ATOMS[h][0] != 'native:CPPRayVector':
            s.und(tag + '/bundle', e.loc, T.show(e.recv))
        # the result is the array handed over
        if ptrs and all(x is not None for x in ptrs):
            if m == 'positionAtTime':
                want = ptrs
                for k in range(3):
                    got = res.items.get((k,)) if isinstance(res, Arr) and len(res.dims) == 2 and res.dims[1] == 3 else column(res, k)
                    if got is None:
                        s.und('%s/result %d' % (tag, k), where, T.show(res))
                    else:
                        judge(s, '%s/result %d' % (tag, k), where, got, want[k], known=KNOWN)
                s.check(len({T.show(x) for x in map(ident, want)}) == 3, tag + '/distinct outputs', where, 'two outputs share one array')
            else:
                judge(s, tag + '/result', where, res, ptrs[0], known=KNOWN)
        elif m == 'propagate':
            s.check(res == rv, tag + '/result', where, 'returns %s, not the bundle' % T.show(res)) if isinstance(res, Ref) or res is None else s.und(tag + '/result', where, T.show(res))


def ident(v):
    return v if not isinstance(v, Arr) else T.atom('arr', (v,))


def pointed(v):
    i = T.single_atom(v)
    return i is not None and T.ATOMS[i][0].startswith('numpy.')


def column(res, k):
    """Column k of np.array([a, b, c]).T in its opaque spellings."""
    if isinstance(res, Arr) and tuple(res.dims) == (3,):
        v = res.items.get((k,))
        # the three entries are whole arrays (not numbers): row k of the transposed table
        return v if v is not None and isinstance(v, R) and pointed(v) else None
    i = T.single_atom(res) if isinstance(res, R) else None
    if i is None:
        return None
    n, a = T.ATOMS[i]
    if n == 'attr' and a[1] == 'T':
        res, tr = a[0], True
        i = T.single_atom(res) if isinstance(res, R) else None
        if i is None:
            return None
        n, a = T.ATOMS[i]
    if n in ('numpy.array', 'numpy.stack', 'numpy.transpose', 'numpy.asarray', 'numpy.vstack', 'numpy.column_stack'):
        t = a[0]
        if isinstance(t, Tup) and len(t.items) == 3:
            return t.items[k]
    return None


@rule('C22', 'ray-operations', need=25)
def ray_ops(ctx, s):
    """Arguments of phase, amplitude, sums and propagation arrive in their C++ roles and results come from the arrays handed over."""
    ray_roles(ctx, s, {'roles'})


@rule('C18', 'ray-settings', need=7)
def ray_settings(ctx, s):
    """Bundle operations pass the thread count in force at the call, in its own place."""
    ray_roles(ctx, s, {'threads'})


@rule('C22', 'bundle', need=12)
def bundle_ctor(ctx, s):
    """The native bundle is built from the arrays of the quantities in their C++ positions."""
    ip = fresh(ctx)
    rv = raysof(ip)
    h = ip.toplevel(lambda: ip.getattr(rv, '_rv'))
    B = bindings(ctx)
    where = loc(ctx, 'RayVector', '_rv')
    ev = [e for e in ip.events if e.kind == 'native' and class_of(B, e.name) is not None and class_of(B, e.name).cxx == 'RayVector']
    if len(ev) != 1:
        s.und('RayVector._rv', where, '%d native bundles built' % len(ev))
        return
    q = ['x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux', 'vignetted', 'failed']
    dim = T.atom('dim', ('N',), ('int', 'pos'))
    roles = [(n, Ptr(ip.getattr(rv, '_' + n))) for n in q] + [('size', Same(dim, T.atom('len', (ip.getattr(rv, '_x'),), ('int', 'nonneg'))))]
    compare_call(s, 'RayVector._rv', class_of(B, ev[0].name).members.get('__init__'), ev[0], roles)
    # what Python sees under a name is the member of that name
    c = class_of(B, 'CPPRayVector')
    for n in q:
        b = c.members.get(n) if c else None
        if b is None:
            s.bad('CPPRayVector.' + n, where, 'is not bound')
        elif b.kind == 'member':
            s.check(b.target == n or b.target not in q, 'CPPRayVector.' + n, b.loc, 'gives the member %s' % b.target)
        else:
            s.und('CPPRayVector.' + n, b.loc, 'not a plain member')
    done(ctx, ip)


SAME_NAME = {'CPPSurface': ['sag'], 'CPPMedium': ['getN'], 'CPPCoating': ['getCoefs', 'getReflect', 'getTransmit'], 'CPPObscuration': ['contains'],
             'CPPObscPolygon': ['containsGrid'], 'CPPRayVector': ['positionAtTime', 'propagateInPlace', 'phase', 'amplitude', 'sumAmplitude'],
             'CPPDualViewDouble': ['syncToHost', 'syncToDevice'], 'CPPDualViewBool': ['syncToHost', 'syncToDevice']}
FUNCTIONS = ['applyForwardTransform', 'applyReverseTransform', 'intersect', 'reflect', 'refract', 'refractScreen', 'obscure', 'rSplit',
             'applyForwardTransformArrays', 'applyReverseTransformArrays', 'finishParallel', 'horner2d']


@rule('C22', 'bound-names', need=30)
def bound_names(ctx, s):
    """A native name reaches the C++ function of that name, with its arguments in order."""
    B = bindings(ctx)

    def one(tag, b, n, siblings):
        if b is None:
            s.und(tag, '', 'not bound')
            return
        if b.target is None:
            s.und(tag, b.loc, 'binding not understood')
            return
        s.check(b.target == n or b.target not in siblings, tag, b.loc, 'reaches %s' % b.target)
        if b.route is not None and b.kind != 'ctor':
            shift = 1 if getattr(b, 'lambda_self', False) else 0
            ps = [r[1] - shift for r in b.route if r[0] == 'param']
            s.check(ps == sorted(ps) and len(set(ps)) == len(ps), tag + ' order', b.loc, 'hands its parameters on in the order %s' % ps)
    for c, names in SAME_NAME.items():
        for n in names:
            one('%s.%s' % (c, n), B.member(c, n), n, set(names))
    for n in FUNCTIONS:
        one(n, B.functions.get(n), n, set(FUNCTIONS))
    c = B.classes.get('CPPRayVector')
    # overloads taken by the bindings of abstract parameters
    for n, cls in (('sag', 'Surface'), ('getN', 'Medium'), ('contains', 'Obscuration')):
        b = B.member('CPP' + cls, n)
        if b is not None:
            s.check(bool(b.vector) or b.kind == 'lambda', '%s.%s broadcasts' % (cls, n), b.loc, 'is bound for scalars only')


FORWARD = [
    # class, method, arguments, native receiver, native name, roles
    ('Sphere', 'sag', ['x', 'y'], '_surface', 'sag'),
    ('ConstMedium', 'getN', ['w'], '_medium', 'getN'),
    ('SimpleCoating', 'getCoefs', ['w', 'cosi'], '_coating', 'getCoefs'),
    ('SimpleCoating', 'getReflect', ['w', 'cosi'], '_coating', 'getReflect'),
    ('SimpleCoating', 'getTransmit', ['w', 'cosi'], '_coating', 'getTransmit'),
    ('ObscCircle', 'contains', ['x', 'y'], '_obsc', 'contains'),
]


@rule('C22', 'queries', need=20)
def queries(ctx, s):
    """Heights, normals, indices, coating coefficients and containment hand their arguments on in order and return what C++ returns."""
    B = bindings(ctx)
    for cls in sorted(c for c in VALUES if c in CTORS or c in ('Asphere', 'Zernike', 'Sum', 'ObscUnion', 'ObscIntersection')):
        kind = '_obsc' if cls.startswith('Obsc') else '_medium' if cls.endswith('Medium') or cls == 'Air' else '_coating' if cls.endswith('Coating') else '_surface'
        for c0, m, ar, h, nat in FORWARD:
            if h != kind:
                continue
            ip = fresh(ctx)
            o = ip.toplevel(lambda: build(ip, cls))
            if not isinstance(o, Ref):
                s.und('%s.%s' % (cls, m), '', 'not constructed')
                continue
            n = len(ip.events)
            res = ip.toplevel(lambda: ip.call_method(o, m, *[var(a) for a in ar]))
            ev = [e for e in ip.events[n:] if e.kind == 'call' and e.name in SAME_NAME['CPP' + {'_surface': 'Surface', '_medium': 'Medium', '_coating': 'Coating', '_obsc': 'Obscuration'}[h]]]
            where = loc(ctx, cls, m)
            tag = '%s.%s' % (cls, m)
            if len(ev) != 1:
                s.und(tag, where, '%d native calls' % len(ev))
                continue
            e = ev[0]
            s.check(e.name == nat, tag, e.loc, 'asks the native object for %s' % e.name)
            judge(s, tag + '/object', e.loc, e.recv, ip.getattr(o, h), known=('galsim.*', 'ctypes', 'getitem', 'native:*'))
            if e.kw or len(e.args) != len(ar):
                s.und(tag, e.loc, 'argument list of another shape')
                continue
            for a, g in zip(ar, e.args):
                judge(s, '%s/%s' % (tag, a), e.loc, g, var(a))
            judge(s, tag + '/result', where, res, e.res, known=('.*', 'galsim.*', 'getitem', 'native:*'))
            done(ctx, ip)


@rule('C22', 'normals', need=8)
def normals(ctx, s):
    """normal() hands over the coordinates as x, y and the number of points, and C++ writes component k of point i to out[i + k*size]."""
    B = bindings(ctx)
    for mode in ('array', 'scalar'):
        ip = fresh(ctx)
        o = build(ip, 'Sphere')
        n = len(ip.events)
        a = [thing('x'), thing('y')] if mode == 'array' else [var('x'), var('y')]
        res = ip.toplevel(lambda: ip.call_method(o, 'normal', *a))
        where = loc(ctx, 'Sphere', 'normal')
        ev = [e for e in ip.events[n:] if e.kind == 'call' and e.name == 'normal']
        if len(ev) != 1 or len(ev[0].args) != 4:
            s.und('normal ' + mode, where, 'no native call')
            continue
        e = ev[0]
        for k, nm in ((0, 'x'), (1, 'y')):
            pt = pointee(e.args[k])
            if pt is None:
                s.und('normal %s/%s' % (mode, nm), e.loc, T.show(e.args[k]))
            else:
                judge(s, 'normal %s/%s' % (mode, nm), e.loc, strip_order(pt), a[k])
        out = pointee(e.args[3])
        if out is None:
            s.und('normal %s/out' % mode, e.loc, T.show(e.args[3]))
            continue
        i = T.single_atom(out) if isinstance(out, R) else None
        fort = i is not None and any(isinstance(q, tuple) and q == ('order', 'F') for q in T.ATOMS[i][1])
        c_order = i is not None and T.ATOMS[i][0] in ('numpy.empty', 'numpy.zeros') and not fort
        # layout demanded by the binding
        lay = normal_layout(ctx, B)
        if lay == 'component-major':
            s.check(not c_order, 'normal %s/layout' % mode, e.loc, 'C++ writes component by component, the output array is laid out point by point')
        elif lay == 'point-major':
            s.check(not fort, 'normal %s/layout' % mode, e.loc, 'C++ writes point by point, the output array is laid out component by component')
        else:
            s.und('normal %s/layout' % mode, e.loc, 'output layout of the binding not understood')
        done(ctx, ip)
    b = B.member('CPPSurface', 'normal')
    lay = normal_layout(ctx, B)
    if lay == 'bad':
        s.bad('CPPSurface.normal', b.loc, 'does not hand point i of (x, y) on and store its normal as point i')
    elif lay is None:
        s.und('CPPSurface.normal', b.loc if b else '', 'binding not understood')
    else:
        s.ok('CPPSurface.normal', b.loc)


def strip_order(v):
    i = T.single_atom(v) if isinstance(v, R) else None
    if i is not None and T.ATOMS[i][0] in ('numpy.asfortranarray', 'numpy.ascontiguousarray', 'numpy.asarray', 'numpy.array', 'numpy.require', 'numpy.atleast_1d', 'numpy.ravel'):
        return strip_order(T.ATOMS[i][1][0])
    return same_values(v)


def normal_layout(ctx, B):
    """How the binding of Surface::normal addresses its arrays, from its summary."""
    def go():
        b = B.member('CPPSurface', 'normal')
        if b is None or b.node is None:
            return None
        body = bind.kids(b.body)
        call = [x for x in bind.walk(b.body) if x.get('kind') == 'CXXMemberCallExpr' and bind.kids(x)[0].get('name') == 'normal']
        if len(call) != 1:
            return None
        env = {}
        ps = [q.get('name') for q in params_of(b.node)]
        for x in bind.walk(b.body):
            if x.get('kind') == 'VarDecl' and bind.kids(x):
                y = bind.strip(bind.kids(x)[-1])
                if y.get('kind') == 'DeclRefExpr' and y['referencedDecl'].get('name') in ps:
                    env[x.get('name')] = y['referencedDecl']['name']
        loop = [x for x in bind.walk(b.body) if x.get('kind') == 'ForStmt']
        if len(loop) != 1:
            return None
        iv = [x.get('name') for x in bind.walk(loop[0]) if x.get('kind') == 'VarDecl']
        if len(iv) < 1:
            return None
        i = iv[0]

        def lin(e):
            """index as {symbol: coefficient}"""
            e = bind.strip(e)
            k = e.get('kind')
            c = bind.kids(e)
            if k == 'DeclRefExpr':
                n = e['referencedDecl'].get('name')
                return {env.get(n, n): 1}
            if k == 'IntegerLiteral':
                return {1: int(e.get('value'))}
            if k == 'BinaryOperator':
                p, q = lin(c[0]), lin(c[1])
                if p is None or q is None:
                    return None
                if e.get('opcode') == '+':
                    r = dict(p)
                    for a, v in q.items():
                        r[a] = r.get(a, 0) + v
                    return r
                if e.get('opcode') == '*':
                    if set(p) == {1}:
                        return {a: v * p[1] for a, v in q.items()}
                    if set(q) == {1}:
                        return {a: v * q[1] for a, v in p.items()}
            return None
        got = []
        for a in bind.kids(call[0])[1:]:
            a = bind.strip(a)
            if a.get('kind') != 'ArraySubscriptExpr':
                return None
            c = bind.kids(a)
            base = bind.strip(c[0])
            if base.get('kind') != 'DeclRefExpr':
                return None
            n = base['referencedDecl'].get('name')
            got.append((env.get(n, n), lin(c[1])))
        if any(l is None for _, l in got) or len(got) != 5:
            return None
        X, Y, SZ, OUT = ps[1:5] if len(ps) == 5 else (None,) * 4
        if X is None:
            return None
        z = lambda d: {k: v for k, v in d.items() if v}
        if [g[0] for g in got] != [X, Y, OUT, OUT, OUT] or z(got[0][1]) != {i: 1} or z(got[1][1]) != {i: 1}:
            return 'bad'
        ix = [z(g[1]) for g in got[2:]]
        if ix == [{i: 1}, {i: 1, SZ: 1}, {i: 1, SZ: 2}]:
            return 'component-major'
        if ix == [{i: 3}, {i: 3, 1: 1}, {i: 3, 1: 2}]:
            return 'point-major'
        return 'bad'
    return ctx.memo('normal-layout', go)


@rule('C22', 'grid-containment', need=5)
def contains_grid(ctx, s):
    """ObscPolygon.containsGrid(x, y): x and y, their own lengths, and an output of ny rows by nx columns."""
    B = bindings(ctx)
    ip = fresh(ctx)
    o = build(ip, 'ObscPolygon')
    x, y = A('gx', 2), A('gy', 3)
    n = len(ip.events)
    res = ip.toplevel(lambda: ip.call_method(o, 'containsGrid', x, y))
    where = loc(ctx, 'ObscPolygon', 'containsGrid')
    ev = [e for e in ip.events[n:] if e.kind == 'call' and e.name == 'containsGrid']
    b = B.member('CPPObscPolygon', 'containsGrid')
    if len(ev) != 1 or b is None:
        s.und('containsGrid', where, 'no native call')
        return
    args = routed(b, ev[0])
    if args is None or len(args) != 5:
        s.und('containsGrid', ev[0].loc, 'argument list of another shape')
        return
    for nm, w, g in (('x', Ptr(x), args[0]), ('y', Ptr(y), args[1]), ('nx', const(2), args[3]), ('ny', const(3), args[4])):
        arg_ok(s, 'containsGrid/' + nm, ev[0].loc, g, w)
    out = pointee(args[2])
    if out is None:
        s.und('containsGrid/out', ev[0].loc, T.show(args[2]))
        return
    judge(s, 'containsGrid/result', where, res, out, known=KNOWN)
    d = shape_of(out)
    if d is None:
        s.und('containsGrid/shape', ev[0].loc, T.show(out))
    else:
        s.check(d == (3, 2), 'containsGrid/shape', ev[0].loc, 'output of shape %s for 2 x values and 3 y values' % (d,))
    done(ctx, ip)


def shape_of(v):
    if isinstance(v, Arr):
        return v.dims
    i = T.single_atom(v) if isinstance(v, R) else None
    if i is not None and T.ATOMS[i][0] in ('numpy.empty', 'numpy.zeros', 'numpy.ones'):
        t = T.ATOMS[i][1][0]
        if isinstance(t, Tup) and all(isinstance(q, R) and T.is_const(q) for q in t.items):
            return tuple(int(T.cval(q)) for q in t.items)
    return None


@rule('C27', 'derived-derivatives', need=60)
def derived_derivatives(ctx, s):
    """Derivatives that are not supplied are those of the supplied heights: exact at every node for heights bilinear in x and
    y, and away from the edges for heights quadratic in each; a supplied one is used for what derives from it."""
    from .buffers import tinterp
    x0, y0, hx, hy = (T.atom('sym:grid.' + n, (), ('real',)) for n in ('x0', 'y0', 'hx', 'hy'))
    a, b, c, d, e, f, g = (T.atom('sym:height.' + n, (), ('real',)) for n in 'abcdefg')
    add, mul, k = T.vadd, T.vmul, const
    NX, NY = 4, 5
    X = [add(x0, mul(k(i), hx)) for i in range(NX)]
    Y = [add(y0, mul(k(j), hy)) for j in range(NY)]
    tot = lambda *t: __import__('functools').reduce(add, t)
    bil = lambda x, y: tot(a, mul(b, x), mul(c, y), mul(d, mul(x, y)))
    quad = lambda x, y: tot(bil(x, y), mul(e, mul(x, x)), mul(f, mul(y, y)))
    q = {'bilinear': (bil, lambda x, y: add(b, mul(d, y)), lambda x, y: add(c, mul(d, x)), lambda x, y: d),
         'quadratic': (quad, lambda x, y: tot(b, mul(d, y), mul(k(2), mul(e, x))), lambda x, y: tot(c, mul(d, x), mul(k(2), mul(f, y))), lambda x, y: d)}
    tab = lambda fn: Arr((NY, NX), {(j, i): fn(X[i], Y[j]) for j in range(NY) for i in range(NX)})
    line = lambda v: Arr((len(v),), {(i,): t for i, t in enumerate(v)})
    where = loc(ctx, 'Bicubic', '__init__')
    for kind, (h, hx_, hy_, hxy_) in q.items():
        for given in ((), ('dzdys',), ('dzdxs',)):
            ip = tinterp(ctx)
            # a supplied table is that of another (also bilinear) surface, so that use of it can be told
            other = {'dzdxs': lambda x, y: add(b, mul(g, y)), 'dzdys': lambda x, y: add(c, mul(g, x))}
            kw = {n: tab(other[n]) for n in given}
            o = ip.toplevel(lambda: ip.construct(ctx.py.cls('Bicubic'), [line(X), line(Y), tab(h)], kw))
            if o is None:
                s.und('%s %s' % (kind, given), where, 'not constructed: %s' % ip.raised[-1:])
                continue
            for nm, fn in (('zs', h), ('dzdxs', hx_), ('dzdys', hy_), ('d2zdxdys', hxy_)):
                if nm in given:
                    fn = other[nm]
                if nm == 'd2zdxdys' and given:
                    continue            # the mixed derivative of inconsistent tables is not determined
                got = ip.toplevel(lambda: ip.getattr(o, nm))
                got = got.to() if hasattr(got, 'to') else got
                tag = '%s%s %s' % (kind, ' with ' + given[0] if given else '', nm)
                if not isinstance(got, Arr) or not hasattr(got, 'items') or tuple(got.dims) != (NY, NX):
                    s.und(tag, where, 'not a table of known entries: %s' % T.show(got) if isinstance(got, R) else str(type(got)))
                    continue
                for (j, i), v in sorted(got.items.items()):
                    if kind == 'quadratic' and nm != 'zs' and nm not in given and not (0 < i < NX - 1 and 0 < j < NY - 1):
                        continue
                    s.same('%s[%d,%d]' % (tag, j, i), where, v, fn(X[i], Y[j]))
            done(ctx, ip)
