"""Value objects: equality, inequality, hashing, pickling, repr."""
import ast
import re
from . import terms as T
from .terms import V, R, ZERO, ONE, const, var
from .core import rule
from .pyvals import Arr, Tup, Ref, Str, Sym, mkstr, MISSING, Cls, Fn, Ext, Bound, DictView
from .pyinterp import Dead, vand, vnot, truthv, NoVerdict
from .py import interp, done, loc, judge, same_values, unclear
from .rules_rays import deep
from .rules_optic import name as symname, boolv


# ------------------------------------------------------------------ parameters
class P:
    """A constructor parameter: the value it is given and values that must tell objects apart."""

    def __init__(self, nm, make, *alts, **kw):
        self.nm, self.make, self.alts, self.kw = nm, make, alts, kw.get('kw', False)
        self.exact = kw.get('exact')


def num(nm):
    return P(nm, lambda ip: var('p.' + nm), ('value', lambda ip: var("q." + nm)), exact=(lambda: var('p.' + nm), lambda: var('q.' + nm)))


def carr(nm, shape, alt=None, last=False):
    import itertools
    ks = list(itertools.product(*[range(d) for d in shape]))
    return Arr(shape, {k: var(('q.%s.%s' if alt and (k == ks[-1] if last else k == ks[0]) else 'p.%s.%s') % (nm, '.'.join(map(str, k)))) for k in ks})


def arr(nm, *shape, **kw):
    longer = tuple(d + 1 for d in shape)
    alts = [('first element', lambda ip: carr(nm, shape, True)), ('last element', lambda ip: carr(nm, shape, True, True))]
    if kw.get('sizes', True):
        alts.append(('size', lambda ip: carr(nm, longer)))
    return P(nm, lambda ip: carr(nm, shape), *alts)


def lst(nm, n):
    mk = lambda m, ch=None: lambda ip: ip.newlist([var(('q.%s.%d' if i == ch else 'p.%s.%d') % (nm, i)) for i in range(m)])
    return P(nm, mk(n), ('first element', mk(n, 0)), ('last element', mk(n, n - 1)), ('size', mk(n + 1)))


def integer(nm, a, b):
    return P(nm, lambda ip: const(a), ('value', lambda ip: const(b)), kw=True)


def obj(nm, mk, *alts, **kw):
    return P(nm, mk, *alts, **kw)


def new(cls, *args):
    return lambda ip: ip.construct(ip.prog.cls(cls), [a(ip) if callable(a) else a for a in args], {})


def tup(*mks):
    return lambda ip: ip.newlist([m(ip) for m in mks])


def rot(nm):
    return lambda ip: Arr((3, 3), {(i, j): var('%s.%d%d' % (nm, i, j)) for i in range(3) for j in range(3)})


def vec3(nm):
    return lambda ip: Arr((3,), {(i,): var('%s.%d' % (nm, i)) for i in range(3)})


def cs(nm):
    return new('CoordSys', vec3(nm + '.o'), rot(nm + '.r'))


sphere = lambda n: new('Sphere', var(n))
quad = lambda n: new('Quadric', var(n), var(n + '.k'))
circle = lambda n: new('ObscCircle', var(n))
rect = lambda n: new('ObscRectangle', var(n), var(n + '.h'))
obsray = lambda n: new('ObscRay', var(n), var(n + '.th'))
glass = lambda n: new('ConstMedium', var(n))
coat = lambda n: new('SimpleCoating', var(n + '.r'), var(n + '.t'))


def six(nm):
    return P(nm, lambda ip: [var('p.%s.%d' % (nm, i)) for i in range(6)],
             *[('coefficient %d' % j, lambda ip, j=j: [var(('q.%s.%d' if i == j else 'p.%s.%d') % (nm, i)) for i in range(6)]) for j in range(6)])


def star(nm, a, *alts):
    return P(nm, lambda ip: [m(ip) for m in a], *[(t, lambda ip, m=m: [x(ip) for x in m]) for t, m in alts])


VALUES = {
    'Plane': [],
    'Tilted': [num('tanx'), num('tany')],
    'Paraboloid': [num('R')],
    'Sphere': [num('R')],
    'Quadric': [num('R'), num('conic')],
    'Asphere': [num('R'), num('conic'), lst('coefs', 3), integer('imin', 2, 3)],
    'Zernike': [arr('coef', 4), num('R_outer'), num('R_inner'), num('x_origin'), num('y_origin')],
    'Bicubic': [arr('xs', 3, sizes=False), arr('ys', 4, sizes=False), arr('zs', 4, 3, sizes=False), arr('dzdxs', 4, 3, sizes=False),
                arr('dzdys', 4, 3, sizes=False), arr('d2zdxdys', 4, 3, sizes=False),
                P('nanpolicy', lambda ip: 'nan', ('value', lambda ip: 'zero'))],
    'Sum': [star('surfaces', (sphere('p.a'), quad('p.b')), ('member', (sphere('p.a'), quad('q.b'))), ('first member', (sphere('q.a'), quad('p.b'))),
                 ('member type', (sphere('p.a'), sphere('p.b'))), ('length', (sphere('p.a'), quad('p.b'), sphere('p.c'))), ('order', (quad('p.b'), sphere('p.a'))))],
    'ConstMedium': [num('n')],
    'TableMedium': [arr('wavelengths', 3, sizes=False), arr('ns', 3, sizes=False)],
    'SellmeierMedium': [six('coefs')],
    'SumitaMedium': [six('coefs')],
    'Air': [num('pressure'), num('temperature'), num('h2o_pressure')],
    'SimpleCoating': [num('reflectivity'), num('transmissivity')],
    'ObscCircle': [num('radius'), num('x'), num('y')],
    'ObscAnnulus': [num('inner'), num('outer'), num('x'), num('y')],
    'ObscRectangle': [num('width'), num('height'), num('x'), num('y'), num('theta')],
    'ObscRay': [num('width'), num('theta'), num('x'), num('y')],
    'ObscPolygon': [arr('xs', 3, sizes=False), arr('ys', 3, sizes=False)],
    'ObscNegation': [obj('original', circle('p.a'), ('radius', circle('q.a')), ('type', rect('p.a')))],
    'ObscUnion': [star('items', (circle('p.a'), rect('p.b')), ('member', (circle('p.a'), rect('q.b'))), ('first member', (circle('q.a'), rect('p.b'))),
                       ('length', (circle('p.a'), rect('p.b'), obsray('p.c'))))],
    'ObscIntersection': [star('items', (circle('p.a'), rect('p.b')), ('member', (circle('p.a'), rect('q.b'))), ('first member', (circle('q.a'), rect('p.b'))),
                              ('length', (circle('p.a'), rect('p.b'), obsray('p.c'))))],
    'Lattice': [arr('array', 2, 3, sizes=False), arr('primitiveVectors', 2, 2, sizes=False)],
    'CoordSys': [arr('origin', 3, sizes=False), arr('rot', 3, 3, sizes=False)],
    'CoordTransform': [obj('fromSys', cs('p.f'), ('value', cs('q.f'))), obj('toSys', cs('p.t'), ('value', cs('q.t')))],
}
COMMON = [P('name', lambda ip: 'one', ('value', lambda ip: 'two'), ('absence', lambda ip: None), kw=True),
          P('coordSys', cs('p.c'), ('value', cs('q.c')), kw=True),
          P('skip', lambda ip: False, ('value', lambda ip: True), kw=True)]
MEDIA = [P('inMedium', glass('p.m'), ('value', glass('q.m')), ('type', new('SellmeierMedium', *[var('p.s%d' % i) for i in range(6)])), kw=True),
         P('outMedium', glass('p.n'), ('value', glass('q.n')), kw=True)]
SURF = P('surface', sphere('p.s'), ('value', sphere('q.s')), ('type', quad('p.s')))
OBSC = P('obscuration', circle('p.o'), ('value', circle('q.o')), ('type', rect('p.o')), ('absence', lambda ip: None), kw=True)
COATS = [P('forwardCoating', coat('p.fc'), ('value', coat('q.fc')), kw=True), P('reverseCoating', coat('p.rc'), ('value', coat('q.rc')), kw=True)]
for _c in ('Interface', 'RefractiveInterface', 'Mirror', 'Detector', 'Baffle'):
    VALUES[_c] = [SURF, OBSC] + COMMON + MEDIA
VALUES['OPDScreen'] = [SURF, P('screen', quad('p.w'), ('value', quad('q.w')), ('type', sphere('p.w'))), OBSC] + COMMON


def iface(c, n, **kw):
    return lambda ip: ip.construct(ip.prog.cls(c), [sphere(n)(ip)], {'name': n, 'coordSys': cs(n)(ip), **{k: v(ip) for k, v in kw.items()}})


EXTRA = [P(q, (lambda q: lambda ip: var('p.' + q))(q), ('value', (lambda q: lambda ip: var('q.' + q))(q)), kw=True) for q in ('pupilSize', 'pupilObscuration', 'backDist', 'sphereRadius')] + [
    P('stopSurface', iface('Interface', 'p.stop'), ('value', iface('Interface', 'q.stop')), kw=True)]
ITEMS = P('items', tup(iface('Mirror', 'a'), iface('Detector', 'b')), ('member', tup(iface('Mirror', 'a'), iface('Detector', 'c'))),
          ('first member', tup(iface('Mirror', 'c'), iface('Detector', 'b'))), ('order', tup(iface('Detector', 'b'), iface('Mirror', 'a'))),
          ('member type', tup(iface('Mirror', 'a'), iface('Baffle', 'b'))),
          ('length', tup(iface('Mirror', 'a'), iface('Detector', 'b'), iface('Baffle', 'c'))))
VALUES['CompoundOptic'] = [ITEMS] + COMMON + MEDIA
LENS = P('items', tup(iface('RefractiveInterface', 'a', outMedium=glass('g')), iface('RefractiveInterface', 'b', inMedium=glass('g'))),
         ('member', tup(iface('RefractiveInterface', 'a', outMedium=glass('g')), iface('RefractiveInterface', 'c', inMedium=glass('g')))),
         ('first member', tup(iface('RefractiveInterface', 'c', outMedium=glass('g')), iface('RefractiveInterface', 'b', inMedium=glass('g')))))
VALUES['Lens'] = [LENS] + COMMON + MEDIA
# groups within which different types must never compare equal even with the same parameters
FAMILY = [('Paraboloid', 'Sphere'), ('Quadric', 'Tilted'), ('SellmeierMedium', 'SumitaMedium'), ('ObscUnion', 'ObscIntersection'), ('ObscCircle', 'ObscNegation'),
          ('ObscAnnulus', 'ObscRay'), ('ObscPolygon', 'TableMedium'), ('Interface', 'RefractiveInterface', 'Mirror', 'Detector', 'Baffle', 'OPDScreen'),
          ('CompoundOptic', 'Lens'), ('Plane', 'Sphere'), ('ConstMedium', 'Air'), ('CoordSys', 'CoordTransform')]
STAR = {'Sum', 'ObscUnion', 'ObscIntersection', 'SellmeierMedium', 'SumitaMedium'}


def build(ip, cls, change=None):
    """An object of cls; change = (parameter, alternative maker)."""
    args, kw = [], {}
    for p in VALUES[cls]:
        mk = change[1] if change and change[0] is p else p.make
        v = mk(ip)
        if p.kw:
            kw[p.nm] = v
        elif cls in STAR:
            args += v
        else:
            args.append(v)
    return ip.construct(ip.prog.cls(cls), args, kw)


def fresh(ctx):
    ip = interp(ctx)
    ip.hooks['numpy.zeros'] = lambda ip, a, k: NotImplemented
    return ip


def exc(raised):
    return '; '.join(sorted({str(x[1]) + ' ' + str(x[-1] or '') for x in raised}))[:200]


def attempt(ip, f):
    """(value, raised) of evaluating f."""
    n = len(ip.raised)
    v = ip.toplevel(f)
    return v, [r for r in ip.raised[n:]]


def image(ip, v, depth=0):
    """Heap-independent image of a value: objects by class and attributes."""
    if isinstance(v, V):
        return T.vmap(lambda l: image(ip, l, depth), v)
    if isinstance(v, Ref):
        o = ip.obj(v)
        if depth > 8:
            return T.unknown('depth')
        if o.kind == 'obj':
            return Tup(['object', o.cls.name if o.cls else None] + [Tup((k, image(ip, x, depth + 1))) for k, x in sorted(o.fields.items()) if x is not MISSING])
        if o.kind in ('list', 'dict'):
            if o.kind == 'list' and isinstance(o.fields.get(0), Tup):
                return Tup(['list'] + [image(ip, x, depth + 1) for x in o.fields[0].items])
            return Tup([o.kind] + [Tup((k, image(ip, x, depth + 1))) for k, x in o.fields.items() if x is not MISSING])
        return v
    if isinstance(v, Tup):
        return Tup([image(ip, x, depth + 1) for x in v.items])
    return v


def where_of(ctx, cls, meth):
    return loc(ctx, cls, meth)


CLASSES = sorted(VALUES)


def each(ctx, s, f, classes=CLASSES):
    for cls in classes:
        ip = fresh(ctx)
        try:
            a, r = attempt(ip, lambda: build(ip, cls))
            if not isinstance(a, Ref):
                s.und(cls, where_of(ctx, cls, '__init__'), 'construction not understood')
                continue
            f(ip, cls, a)
        except (NoVerdict, NotImplementedError) as e:
            s.und(cls, where_of(ctx, cls, '__init__'), str(e))
        done(ctx, ip)


def decided_bool(v):
    return v is True or v is False


def psubst():
    """Substitution making every alternative parameter equal to the original."""
    sub = {}
    for i, (n, args) in enumerate(list(T.ATOMS)):
        if n == 'var' and args and isinstance(args[0], str) and args[0].startswith('q.'):
            j = T.single_atom(T.atom('var', ('p.' + args[0][2:],) + tuple(args[1:]), tuple(T._FLAGS[i])))
            sub[i] = var('p.' + args[0][2:])
    return sub


@rule('C13', 'equality', need=120)
def equality(ctx, s):
    """Objects compare equal exactly when every defining parameter does."""
    def one(ip, cls, a):
        w = where_of(ctx, cls, '__eq__')
        b = ip.toplevel(lambda: build(ip, cls))
        for tag, x, y in (('same parameters', a, b), ('itself', a, a)):
            v, r = attempt(ip, lambda: ip.compare('Eq', x, y))
            outcome(s, '%s.%s' % (cls, tag), w, v, r, True, 'objects built from the same parameters do not compare equal')
            v, r = attempt(ip, lambda: ip.compare('NotEq', x, y))
            outcome(s, '%s.%s (!=)' % (cls, tag), w, v, r, False, '!= is not the negation of ==')
        for p in VALUES[cls]:
            for tag, mk in p.alts:
                sub = '%s.%s %s' % (cls, p.nm, tag)
                b = ip.toplevel(lambda: build(ip, cls, (p, mk)))
                if not isinstance(b, Ref):
                    s.und(sub, w, 'construction not understood')
                    continue
                v, r = attempt(ip, lambda: ip.compare('Eq', a, b))
                differs(s, sub, w, v, r, p.nm)
                n, r2 = attempt(ip, lambda: ip.compare('NotEq', a, b))
                if v is not None and n is not None:
                    judge(s, sub + ' (!=)', w, truthv(ip.truth(n)), vnot(truthv(ip.truth(v))), known=('array_equal', 'native:*', 'eq', 'any', 'all'), msg='!= is not the negation of ==')
                v2, r = attempt(ip, lambda: ip.compare('Eq', b, a))
                if v is not None and v2 is not None:
                    judge(s, sub + ' (symmetry)', w, truthv(ip.truth(v2)), truthv(ip.truth(v)), known=('array_equal', 'native:*', 'eq', 'any', 'all'), msg='== is not symmetric')
        for tag, other in (('None', None), ('a number', const(3)), ('text', 'Plane()'), ('a tuple', Tup((const(1), const(2))))):
            v, r = attempt(ip, lambda: ip.compare('Eq', a, other))
            outcome(s, '%s and %s' % (cls, tag), w, v, r, False, 'compares equal to an object of another type')
    each(ctx, s, one)
    for fam in FAMILY:
        ip = fresh(ctx)
        try:
            objs = [(c, ip.toplevel(lambda: build(ip, c))) for c in fam]
        except NoVerdict as e:
            s.und('/'.join(fam), '', str(e))
            continue
        for ca, a in objs:
            for cb, b in objs:
                if ca != cb and isinstance(a, Ref) and isinstance(b, Ref):
                    v, r = attempt(ip, lambda: ip.compare('Eq', a, b))
                    outcome(s, '%s and %s' % (ca, cb), where_of(ctx, ca, '__eq__'), v, r, False, 'objects of different types compare equal')
    # types given equal-looking parameters
    for ca, cb, pa, pb in (('Sphere', 'Paraboloid', None, None), ('SellmeierMedium', 'SumitaMedium', None, None), ('ObscUnion', 'ObscIntersection', None, None)):
        pass


def outcome(s, sub, w, v, raised, want, msg):
    if raised and v is None:
        s.bad(sub, w, 'comparing raises %s' % exc(raised))
        return
    v = truthv(same_values(v)) if v is not None else None
    if v is None:
        s.und(sub, w, 'no value')
    elif v is want:
        s.ok(sub, w)
    else:
        judge(s, sub, w, v, want, known=('array_equal', 'native:*', 'eq'), msg=msg)


def differs(s, sub, w, v, raised, pname):
    """v is the outcome of comparing two objects that differ in one parameter."""
    if v is None:
        if raised:
            s.bad(sub, w, 'comparing objects that differ in %s raises %s' % (pname, exc(raised)))
        else:
            s.und(sub, w, 'no value')
        return
    v = truthv(same_values(v))
    if v is False:
        s.ok(sub, w)
        return
    if v is True:
        s.bad(sub, w, 'objects that differ in %s compare equal' % pname)
        return
    names = {T.ATOMS[i][1][0] for i in T.all_atoms(v) if T.ATOMS[i][0] == 'var'}
    if not any(isinstance(n, str) and n.startswith('q.') for n in names):
        u = unclear(v, ('array_equal', 'native:*', 'eq'))
        (s.und if u else s.bad)(sub, w, 'the outcome does not depend on the %s of the other object: %s' % (pname, T.show(v)))
        return
    # equal as soon as the parameter is
    r = truthv(same_values(deep(v, psubst())))
    if r is True:
        u = unclear(v, ('array_equal', 'native:*', 'eq'))
        # and different when it is not: forced unequal
        ne = T.vmap(lambda l: l, v)
        f = forced(v)
        if f is False:
            s.ok(sub, w)
        elif u or f is None:
            s.und(sub, w, T.show(v))
        else:
            s.bad(sub, w, 'objects that differ in %s can compare equal: %s' % (pname, T.show(v)))
    else:
        u = unclear(v, ('array_equal', 'native:*', 'eq')) or not decided_bool(r)
        (s.und if u else s.bad)(sub, w, 'objects with equal parameters compare unequal: ' + T.show(v))


def forced(v):
    """v with every equality between a p. and its own q. parameter taken false: the resulting constant, or None."""
    if not isinstance(v, V):
        return v if isinstance(v, bool) else None
    n, args = T.ATOMS[v.c]
    names = {T.ATOMS[d][1][0] for d in T.deep_atoms(v.c) if T.ATOMS[d][0] == 'var' and isinstance(T.ATOMS[d][1][0], str)}
    qs = {x for x in names if x.startswith('q.')}
    if n in ('eq0', 'eq', 'array_equal') and qs and names == qs | {'p.' + x[2:] for x in qs}:
        return forced(v.lo)
    a, b = forced(v.hi), forced(v.lo)
    return a if a is b else None


# ------------------------------------------------------------------------ hash
def hashable(ci):
    for c in ci.mro():
        h = c.methods.get('__hash__', c.assigns.get('__hash__'))
        if isinstance(h, ast.FunctionDef):
            return True
        if h is not None or '__eq__' in c.methods:
            return False
    return False


@rule('C13', 'hash', need=60)
def hashing(ctx, s):
    """Objects that compare equal hash equal, and every value type that can be hashed hashes."""
    known = ('hash', 'array_equal', 'native:*', 'eq')

    def one(ip, cls, a):
        w = where_of(ctx, cls, '__hash__')
        b = ip.toplevel(lambda: build(ip, cls))
        s.check(hashable(ctx.py.cls(cls)), cls + '.hashable', w, 'cannot be hashed')
        if not hashable(ctx.py.cls(cls)):
            return
        ha, r = attempt(ip, lambda: ip.b_hash([a], {}))
        if ha is None:
            (s.bad if r else s.und)(cls + '.hash', w, 'hashing raises %s' % exc(r))
            return
        hb = ip.toplevel(lambda: ip.b_hash([b], {}))
        judge(s, cls + '.hash', w, same_values(hb), same_values(ha), known=known + ('id',), msg='two equal objects hash differently')
        for p in VALUES[cls]:
            for tag, mk in p.alts:
                sub = '%s.%s %s' % (cls, p.nm, tag)
                c = ip.toplevel(lambda: build(ip, cls, (p, mk)))
                if not isinstance(c, Ref):
                    continue
                e = ip.toplevel(lambda: truthv(ip.truth(ip.compare('Eq', a, c))))
                e = same_values(e) if e is not None else None
                hc = ip.toplevel(lambda: ip.b_hash([c], {}))
                if e is None or hc is None:
                    continue
                if e is True:
                    judge(s, sub, w, same_values(hc), same_values(ha), known=known, msg='objects that compare equal hash differently')
                elif e is not False:
                    judge(s, sub, w, same_values(deep(same_values(hc), psubst())), same_values(ha), known=known, msg='objects that compare equal hash differently')
    each(ctx, s, one)
    # representations that compare equal
    ip = fresh(ctx)
    P0 = VALUES['Bicubic'][-1]
    for x, y in (('nan', 'NAN'), ('zero', 'Zero')):
        a, b = (ip.toplevel(lambda: build(ip, 'Bicubic', (P0, lambda ip, q=q: q))) for q in (x, y))
        if not (isinstance(a, Ref) and isinstance(b, Ref)):
            continue
        e = ip.toplevel(lambda: truthv(ip.truth(ip.compare('Eq', a, b))))
        if e is True:
            judge(s, 'Bicubic.nanpolicy %s/%s' % (x, y), where_of(ctx, 'Bicubic', '__hash__'), ip.toplevel(lambda: ip.b_hash([b], {})), ip.toplevel(lambda: ip.b_hash([a], {})), known=known,
                  msg='objects that compare equal hash differently')
    # containers of another type holding the same numbers
    for cls, p in (('Asphere', VALUES['Asphere'][2]),):
        a = ip.toplevel(lambda: build(ip, cls))
        for tag, mk in (('tuple', lambda ip: Tup([var('p.coefs.%d' % i) for i in range(3)])), ('array', lambda ip: carr('coefs', (3,)))):
            b = ip.toplevel(lambda: build(ip, cls, (p, mk)))
            if not (isinstance(a, Ref) and isinstance(b, Ref)):
                continue
            e = ip.toplevel(lambda: truthv(ip.truth(ip.compare('Eq', a, b))))
            hb, r = attempt(ip, lambda: ip.b_hash([b], {}))
            w = where_of(ctx, cls, '__hash__')
            if hb is None:
                (s.bad if r else s.und)('%s of a %s' % (cls, tag), w, 'hashing raises %s' % exc(r))
            elif e is True:
                judge(s, '%s of a %s' % (cls, tag), w, hb, ip.toplevel(lambda: ip.b_hash([a], {})), known=known, msg='objects that compare equal hash differently')


# --------------------------------------------------------------------- pickling
@rule('C13', 'pickle', need=28)
def pickling(ctx, s):
    """State restored from what was saved gives an object with the same attributes and native counterpart."""
    def one(ip, cls, a):
        ci = ctx.py.cls(cls)
        w = where_of(ctx, cls, '__getstate__') if ci.find('__getstate__') else where_of(ctx, cls, '__reduce__') if ci.find('__reduce__') else where_of(ctx, cls, None)
        b = restored(ip, ci, a, s, cls, w)
        if b is None:
            return
        compare_objects(ctx, s, ip, cls, w, b, a, 'unpickled object differs')
    each(ctx, s, one)


def native_fields(ip, o):
    return [k for k, v in o.fields.items() if isinstance(v, R) and (lambda i: i is not None and str(T.ATOMS[i][0]).startswith('native:'))(T.single_atom(v))]


def restored(ip, ci, a, s, cls, w):
    for m in ('__reduce_ex__', '__reduce__'):
        if ci.find(m):
            r, raised = attempt(ip, lambda: ip.call(ip.getattr(a, m), [const(2)] if m == '__reduce_ex__' else [], {}))
            if not isinstance(r, Tup) or len(r.items) < 2:
                s.und(cls + '.' + m, w, T.show(r))
                return None
            b, raised = attempt(ip, lambda: ip.call(r.items[0], list(r.items[1].items), {}))
            if len(r.items) > 2 and r.items[2] is not None and isinstance(b, Ref):
                put(ip, ci, b, r.items[2])
            return b if isinstance(b, Ref) else None
    b = ip.instance(ci)
    if ci.find('__getnewargs__') or ci.find('__getnewargs_ex__') or ci.find('__new__'):
        s.und(cls + '.__getnewargs__', w, 'not modelled')
        return None
    if ci.find('__getstate__'):
        st, raised = attempt(ip, lambda: ip.call(ip.getattr(a, '__getstate__'), [], {}))
        if raised and st is None:
            s.bad(cls + '.state', w, 'saving the state raises %s' % (raised,))
            return None
        empty = isinstance(st, Tup) and not st.items or st is None or isinstance(st, str) and st == '' or isinstance(st, Ref) and ip.obj(st).kind in ('list', 'dict') and ip.truth(st) is False
        if empty and ci.find('__setstate__'):
            s.bad(cls + '.state', w, 'an empty state is not restored by every pickle protocol')
            return None
        s.check(not has_handle(ip, st), cls + '.state', w, 'the saved state holds a native object')
    else:
        st = None
        o = ip.obj(a)
        nat = native_fields(ip, o)
        if nat:
            s.bad(cls + '.state', w, 'the native member %s is pickled' % ', '.join(nat))
            return None
        st = ip.newdict([(k, v) for k, v in o.fields.items() if v is not MISSING])
    x, raised = attempt(ip, lambda: put(ip, ci, b, st))
    if raised and x is None:
        s.bad(cls + '.restore', w, 'restoring the state raises %s' % exc(raised))
        return None
    return b


def put(ip, ci, b, st):
    if ci.find('__setstate__'):
        ip.call(ip.getattr(b, '__setstate__'), [st], {})
        return True
    if isinstance(st, Ref) and (isinstance(st, DictView) or ip.obj(st).kind in ('dict', 'obj')):
        src = ip.obj(st).fields
        for k, v in src.items():
            ip.wr(b).fields[k] = v
        return True
    raise NoVerdict('state of unknown kind')


def has_handle(ip, v, depth=0):
    if depth > 6:
        return False
    if isinstance(v, Tup):
        return any(has_handle(ip, x, depth + 1) for x in v.items)
    if isinstance(v, R):
        i = T.single_atom(v)
        return i is not None and str(T.ATOMS[i][0]).startswith('native:CPP')
    return False


def compare_objects(ctx, s, ip, cls, w, b, a, msg):
    fa, fb = ip.obj(a).fields, ip.obj(b).fields
    oa, ob = ip.obj(a).cls, ip.obj(b).cls
    if oa is not ob:
        s.bad(cls + '.type', w, 'a %s comes back as a %s' % (oa.name, ob.name if ob else '?'))
        return
    cached = {k for k in fa if isinstance(oa.find(k) and oa.find(k)[1], ast.FunctionDef)}
    for k in sorted(set(fa) | set(fb)):
        if k in cached:
            continue
        x, y = fa.get(k, MISSING), fb.get(k, MISSING)
        if x is MISSING or y is MISSING:
            s.bad('%s.%s' % (cls, k), w, msg + ': attribute %s is %s' % (k, 'lost' if y is MISSING else 'added'))
            continue
        gi, wi = same_values(image(ip, y)), same_values(image(ip, x))
        if T.veq(gi, wi):
            s.ok('%s.%s' % (cls, k), w)
        else:
            judge(s, '%s.%s' % (cls, k), w, gi, wi, known=('native:*', 'numpy.linspace', 'galsim*', 'attr', 'int', 'float'), msg=msg)


# ------------------------------------------------------------------------- repr
class Bad(Exception):
    pass


def token(v, conv):
    """What a piece of text made from v evaluates to."""
    i = T.single_atom(v) if isinstance(v, R) else None
    if i is None:
        raise NoVerdict('text ' + T.show(v))
    n, args = T.ATOMS[i]
    if n == 'repr':
        return args[0]
    if n == 'str':
        x = args[0]
        if isinstance(x, Arr):
            raise Bad('an array is printed in a form that does not evaluate (str instead of repr)')
        if isinstance(x, R):
            j = T.single_atom(x)
            if j is not None:
                m = T.ATOMS[j][0]
                if m in ('.replace', '.strip', 'numpy.array2string', '.join', '.rstrip'):
                    return listing(x)
                if m in ('numpy.array_repr', 'numpy.array_str'):
                    raise NoVerdict(m)
            if 'obj' not in (T._FLAGS[j] if j is not None else ()):
                return x
        raise NoVerdict('text of ' + T.show(x))
    if n == 'format':
        x, spec = args
        if isinstance(spec, str) and isinstance(x, R):
            m = re.match(r'^[<>=^+ ]*\d*\.(\d+)([eEgGfF])$', spec)
            if m and (int(m.group(1)) < (17 if m.group(2) in 'gG' else 16) or m.group(2) in 'fF'):
                raise Bad('digits are lost by the format ' + spec)
            if m or spec in ('r', 's', ''):
                return x
        raise NoVerdict('format ' + str(spec))
    if n in ('.replace', 'numpy.array2string', '.strip', 'numpy.array_repr'):
        return listing(v)
    raise NoVerdict('text ' + T.show(v))


def listing(x):
    j = T.single_atom(x)
    n, args = T.ATOMS[j]
    if n in ('.replace', '.strip', '.rstrip'):
        if n == '.replace' and not (len(args) == 3 and isinstance(args[1], str) and args[1].strip() == ''):
            raise NoVerdict('replace')
        return listing(args[0])
    kw = {a.items[0]: a.items[1] for a in args if isinstance(a, Tup) and len(a.items) == 2 and isinstance(a.items[0], str)}
    kw.update({a[0]: a[1] for a in args if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str)})
    if n == 'numpy.array2string':
        sep = kw.get('separator')
        if not (isinstance(sep, str) and ',' in sep):
            raise Bad('array elements are printed without separators')
        p = kw.get('precision')
        if p is not None and T.is_const(p) and T.const_val(p) < 16:
            raise Bad('digits are lost')
        return args[0]
    if n == 'numpy.array_repr':
        return args[0]
    raise NoVerdict(n)


def evaluate(ctx, ip, text):
    """The value of the expression in text, in the namespace of the package and numpy's array."""
    parts = text.parts if isinstance(text, Str) else (text,)
    env, src = {}, ''
    for p in parts:
        if isinstance(p, str):
            src += p
        elif isinstance(p, Sym):
            raise NoVerdict('name')
        else:
            v = token(p, None)
            k = '__p%d' % len(env)
            env[k] = v
            src += ' ' + k + ' ' if not (src[-1:] in '\'"') else k
    try:
        tree = ast.parse(src.strip(), mode='eval').body
    except SyntaxError:
        raise Bad('is not an expression: ' + src[:160])
    fr = ip.alloc('frame', None, dict(env))
    ip.wr(fr).fields['array'] = Ext('numpy.array')
    old = ip.frame, ip.mod
    ip.frame, ip.mod = fr, ctx.py.mods['__init__']
    try:
        return attempt(ip, lambda: ip.ev(tree))
    finally:
        ip.frame, ip.mod = old


def root(e, a):
    """The value of atom a at which the expression affine in it vanishes."""
    f = [T.rsubst(e, {a: const(k)}) for k in range(3)]
    d = T.vsub(f[1], f[0])
    if T.is_const(d) and not T.veq(d, ZERO) and T.veq(T.vsub(f[2], f[1]), d):
        return T.vdiv(T.vsub(ZERO, f[0]), d)
    return None


def solve(path):
    """Substitution implied by the equalities on a path."""
    sub = {}
    for c, bit in path:
        n, args = T.ATOMS[c]
        if n == 'eq0' and bit and isinstance(args[0], R):
            for a in sorted(T.val_atoms(args[0])):
                if T.ATOMS[a][0] == 'var':
                    x = root(args[0], a)
                    if x is not None:
                        sub[a] = x
                        break
    return sub


def spelled(t, path=()):
    """(path, text) with every gated piece decided."""
    for p, l in T.leaves(t, path):
        v = [q for q in l.parts if isinstance(q, V)] if isinstance(l, Str) else []
        if not v:
            yield p, l
            continue
        k = [i for i, q in enumerate(l.parts) if isinstance(q, V)][0]
        for p2, q in T.leaves(v[0], p):
            yield from spelled(mkstr(list(l.parts[:k]) + [q] + list(l.parts[k + 1:])), p2)


@rule('C13', 'repr', need=60)
def printing(ctx, s):
    """The printed form of an object evaluates to an equal object."""
    def one(ip, cls, a, tag=''):
        w = where_of(ctx, cls, '__repr__')
        if ctx.py.cls(cls).find('__repr__') is None:
            s.und(cls + '.repr', w, 'no printed form')
            return
        t, r = attempt(ip, lambda: ip.text(a, 'r'))
        if t is None:
            (s.bad if r else s.und)(cls + tag + '.repr', w, 'printing raises %s' % exc(r))
            return
        n = 0
        for path, l in spelled(t):
            n += 1
            try:
                b, raised = evaluate(ctx, ip, l)
            except Bad as e:
                s.bad('%s%s.repr' % (cls, tag), w, str(e))
                continue
            except NoVerdict as e:
                s.und('%s%s.repr' % (cls, tag), w, str(e))
                continue
            if not isinstance(b, Ref):
                (s.bad if raised else s.und)('%s%s.repr' % (cls, tag), w, 'evaluating the printed form raises %s' % exc(raised))
                continue
            sub = solve(path)
            fa, fb = ip.obj(a).fields, ip.obj(b).fields
            if ip.obj(b).cls is not ip.obj(a).cls:
                s.bad('%s%s.repr' % (cls, tag), w, 'evaluates to a ' + ip.obj(b).cls.name)
                continue
            for k in sorted(set(fa) | set(fb)):
                o = ip.obj(a).cls.find(k)
                if o and isinstance(o[1], ast.FunctionDef):
                    continue
                x, y = (same_values(image(ip, q.get(k, MISSING))) if q.get(k, MISSING) is not MISSING else MISSING for q in (fa, fb))
                sb = '%s%s.repr.%s%s' % (cls, tag, k, '' if not path else ' case %d' % n)
                if x is MISSING or y is MISSING:
                    s.bad(sb, w, 'attribute %s is lost when the printed form is evaluated' % k)
                    continue
                if sub:
                    x, y = same_values(deep(x, sub)), same_values(deep(y, sub))
                if T.veq(x, y):
                    s.ok(sb, w)
                else:
                    judge(s, sb, w, y, x, known=('native:*', 'galsim*', 'attr', 'int', 'float', 'numpy.*'), msg='evaluating the printed form gives another value')
    each(ctx, s, one)
    # parameters away from and at their defaults
    for cls in CLASSES:
        for p in VALUES[cls]:
            for tag, mk in p.alts:
                if tag in ('value', 'absence', 'size') and (p.kw or cls == 'Bicubic'):
                    ip = fresh(ctx)
                    try:
                        a = ip.toplevel(lambda: build(ip, cls, (p, mk)))
                        if isinstance(a, Ref):
                            one(ip, cls, a, ' (%s %s)' % (p.nm, tag))
                    except (NoVerdict, NotImplementedError) as e:
                        s.und(cls, '', str(e))
                    done(ctx, ip)


# ---------------------------------------------------------------- ray bundles
@rule('C13', 'rays', need=30)
def bundles(ctx, s):
    """Ray bundles: equality compares the native contents and the frame; pickling and printing keep everything."""
    from .rules_rays import rays
    from .rules_trace import FIELDS
    from .rules_frames import thing
    ip = fresh(ctx)
    w = where_of(ctx, 'RayVector', '__eq__')
    c = cs('p.c')(ip)
    a, b = rays(ip, 'p.rv', c), rays(ip, 'p.rv', c)
    for x, h in ((a, 'p.rv'), (b, 'q.rv')):
        ip.wr(x).fields['_rv'] = thing(h + '._rv')
    v, r = attempt(ip, lambda: truthv(ip.truth(ip.compare('Eq', a, b))))
    depends(s, 'contents', w, v, 'q.rv._rv', 'the contents are not compared')
    n, r = attempt(ip, lambda: truthv(ip.truth(ip.compare('NotEq', a, b))))
    if v is not None and n is not None:
        judge(s, 'contents (!=)', w, n, vnot(v), known=('eq', 'native:*'), msg='!= is not the negation of ==')
    d = rays(ip, 'p.rv', cs('q.c')(ip))
    v, r = attempt(ip, lambda: truthv(ip.truth(ip.compare('Eq', a, d))))
    depends(s, 'frame', w, v, 'q.c.', 'the coordinate system is not compared')
    for tag, other in (('None', None), ('a number', const(3)), ('a tuple', Tup((ONE,)))):
        v, r = attempt(ip, lambda: ip.compare('Eq', a, other))
        outcome(s, 'rays and ' + tag, w, v, r, False, 'compares equal to an object of another type')
    done(ctx, ip)
    # pickling
    ip = fresh(ctx)
    a = rays(ip, 'p.rv', cs('p.c')(ip))
    w = where_of(ctx, 'RayVector', '__getstate__')
    ci = ctx.py.cls('RayVector')
    b = restored(ip, ci, a, s, 'RayVector', w)
    if b is not None:
        for q in FIELDS:
            judge(s, 'pickle ' + q, w, ip.toplevel(lambda: ip.getattr(b, q)), ip.toplevel(lambda: ip.getattr(a, q)), msg='unpickled rays differ')
        judge(s, 'pickle coordSys', w, image(ip, ip.getattr(b, 'coordSys')), image(ip, ip.getattr(a, 'coordSys')), msg='unpickled rays differ')
    w = where_of(ctx, 'RayVector', '__repr__')
    a = rays(ip, 'p.rv', cs('p.c')(ip), True)
    t, r = attempt(ip, lambda: ip.text(a, 'r'))
    for path, l in spelled(t):
        try:
            b, raised = evaluate(ctx, ip, l)
        except Bad as e:
            s.bad('repr', w, str(e))
            continue
        except NoVerdict as e:
            s.und('repr', w, str(e))
            continue
        if not isinstance(b, Ref):
            (s.bad if raised else s.und)('repr', w, 'evaluating the printed form raises %s' % exc(raised))
            continue
        for q in FIELDS:
            judge(s, 'repr ' + q, w, ip.toplevel(lambda: ip.getattr(b, q)), ip.toplevel(lambda: ip.getattr(a, q)), known=('numpy.broadcast*', 'attr'), msg='evaluating the printed form gives other rays')
        judge(s, 'repr coordSys', w, image(ip, ip.getattr(b, 'coordSys')), image(ip, ip.getattr(a, 'coordSys')), msg='evaluating the printed form gives another frame')
    done(ctx, ip)


def depends(s, sub, w, v, name, msg):
    if v is None:
        s.und(sub, w, 'no value')
    elif isinstance(v, bool):
        (s.ok if v is False else s.bad)(sub, w, '' if v is False else msg)
    else:
        names = {T.ATOMS[i][1][0] for i in T.all_atoms(v) if T.ATOMS[i][0] == 'var'}
        hit = any(isinstance(n, str) and n.startswith(name) for n in names)
        u = unclear(v, ('array_equal', 'native:*', 'eq'))
        (s.ok if hit else s.und if u else s.bad)(sub, w, '' if hit else msg + ': ' + T.show(v))


@rule('C13', 'native-rays', need=30)
def native_rays(ctx, s):
    """The native comparison covers every quantity of every ray and never reads beyond either bundle."""
    from . import cpp
    from .cpp import FIELDS
    Rn = cpp.surface(ctx, 'RayVector', 'operator==')
    w = Rn.loc
    v = truthv(Rn.ret)

    def side(base):
        if isinstance(base, tuple) and base[0] == 'f':
            x = base[1]
            if isinstance(x, tuple) and x[0] == 'f' and x[1] == 'rhs':
                return 'rhs', x[2]
            if isinstance(x, tuple) and x[0] == 'elem':
                d = x[1].get('data') if hasattr(x[1], 'get') else None
                if isinstance(d, tuple) and d[0] == 'ptr':
                    d = d[1]
                if isinstance(d, tuple) and d[0] == 'param':
                    return 'this', d[1].lstrip('_')
            if isinstance(x, tuple) and x[0] == 'f' and x[1] in ('this', ('obj', 'this')):
                return 'this', x[2]
        return None

    def quantity(i):
        """(fields of this, fields of rhs, indices) an atom compares."""
        mine, other = set(), set()
        for d in T.deep_atoms(i):
            n, args = T.ATOMS[d]
            if n == 'load':
                q = side(args[0])
                if q is None:
                    return None
                (mine if q[0] == 'this' else other).add(q[1])
        return mine, other
    kinds = {}
    for i in T.val_atoms(v) if isinstance(v, V) else ():
        kinds[i] = (T.ATOMS[i][0], quantity(i))
    bad = [(n, [T.ATOMS[d][1] for d in T.deep_atoms(i) if T.ATOMS[d][0] == 'load']) for i, (n, q) in kinds.items() if q is None or n not in ('any', 'eq0')]
    if not isinstance(v, V) or bad:
        (s.bad if v is True else s.und)('result', w, 'always equal' if v is True else 'not understood: %s' % bad[:1])
        return

    def value(assign):
        x = v
        while isinstance(x, V):
            x = x.hi if assign(x.c) else x.lo
        return x
    for i, (n, q) in sorted(kinds.items()):
        if n == 'any' and q[0] | q[1]:
            sub = 'pairs ' + '/'.join(sorted(q[0] | q[1]))
            s.check(q[0] == q[1] and len(q[0]) == 1, sub, w, 'compares %s with %s of the other bundle' % (sorted(q[0]), sorted(q[1])))
    for f in FIELDS:
        def assign(i, f=f):
            n, q = kinds[i]
            if n == 'eq0':
                return True
            return f in q[0] | q[1]
        s.check(value(assign) is False, f, w, 'bundles that differ in %s compare equal' % f)
    s.check(value(lambda i: kinds[i][0] == 'eq0') is True, 'equal bundles', w, 'bundles with the same contents compare unequal')
    s.check(value(lambda i: False) is False, 'sizes', w, 'bundles of different sizes compare equal')
    # reads within bounds
    for l in Rn.loops:
        for e in l['events'] or ():
            if e['kind'] == 'load' and side(e['base']) and side(e['base'])[0] == 'rhs':
                f = side(e['base'])[1]
                g = truthv(l['guard'])
                n = l['n']
                if isinstance(n, R) and any(T.ATOMS[a][0] == 'field' and T.ATOMS[a][1][0] == ('obj', ('f', 'rhs', f)) for a in T.all_atoms(n)):
                    s.ok('bounds ' + f, w)
                    continue
                cond = None
                for a in T.val_atoms(g) if isinstance(g, V) else ():
                    if T.ATOMS[a][0] == 'eq0' and isinstance(n, R):
                        names = [T.ATOMS[x][1] for x in T.all_atoms(T.ATOMS[a][1][0]) if T.ATOMS[x][0] == 'field']
                        if any(x[1] == 'size' and x[0] == ('obj', ('f', 'rhs', f)) for x in names):
                            if vand(g, vnot(T.bool_atom_v(a))) is False:
                                cond = a
                s.check(cond is not None, 'bounds ' + f, w, 'reads %s of the other bundle without having compared the sizes' % f)


# --------------------------------------------------------- coatings and extras
@rule('C13', 'optic-extras', need=0)
def extras(ctx, s):
    """Coatings and further attributes of optics take part in equality and printing."""
    for group, classes, params in (('coatings', ('RefractiveInterface', 'Mirror', 'Detector', 'Baffle'), COATS), ('attributes', ('CompoundOptic',), EXTRA)):
        for p in params:
            res = {}
            for cls in classes:
                ip = fresh(ctx)

                def mk(change=None):
                    kw = {}
                    args = []
                    for q in VALUES[cls] + [p]:
                        m = change if q is p and change else q.make
                        (kw.__setitem__(q.nm, m(ip)) if q.kw else args.append(m(ip)))
                    return ip.construct(ip.prog.cls(cls), args, kw)
                try:
                    a, b = ip.toplevel(lambda: mk()), ip.toplevel(lambda: mk(p.alts[0][1]))
                    v, r = attempt(ip, lambda: truthv(ip.truth(ip.compare('Eq', a, b))))
                    res[cls + '.%s.eq', where_of(ctx, cls, '__eq__')] = None if v is None else v is True
                    t, r = attempt(ip, lambda: ip.text(a, 'r'))
                    for path, l in spelled(t):
                        try:
                            c, raised = evaluate(ctx, ip, l)
                            x, y = ip.obj(a).fields.get(p.nm), ip.obj(c).fields.get(p.nm, MISSING) if isinstance(c, Ref) else None
                            same = y is not MISSING and T.veq(same_values(image(ip, x)), same_values(image(ip, y)))
                            res[cls + '.%s.repr', where_of(ctx, cls, '__repr__')] = not same
                        except (Bad, NoVerdict) as e:
                            res[cls + '.%s.repr', where_of(ctx, cls, '__repr__')] = None
                        break
                except NoVerdict as e:
                    s.und('%s.%s' % (cls, p.nm), '', str(e))
                done(ctx, ip)
            for (what, w), bad in sorted(res.items()):
                key = what % p.nm
                (s.und if bad is None else s.bad if bad else s.ok)(key, w, 'does not take %s into account' % p.nm)
