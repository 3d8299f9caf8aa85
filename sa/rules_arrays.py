"""C11: every buffer handed to native code has the element type, layout, extent and lifetime that the native side assumes."""
import ast
from . import terms as T
from .terms import V, R, const, var
from .core import rule
from .cfront import AnalysisBroken, params_of
from .pyvals import Arr, Tup, Ref, Cls, MISSING
from .py import done, loc
from .buffers import TInterp, tinterp, user, contiguous, Meta
from .rules_native import bindings, pointee, routed, class_of
from .rules_frames import thing
from .rules_factory import Run, GIVEN
from . import bind

REAL = lambda n: T.atom('var', (n,), ('real',))
COLS = ('x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux', 'vignetted', 'failed')
PTR = {'double': 'f8', 'bool': 'b1', 'std::complex<double>': 'c16', 'complex<double>': 'c16'}
SAID = {'f8': 'double', 'b1': 'bool', 'c16': 'complex'}


def ctype(t):
    t = t.replace('const', '').replace('batoid::', '').replace('std::', '').strip()
    if not t.endswith('*') or t.endswith('**'):
        return None
    return t[:-1].strip()


def casts(b):
    """Python-side parameter index -> element type the binding reinterprets its address as."""
    out = {}
    if b is None or b.node is None or not hasattr(b, 'body'):
        return out
    names = [p.get('name') for p in params_of(b.node)]
    for x in bind.walk(b.body):
        if x.get('kind') in ('CXXReinterpretCastExpr', 'CStyleCastExpr') and ctype(bind.qt(x)):
            s = bind.strip(x)
            d = (s.get('referencedDecl') or {}).get('name')
            if d in names:
                out[names.index(d) - (1 if self_first(b) else 0)] = ctype(bind.qt(x))
    return out


def self_first(b):
    if getattr(b, 'lambda_self', False):
        return True
    ps = params_of(b.node) if b.node is not None else []
    return bool(ps) and '&' in bind.qt(ps[0]) and 'batoid' in bind.qt(ps[0]) + str(ps[0].get('type')) and b.name != '__init__' and 'size_t' not in bind.qt(ps[0])


# extents by C++ target: routed C++ arguments -> {argument index: elements used}
mul = T.rmul
EXT = {
    ('ctor', 'TableMedium'): lambda a: {0: a[2], 1: a[2]},
    ('ctor', 'ObscPolygon'): lambda a: {0: a[2], 1: a[2]},
    ('ctor', 'Asphere'): lambda a: {2: a[3]},
    ('ctor', 'Table'): lambda a: {i: mul(a[8], a[9]) for i in (4, 5, 6, 7)},
    ('ctor', 'RayVector'): lambda a: {i: a[11] for i in range(11)},
    ('function', 'finishParallel'): lambda a: {i: a[6] for i in (3, 4, 5)},
    ('function', 'applyForwardTransformArrays'): lambda a: {i: a[5] for i in (2, 3, 4)},
    ('function', 'applyReverseTransformArrays'): lambda a: {i: a[5] for i in (2, 3, 4)},
    ('method', 'containsGrid'): lambda a: {0: a[3], 1: a[4], 2: mul(a[3], a[4])},
}
# layout of the buffers that have two axes
ORDER = {'Table': 'C', 'containsGrid': 'C', 'normal': 'F'}


class Site:
    """One native call with buffers, as seen by one analysed path."""

    def __init__(self, e, b, kind, target, args, idx, types):
        self.e, self.b, self.kind, self.target, self.args, self.idx, self.types = e, b, kind, target, args, idx, types


def address(v):
    """An address of array data (of an array we follow or not)."""
    i = T.single_atom(v) if isinstance(v, R) else None
    return i is not None and T.ATOMS[i][0] == 'attr' and T.ATOMS[i][1][1] == 'data'


def sites(ctx, ip, n=0):
    """Native calls of the events since n that pass addresses: [(event, binding, routed args, {C++ arg index: element type})]"""
    B = bindings(ctx)
    out = []
    for e in ip.events[n:]:
        if e.kind not in ('native', 'call') or not any(address(a) for a in list(e.args) + list(e.kw.values())):
            continue
        if e.kind == 'native':
            c = class_of(B, e.name)
            b = c.members.get('__init__') if c is not None else B.functions.get(e.name)
        else:
            b = None
            h = T.single_atom(e.recv) if isinstance(e.recv, R) else None
            if h is not None and T.ATOMS[h][0].startswith('native:'):
                b = B.member(T.ATOMS[h][0][7:], e.name)
            if b is None:
                b = next((x for x in (B.member(k, e.name) for k in B.classes) if x is not None), None)
        out.append((e, b))
    return out


def reach(ip, v, seen=None, depth=0):
    """Every array and opaque value that an object keeps."""
    seen = set() if seen is None else seen
    if isinstance(v, V):
        for _, l in T.leaves(v):
            yield from reach(ip, l, seen, depth)
    elif isinstance(v, Ref):
        if v.id in seen or depth > 6:
            return
        seen.add(v.id)
        for f in ip.obj(v).fields.values():
            yield from reach(ip, f, seen, depth + 1)
    elif isinstance(v, Tup):
        for x in v.items:
            yield from reach(ip, x, seen, depth + 1)
    elif isinstance(v, (Arr, R)):
        yield v


def natives(v):
    out = []

    def go(x):
        if isinstance(x, (Tup,)):
            for y in x.items:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, R):
            i = T.single_atom(x)
            if i is not None and T.ATOMS[i][0].startswith('native:CPP'):
                out.append(x)
    go(v)
    return out


def external(p):
    """An array made by a library we do not analyse (contract: C-contiguous double)."""
    i = T.single_atom(p) if isinstance(p, R) else None
    while i is not None and T.ATOMS[i][0] == 'attr':
        x = T.ATOMS[i][1][0]
        i = T.single_atom(x) if isinstance(x, R) else None
    return i is not None and T.ATOMS[i][0].startswith('galsim.')


def count(dims):
    n = 1
    for d in dims:
        if not isinstance(d, int):
            return None
        n *= d
    return n


SEEN = set()


def check_call(ctx, s, tag, e, b, keeper=None, ip=None, lengths=None, order=None, private=False, rays=None):
    """Obligations of one native call that is given addresses."""
    SEEN.add(e.loc)
    if e.guard is False:
        return
    ts = casts(b)
    args = list(e.args)
    names = b.kwnames if b is not None else []
    full = args + [None] * (len(names) - len(args))
    for k, v in e.kw.items():
        if k in names:
            full[names.index(k)] = v
    cargs = routed(b, e) if b is not None else None
    want = lengths
    key = (b.kind if b is not None and b.kind != 'lambda' else None, b.target if b is not None else None)
    if want is None and cargs is not None and key in EXT:
        try:
            w = EXT[key](cargs)
        except (IndexError, TypeError):
            w = {}
        shift = 1 if getattr(b, 'lambda_self', False) else 0
        want = {}
        for ci, ext in w.items():
            r = b.route[ci] if ci < len(b.route) else ('', 0)
            if r[0] == 'param':
                want[r[1] - shift] = ext
    for i, a in enumerate(full):
        if not address(a):
            continue
        sub = '%s/%s argument %d' % (tag, e.name, i)
        p = pointee(a)
        if external(p):
            s.ok(sub + ' (array of galsim)', e.loc)
            if keeper is not None:
                kept = [q for q in reach(ip, keeper)]
                base = p
                ok = any(T.veq(q, p) for q in kept if isinstance(q, R))
                while not ok:
                    j = T.single_atom(base)
                    if j is None or T.ATOMS[j][0] != 'attr':
                        break
                    base = T.ATOMS[j][1][0]
                    ok = any(T.veq(q, base) for q in kept if isinstance(q, R))
                s.check(ok, sub + ' kept alive', e.loc, 'nothing on the object keeps the array alive')
            continue
        if not isinstance(p, Arr) or p.meta is None:
            leaves = [l for _, l in T.leaves(p)] if isinstance(p, V) else []
            s.und(sub, e.loc, 'address of ' + T.clip(T.show(p), 80))
            continue
        m = p.meta
        ty = PTR.get(ts.get(i))
        if ty is None:
            s.und(sub + ' type', e.loc, 'element type of the native parameter not found')
        elif m.dtype is None:
            s.und(sub + ' type', e.loc, 'element type of the array not known')
        else:
            s.check(m.dtype == ty, sub + ' type', e.loc, 'native code reads %s, the array holds %s' % (SAID[ty], 'whatever type the caller supplied' if m.dtype == 'user' else SAID.get(m.dtype, m.dtype)))
        c = contiguous(m, p.dims)
        two = len(p.dims) > 1
        o = (order or {}).get(i, 'C')
        if m.layout is None:
            s.und(sub + ' layout', e.loc, 'layout not known')
        elif two:
            s.check(m.layout == o, sub + ' layout', e.loc, 'native code expects %s order, the array is %s' % (o, m.layout))
        else:
            s.check(c is True, sub + ' layout', e.loc, 'the array may be strided (%s)' % m.layout)
        w = (want or {}).get(i)
        n = count(p.dims)
        if w is None or n is None:
            s.und(sub + ' extent', e.loc, 'extent not known')
        elif not isinstance(w, R) or not T.is_const(w):
            s.und(sub + ' extent', e.loc, 'extent ' + T.show(w))
        else:
            s.check(T.cval(w) == n, sub + ' extent', e.loc, 'native code uses %s elements, the array has %d' % (T.cval(w), n))
        if keeper is not None:
            alive = any(isinstance(q, Arr) and q.meta is not None and q.meta.own & m.own for q in reach(ip, keeper))
            if not m.own:
                s.und(sub + ' kept alive', e.loc, 'owner not known')
            else:
                s.check(alive, sub + ' kept alive', e.loc, 'the object keeps no reference to the array whose address the native object holds')
                theirs = sorted(str(q) for q in m.own if isinstance(q, str) and not q.startswith('state '))
                s.check(not theirs, sub + ' private', e.loc, 'the native object points into the array supplied by the caller (%s)' % ', '.join(theirs))
    if keeper is not None:
        kept_natives(s, tag, e, ip, keeper)


def kept_natives(s, tag, e, ip, keeper):
    for x in [y for a in list(e.args) + list(e.kw.values()) for y in natives(ip.freeze(a))]:
        if e.res is not None and T.veq(x, e.res):
            continue
        ok = any(isinstance(q, R) and T.veq(q, x) for q in reach(ip, keeper))
        s.check(ok, '%s/%s keeps %s' % (tag, e.name, T.clip(T.show(x), 30)), e.loc, 'the native object points to another native object that nothing on the Python object keeps alive')


def U(n, *d):
    return lambda ip: user(n, *d)


def S(n):
    return lambda ip: REAL(n)


def items(*names):
    return lambda ip: ip.newlist([REAL(n) for n in names])


# class -> argument makers by keyword, and the mismatching variants that must be refused
CASES = {
    'TableMedium': (dict(wavelengths=U('wavelengths', 3), ns=U('ns', 3)), [dict(ns=U('ns', 2)), dict(ns=U('ns', 4)), dict(wavelengths=U('wavelengths', 4))]),
    'ObscPolygon': (dict(xs=U('xs', 3), ys=U('ys', 3)), [dict(ys=U('ys', 2)), dict(ys=U('ys', 4)), dict(xs=U('xs', 4))]),
    'Asphere': (dict(R=S('R'), conic=S('conic'), coefs=lambda ip: user('coefs', 3, items={(i,): REAL('coefs.%d' % i) for i in range(3)}), imin=lambda ip: const(2)), []),
    'Asphere#imin=1': (dict(R=S('R'), conic=S('conic'), coefs=lambda ip: user('coefs', 3, items={(i,): REAL('coefs.%d' % i) for i in range(3)}), imin=lambda ip: const(1)), []),
    'Asphere#list': (dict(R=S('R'), conic=S('conic'), coefs=items('c0', 'c1'), imin=lambda ip: const(1)), []),
    'Zernike': (dict(coef=U('coef', 4)), []),
    'Bicubic': (dict(xs=U('xs', 3), ys=U('ys', 4), zs=U('zs', 4, 3), dzdxs=U('dzdxs', 4, 3), dzdys=U('dzdys', 4, 3), d2zdxdys=U('d2zdxdys', 4, 3)),
                [dict(zs=U('zs', 3, 4)), dict(zs=U('zs', 4, 2)), dict(zs=U('zs', 3, 3)), dict(dzdxs=U('dzdxs', 4, 2)), dict(dzdys=U('dzdys', 3, 3)), dict(d2zdxdys=U('d2zdxdys', 3, 4))]),
    'Bicubic#derived': (dict(xs=U('xs', 3), ys=U('ys', 4), zs=U('zs', 4, 3)), [dict(zs=U('zs', 3, 4)), dict(zs=U('zs', 4, 2))]),
    'Bicubic#some': (dict(xs=U('xs', 3), ys=U('ys', 4), zs=U('zs', 4, 3), dzdys=U('dzdys', 4, 3)), []),
}


def construct(ctx, cls, kw, changes=None):
    ip = tinterp(ctx)
    a = {k: f(ip) for k, f in dict(kw, **(changes or {})).items()}
    o = ip.toplevel(lambda: ip.construct(ctx.py.cls(cls.split('#')[0]), [], a))
    return ip, o


def reached(e):
    """Whether a path to the event exists: True, False or None."""
    return True if e.guard is True else False if e.guard is False else None


@rule('C11', 'constructors', need=60)
def ctors(ctx, s):
    """Values with tables: element type, order, extent, privacy and lifetime of every table the native object is given."""
    for cls, (kw, bad) in CASES.items():
        where = loc(ctx, cls.split('#')[0], '__init__')
        ip, o = construct(ctx, cls, kw)
        if o is None:
            s.und(cls, where, 'not constructed')
            continue
        got = sites(ctx, ip)
        if not got:
            s.und(cls, where, 'no native call with addresses')
        for e, b in got:
            check_call(ctx, s, cls, e, b, keeper=o, ip=ip)
        for e in ip.events:
            if e.kind == 'native' and not any(address(a) for a in e.args):
                kept_natives(s, cls, e, ip, o)
        done(ctx, ip)
        for ch in bad:
            ip, o = construct(ctx, cls, kw, ch)
            k, f = next(iter(ch.items()))
            sub = '%s[%s=%s]' % (cls, k, 'x'.join(map(str, f(ip).dims)))
            st = [reached(e) for e, b in sites(ctx, ip)]
            if True in st:
                s.bad(sub, where, 'tables of different shapes reach native code instead of being refused')
            elif None in st:
                s.und(sub, where, 'not decided')
            else:
                s.ok(sub, where)


def pickled(ctx, cls, kw):
    """(ip, restored object, index of the first event of the restoration, state tokens)"""
    ip, o = construct(ctx, cls, kw)
    if o is None:
        return ip, None, 0
    ci = ctx.py.cls(cls.split('#')[0])
    if ci.find('__getstate__') is None or ci.find('__setstate__') is None:
        return ip, None, 0
    st = ip.toplevel(lambda: ip.call_method(o, '__getstate__'))

    def private(v):
        if isinstance(v, Arr) and v.meta is not None:
            return Arr(v.dims, v.items, Meta(v.meta.dtype, 'C' if v.meta.layout == 'C' else 'CF' if v.meta.layout in ('user', 'view', 'CF') else v.meta.layout, frozenset({'state %d' % id(v)})))
        if isinstance(v, Tup):
            return Tup([private(x) for x in v.items])
        return v
    if isinstance(st, V):
        return ip, None, 0
    n = len(ip.events)
    r = ip.instance(cls.split('#')[0])
    ip.toplevel(lambda: ip.call_method(r, '__setstate__', private(st)))
    return ip, r, n


@rule('C11', 'unpickled', need=20)
def unpickled(ctx, s):
    """The same for objects restored from their pickled state."""
    for cls in ('TableMedium', 'ObscPolygon', 'Asphere', 'Zernike', 'Bicubic'):
        ip, r, n = pickled(ctx, cls, CASES[cls][0])
        where = loc(ctx, cls, '__setstate__')
        if r is None:
            s.und(cls, where, 'not restored')
            continue
        got = sites(ctx, ip, n)
        if not got:
            s.und(cls, where, 'no native call with addresses')
        for e, b in got:
            check_call(ctx, s, cls + ' restored', e, b, keeper=r, ip=ip)
        done(ctx, ip)


def composite(ip, ctx, cls):
    c = lambda k, *a: ip.construct(ctx.py.cls(k), list(a), {})
    if cls == 'ObscNegation':
        return c(cls, c('ObscCircle', REAL('r')))
    if cls == 'Sum':
        return c(cls, ip.newlist([c('Sphere', REAL('a')), c('Quadric', REAL('b'), REAL('k'))]))
    return c(cls, c('ObscCircle', REAL('r')), c('ObscRectangle', REAL('w'), REAL('h')))


@rule('C11', 'composites', need=8)
def composites(ctx, s):
    """A native object built from other native objects: the Python object keeps each of them alive, also when restored."""
    for cls in ('Sum', 'ObscNegation', 'ObscUnion', 'ObscIntersection'):
        ip = tinterp(ctx)
        o = ip.toplevel(lambda: composite(ip, ctx, cls))
        where = loc(ctx, cls, '__init__')
        hit = 0
        for e in ip.events:
            if e.kind == 'native' and e.name == 'CPP' + cls:
                kept_natives(s, cls, e, ip, o)
                hit += 1
        if not hit:
            s.und(cls, where, 'native object not found')
        st = ip.toplevel(lambda: ip.call_method(o, '__getstate__')) if ctx.py.cls(cls).find('__getstate__') else None
        if ctx.py.cls(cls).find('__setstate__') and st is not None:
            n = len(ip.events)
            r = ip.instance(cls)
            ip.toplevel(lambda: ip.call_method(r, '__setstate__', st))
            for e in ip.events[n:]:
                if e.kind == 'native' and e.name == 'CPP' + cls:
                    kept_natives(s, cls + ' restored', e, ip, r)
        done(ctx, ip)


@rule('C11', 'binding-pointers', need=12)
def binding_pointers(ctx, s):
    """Pointers that a binding gives to a constructor come from the caller's buffer or from storage that is never released, not from a local container."""
    B = bindings(ctx)
    for name, c in sorted(B.classes.items()):
        b = c.members.get('__init__')
        if b is None or not hasattr(b, 'body'):
            continue
        news, locs, dead = {}, {}, set()
        params = [p.get('name') for p in params_of(b.node)]
        for x in bind.walk(b.body):
            if x.get('kind') == 'VarDecl':
                ini = bind.kids(x)[-1] if bind.kids(x) else None
                locs[x.get('name')] = (x, ini)
            if x.get('kind') == 'CXXDeleteExpr' and bind.kids(x):
                d = bind.strip(bind.kids(x)[0]).get('referencedDecl') or {}
                dead.add(d.get('name'))

        def source(e, depth=0):
            for q in bind.walk(e):
                if q.get('kind') == 'CXXNewExpr':
                    return 'new'
                if q.get('kind') == 'CXXMemberCallExpr':
                    m = bind.kids(q)[0]
                    o = bind.strip(bind.kids(m)[0]) if bind.kids(m) else {}
                    d = o.get('referencedDecl') or {}
                    if d.get('kind') == 'VarDecl' and m.get('name') in ('data', 'get', 'begin', 'c_str') and 'shared_ptr' not in bind.qt(o):
                        return 'local container %s' % d.get('name') if 'static' not in str(locs.get(d.get('name'), ({},))[0].get('storageClass')) else 'static'
                    if d.get('kind') == 'ParmVarDecl' and m.get('name') in ('data', 'begin'):
                        return 'argument container %s' % d.get('name')
                if q.get('kind') == 'DeclRefExpr':
                    d = q.get('referencedDecl') or {}
                    if d.get('name') in dead:
                        return 'storage released before the constructor returns (%s)' % d.get('name')
                    if d.get('kind') == 'ParmVarDecl':
                        return 'param'
                    if d.get('name') in locs and depth < 6:
                        v, ini = locs[d['name']]
                        if '[' in bind.qt(v) and 'static' != v.get('storageClass'):
                            return 'local array %s' % d['name']
                        return source(ini, depth + 1) if ini is not None else None
            return None
        for x in bind.walk(b.body):
            if x.get('kind') != 'CXXNewExpr':
                continue
            ce = next((q for q in bind.kids(x) if q.get('kind') == 'CXXConstructExpr'), None)
            if ce is None:
                continue
            for i, a in enumerate(bind.kids(ce)):
                if '*' not in bind.qt(a):
                    continue
                src = source(a)
                sub = '%s argument %d' % (name, i)
                if src in ('param', 'new', 'static'):
                    s.ok(sub, b.loc)
                elif src is None:
                    s.und(sub, b.loc, 'source of the pointer not understood')
                else:
                    s.bad(sub, b.loc, 'the native object keeps a pointer into a %s' % src)


# ------------------------------------------------------------------ ray bundles
def colarrays(*d):
    return {c: user(c, *d) for c in COLS}


def bundle_ok(ctx, s, tag, ip, rv, where, dims=None):
    """Every quantity of a bundle is a private contiguous array of its type, all of one size; the native bundle gets exactly them."""
    if not isinstance(rv, Ref):
        s.und(tag, where, 'no bundle: ' + T.clip(T.show(rv), 60))
        return
    n = len(ip.events)
    ip.toplevel(lambda: ip.getattr(rv, '_rv'))
    got = sites(ctx, ip, n)
    if not got:
        s.und(tag, where, 'the native bundle is not built from addresses')
    for e, b in got:
        check_call(ctx, s, tag, e, b, keeper=rv, ip=ip)
    # no two quantities share storage
    own = {}
    for c in COLS:
        v = ip.obj(rv).fields.get('_' + c)
        if isinstance(v, Arr) and v.meta is not None:
            for t in v.meta.own:
                if t in own:
                    s.bad('%s/%s and %s' % (tag, own[t], c), where, 'two quantities share one buffer')
                own[t] = c


def bundle(ip, *d):
    """A bundle in a state that its constructors establish."""
    f = {}
    for c in COLS:
        f['_' + c] = user('rays.' + c, *d, dtype='b1' if c in ('vignetted', 'failed') else 'f8', layout='C')
        if c in ('vignetted', 'failed'):
            f['_' + c] = Arr(d, {k: T.bool_atom('truthy', T.atom('var', ('%s%s' % (c, k),))) for k in f['_' + c].items}, f['_' + c].meta)
    f['coordSys'] = thing('frame')
    return ip.instance('RayVector', f)


@rule('C11', 'bundles', need=150)
def bundles(ctx, s):
    """Every way to make a ray bundle (constructor with arrays of any kind, scalars and lists; copy; slices; masks; concatenation; pickling)."""
    RV = lambda: ctx.py.cls('RayVector')
    for tag, cols in (('arrays', colarrays(3)), ('2d arrays', colarrays(2, 3)),
                      ('broadcast', dict(colarrays(3), **{c: REAL(c) for c in ('vx', 'vy', 'vz', 't', 'wavelength', 'flux')}, vignetted=False, failed=False)),
                      ('scalars', dict({c: REAL(c) for c in COLS[:-2]}, vignetted=False, failed=False)),
                      ('defaults', {c: user(c, 3) for c in COLS[:6]})):
        ip = tinterp(ctx)
        rv = ip.toplevel(lambda: ip.construct(RV(), [], dict(cols)))
        bundle_ok(ctx, s, tag, ip, rv, loc(ctx, 'RayVector', '__init__'))
        done(ctx, ip)
    ip = tinterp(ctx)
    rv = ip.toplevel(lambda: ip.construct(RV(), [], {c: ip.newlist([REAL('%s.%d' % (c, i)) for i in range(3)]) for c in COLS[:9]}))
    bundle_ok(ctx, s, 'lists', ip, rv, loc(ctx, 'RayVector', '__init__'))
    for tag, f in (('copy', lambda ip, r: ip.call_method(r, 'copy')),
                   ('slice', lambda ip, r: ip.getitem(r, P_slice(None, None, const(2)))),
                   ('reversed', lambda ip, r: ip.getitem(r, P_slice(None, None, const(-1)))),
                   ('integer index', lambda ip, r: ip.getitem(r, const(1))),
                   ('index list', lambda ip, r: ip.getitem(r, Arr((2,), {(0,): const(2), (1,): const(0)}))),
                   ('mask', lambda ip, r: ip.getitem(r, Arr((4,), {(i,): i % 2 == 0 for i in range(4)}))),
                   ('concatenation', lambda ip, r: ip.call(ip.function('rayVector', 'concatenateRayVectors'), [ip.newlist([r, bundle(ip, 2)])], {})),
                   ('restored', restore)):
        ip = tinterp(ctx)
        r = bundle(ip, 4)
        where = loc(ctx, 'concatenateRayVectors') if tag == 'concatenation' else loc(ctx, 'RayVector', {'copy': 'copy', 'restored': '__setstate__'}.get(tag, '__getitem__'))
        new = ip.toplevel(lambda: f(ip, r))
        if new == r:
            s.bad(tag, where, 'returns the same bundle')
            continue
        bundle_ok(ctx, s, tag, ip, new, where)
        done(ctx, ip)


def P_slice(a, b, c):
    from .pyvals import SliceV
    return SliceV(a, b, c)


def restore(ip, r):
    st = ip.call_method(r, '__getstate__')
    st = Tup([Arr(x.dims, x.items, x.meta._replace(own=frozenset({'state %d' % i}))) if isinstance(x, Arr) else x for i, x in enumerate(st.items)])
    new = ip.instance('RayVector')
    ip.call_method(new, '__setstate__', st)
    return new


OUT = {'positionAtTime': ('f8', 3), 'phase': ('f8', 1), 'amplitude': ('c16', 1)}


@rule('C11', 'ray-outputs', need=20)
def ray_outputs(ctx, s):
    """Output buffers of phase, amplitude and positions hold one element of the right type per ray."""
    for d in ((4,), (2, 3)):
        for m, (ty, k) in OUT.items():
            ip = tinterp(ctx)
            rv = bundle(ip, *d)
            ip.toplevel(lambda: ip.getattr(rv, '_rv'))
            n = len(ip.events)
            a = [REAL('t')] if m == 'positionAtTime' else [user('r', 3), REAL('t')]
            ip.toplevel(lambda: ip.call_method(rv, m, *a))
            got = sites(ctx, ip, n)
            where = loc(ctx, 'RayVector', m)
            tag = '%s of %s rays' % (m, 'x'.join(map(str, d)))
            if len(got) != 1:
                s.und(tag, where, '%d native calls' % len(got))
            for e, b in got:
                check_call(ctx, s, tag, e, b, ip=ip, lengths={i: const(count(d)) for i, x in enumerate(e.args) if address(x)})
            done(ctx, ip)
    # the helpers that move arrays of positions in place
    for name in ('applyForwardTransformArrays', 'applyReverseTransformArrays'):
        f = ctx.py.mods['trace'].names.get(name) if 'trace' in ctx.py.mods else None
        if f is None:
            continue
        for d in ((3,), (2, 3)):
            ip = tinterp(ctx)
            cs = [ip.construct(ctx.py.cls('CoordSys'), [], {'origin': Tup([REAL('o%d%d' % (k, i)) for i in range(3)])}) for k in range(2)]
            ct = ip.toplevel(lambda: ip.construct(ctx.py.cls('CoordTransform'), cs, {}))
            n = len(ip.events)
            ip.toplevel(lambda: ip.call(ip.function('trace', name), [ct] + [user(q, *d, dtype='f8', layout='C') for q in 'xyz'], {}))
            for e, b in sites(ctx, ip, n):
                check_call(ctx, s, '%s of %s' % (name, 'x'.join(map(str, d))), e, b, ip=ip)
            done(ctx, ip)


@rule('C11', 'surface-queries', need=8)
def surface_queries(ctx, s):
    """Normals and gridded containment: contiguous double inputs of equal size, an output of the right size; anything else is refused."""
    for d in ((3,), (2, 3)):
        ip = tinterp(ctx)
        o = ip.toplevel(lambda: ip.construct(ctx.py.cls('Sphere'), [REAL('R')], {}))
        n = len(ip.events)
        ip.toplevel(lambda: ip.call_method(o, 'normal', user('x', *d), user('y', *d)))
        got = sites(ctx, ip, n)
        where = loc(ctx, 'Surface', 'normal')
        if len(got) != 1:
            s.und('normal %s' % (d,), where, '%d native calls' % len(got))
        for e, b in got:
            ptr = [i for i, x in enumerate(e.args) if address(x)]
            size = [x for x in e.args if not address(x)]
            if len(ptr) == 3 and len(size) == 1:
                lay = {pointee(e.args[i]).meta.layout for i in ptr[:2] if isinstance(pointee(e.args[i]), Arr) and pointee(e.args[i]).meta}
                check_call(ctx, s, 'normal %s' % (d,), e, b, ip=ip, lengths={ptr[0]: size[0], ptr[1]: size[0], ptr[2]: mul(const(3), size[0]) if isinstance(size[0], R) else None}, order={i: 'F' for i in ptr})
            else:
                s.und('normal %s' % (d,), e.loc, 'arguments of another shape')
        done(ctx, ip)
    for dx, dy in (((3,), (2,)), ((2,), (3,)), ((3,), (1,))):
        ip = tinterp(ctx)
        o = ip.toplevel(lambda: ip.construct(ctx.py.cls('Sphere'), [REAL('R')], {}))
        n = len(ip.events)
        ip.toplevel(lambda: ip.call_method(o, 'normal', user('x', *dx), user('y', *dy)))
        st = []
        for e, b in sites(ctx, ip, n):
            ptr = [pointee(x) for x in e.args if address(x)]
            size = [x for x in e.args if not address(x)]
            short = [p for p in ptr[:2] if isinstance(p, Arr) and count(p.dims) is not None and size and isinstance(size[0], R) and T.is_const(size[0]) and count(p.dims) < T.cval(size[0])]
            known = all(isinstance(p, Arr) for p in ptr) and size and isinstance(size[0], R) and T.is_const(size[0])
            st.append(reached(e) if short else False if known else None)
        sub = 'normal of x%s y%s' % (dx, dy)
        if True in st:
            s.bad(sub, loc(ctx, 'Surface', 'normal'), 'native code reads past the end of the shorter array')
        elif None in st:
            s.und(sub, loc(ctx, 'Surface', 'normal'), 'not decided')
        else:
            s.ok(sub, loc(ctx, 'Surface', 'normal'))
    ip = tinterp(ctx)
    o = ip.toplevel(lambda: ip.construct(ctx.py.cls('ObscPolygon'), [user('px', 3), user('py', 3)], {}))
    n = len(ip.events)
    ip.toplevel(lambda: ip.call_method(o, 'containsGrid', user('xg', 3), user('yg', 2)))
    got = sites(ctx, ip, n)
    if len(got) != 1:
        s.und('containsGrid', loc(ctx, 'ObscPolygon', 'containsGrid'), '%d native calls' % len(got))
    for e, b in got:
        check_call(ctx, s, 'containsGrid', e, b, ip=ip)
    done(ctx, ip)


class TRun(Run):
    make = staticmethod(tinterp)

    def extra(self, ip):
        for h in ('trace.applyForwardTransformArrays', 'trace.applyReverseTransformArrays', 'utils.hexapolar'):
            ip.hooks.pop(h)

        def sag(ip, recv, a, k):
            if len(a) != 2 or k:
                return NotImplemented
            x, y = ip.arr_of(a[0]), ip.arr_of(a[1])
            d = ip.bdims(x.dims, y.dims) if x is not None and y is not None else None
            if d is None:
                return NotImplemented
            return Arr(d, {q: REAL('sag%s' % (q,)) for q in ip.idxs(d)}, Meta('f8', 'C', ip.fresh_own()))

        def uniform(ip, recv, a, k):
            d = ip._shape(k.get('size', a[2] if len(a) > 2 else None))
            return Arr(d, {q: REAL('u%s' % (q,)) for q in ip.idxs(d)}, Meta('f8', 'C', ip.fresh_own())) if d is not None else NotImplemented
        ip.hooks['*.sag'] = sag
        ip.hooks['*.uniform'] = uniform


def factory_runs(ctx):
    base = dict(wavelength=REAL('wl'), flux=REAL('fl'), dirCos=user('dirCos', 3, items={(i,): REAL('dc%d' % i) for i in range(3)}))
    opt = dict(GIVEN)
    yield 'grid', 'asGrid', dict(base, **opt, nx=const(3), lx=REAL('lx')), ()
    yield 'even grid without medium or frame', 'asGrid', dict(base, nx=const(2), lx=REAL('lx')), ()
    yield 'grid of given vectors', 'asGrid', dict(base, **opt, nx=const(2), ny=const(3), lx=user('lx', 2), ly=user('ly', 2)), ()
    yield 'random grid', 'asGrid', dict(base, **opt, nrandom=const(4), nx=const(2), lx=REAL('lx')), ()
    yield 'polar', 'asPolar', dict(base, **opt, outer=const(3), inner=const(1), nrad=const(2), naz=const(6)), ()
    yield 'random polar', 'asPolar', dict(base, **opt, outer=REAL('ro'), inner=REAL('ri'), nrandom=const(4)), ()
    yield 'spokes', 'asSpokes', dict(base, **opt, outer=REAL('ro'), inner=REAL('ri'), rings=const(2), spokes=const(3)), ()
    yield 'quadrature spokes', 'asSpokes', dict(base, **opt, outer=REAL('ro'), inner=REAL('ri'), rings=const(2), spokes=const(3), spacing='GQ'), ()
    yield 'given rings and spokes', 'asSpokes', dict(base, **opt, rings=user('rings', 2), spokes=user('spokes', 3)), ()
    yield 'given float32 rings and spokes', 'asSpokes', dict(base, **opt, rings=user('rings', 2, dtype='other:float32'), spokes=user('spokes', 3, dtype='other:float32')), ()
    yield 'given rings', 'asSpokes', dict(base, **opt, rings=user('rings', 2), spokes=const(3)), ()
    yield 'stop arrays', 'fromStop', dict(base, **opt), (user('x', 3), user('y', 3))
    yield 'stop array and number', 'fromStop', dict(base, **opt), (user('x', 3), REAL('y'))
    yield 'stop 2d arrays', 'fromStop', dict(base, **opt), (user('x', 2, 3), user('y', 2, 3))
    yield 'stop numbers', 'fromStop', dict(base, **opt), (REAL('x'), REAL('y'))


@rule('C11', 'factories', need=250)
def factories(ctx, s):
    """Ray factories: the coordinates that native code transforms in place and the columns of the bundle are private double arrays of one size."""
    for tag, name, kw, pos in factory_runs(ctx):
        r = TRun(ctx, name, kw, pos)
        got = sites(ctx, r.ip)
        if r.res is None:
            s.und(tag, r.where, 'no result: ' + '; '.join(sorted({'%s %s' % (x[1], x[-1]) for x in r.raised}))[:120])
            continue
        if not got:
            s.und(tag, r.where, 'no native call with addresses')
        for e, b in got:
            check_call(ctx, s, tag, e, b, ip=r.ip)
            for a in e.args:
                p = pointee(a)
                if isinstance(p, Arr) and p.meta is not None:
                    t = sorted(q for q in p.meta.own if isinstance(q, str))
                    s.check(not t, '%s/%s on private data' % (tag, e.name), e.loc, 'native code may modify the array supplied by the caller (%s)' % ', '.join(t))
        bundle_ok(ctx, s, tag, r.ip, r.res if isinstance(r.res, Ref) else None, r.where)


# ------------------------------------------------------------------ completeness of the site list
@rule('C11', 'all-sites', need=15)
def all_sites(ctx, s):
    """Every place that takes the address of array data is one that the rules above have followed."""
    seen = set(SEEN) | ctx.memo('factory-sites', set)
    for m in ctx.py.mods.values():
        if m.name in ('app', 'plotUtils'):
            continue
        stmts = [q for q in ast.walk(m.tree) if isinstance(q, ast.stmt) and not hasattr(q, 'body')]
        for q in stmts:
            n = [x for x in ast.walk(q) if isinstance(x, ast.Attribute) and x.attr == 'data' and isinstance(x.value, ast.Attribute) and x.value.attr == 'ctypes']
            if not n:
                continue
            rng = range(q.lineno, (q.end_lineno or q.lineno) + 1)
            hit = any('batoid/%s.py:%d' % (m.name, i) in seen or '%s.py:%d' % (m.name, i) in seen for i in rng)
            where = 'batoid/%s.py:%d' % (m.name, q.lineno)
            if hit:
                s.ok('address taken', where)
            else:
                s.und('address taken', where, 'no analysed path reaches this call')
