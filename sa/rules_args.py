"""Arguments of library calls stay as they were and are not shared with results (C12).

Every array given by the caller carries an ownership token (buffers.py) that
follows it through views and casts that need not copy; every container and
object given is compared with a snapshot.  A store into an array with such a
token, a changed entry of a snapshot, a native call that writes through such an
array or through the handle of a given bundle, or a result that keeps such an
array is a violation.
"""
from . import terms as T
from .terms import V, R, const
from .core import rule
from .pyvals import Arr, Tup, Ref, MISSING
from .py import done, loc
from .buffers import user, tinterp, Meta
from .rules_frames import thing
from .rules_arrays import sites, reach, address, natives, bundle, restore, CASES, COLS, REAL, P_slice, construct, TRun, factory_runs, GIVEN
from .rules_arrays import pointee
from . import rules_optic as RO
from . import rules_parse as RP
from . import rules_analysis as RA
from . import rules_trace as RT
from . import pyinterp as P

BUNDLE_WRITERS = {'applyForwardTransform', 'applyReverseTransform', 'obscure', 'intersect', 'reflect', 'refract', 'rSplit', 'refractScreen', 'propagateInPlace', 'propagate'}
OUTPUTS = {'positionAtTime'}
FRESH = Meta('f8', 'C', frozenset())


def given(name, *dims, **kw):
    """The array of a caller most easily shared: doubles in C order."""
    return user(name, *dims, dtype='f8', layout='C', **kw)


class Watch:
    def __init__(self, ip, args, keep=()):
        """keep: names of tokens that results may share."""
        self.ip, self.n, self.n_raised = ip, len(ip.events), len(ip.raised)
        self.tokens, self.things, self.snap, self.handles, self.label = {}, {}, {}, [], {}
        for k, v in args.items():
            self.walk(k, v)
        self.n = len(ip.events)

    def walk(self, k, v, depth=0):
        if isinstance(v, V):
            for _, l in T.leaves(v):
                self.walk(k, l, depth)
        elif isinstance(v, Tup):
            for x in v.items:
                self.walk(k, x, depth)
        elif isinstance(v, Arr):
            if v.meta is not None:
                for t in v.meta.own:
                    self.tokens.setdefault(t, k)
        elif isinstance(v, R):
            i = T.single_atom(v)
            if i is not None and T.ATOMS[i][0] == 'var' and not {'real', 'int'} & set(T._FLAGS[i] or ()):
                self.things[i] = k
        elif isinstance(v, Ref):
            ip = self.ip
            if v.id in self.snap or depth > 8:
                return
            o = ip.obj(v)
            self.label[v.id] = k
            self.snap[v.id] = None
            for f, x in list(o.fields.items()):
                if isinstance(x, Arr) and type(x) is Arr and (x.meta is None or not x.meta.own):
                    t = '%s.%s' % (k, f)
                    ip.wr(v).fields[f] = Arr(x.dims, x.items, Meta('b1' if f in ('_vignetted', '_failed') else 'f8', 'C', frozenset({t})))
                x = ip.obj(v).fields[f]
                self.walk('%s%s' % (k, '.%s' % f if isinstance(f, str) and o.kind == 'obj' else ''), x, depth + 1)
            self.snap[v.id] = (o.kind, dict(ip.obj(v).fields))
            h = ip.obj(v).fields.get('_rv')
            if h is not None and h is not MISSING:
                self.handles.append((h, k))

    # ------------------------------------------------------------ stores
    def owned(self, v):
        """(argument name, certain) of arrays in v that are the caller's."""
        for l in ([l for _, l in T.leaves(v)] if isinstance(v, V) else [v]):
            if isinstance(l, Arr) and l.meta is not None:
                hit = [t for t in l.meta.own if t in self.tokens]
                if hit:
                    yield self.tokens[hit[0]], len(hit) == len(l.meta.own)

    def root(self, v, depth=0):
        i = T.single_atom(v) if isinstance(v, R) else None
        if i is None or depth > 12:
            return None
        if i in self.things:
            return self.things[i]
        if T.ATOMS[i][0] in ('attr', 'getitem'):
            return self.root(T.ATOMS[i][1][0], depth + 1)
        return None

    def stores(self, ctx):
        for e in self.ip.events[self.n:]:
            if e.guard is False:
                continue
            if e.kind == 'mutate':
                for k, sure in self.owned(e.recv):
                    yield sure, e.loc, 'writes into %s (%s)' % (k, e.name)
                k = self.root(e.recv)
                if k is not None and e.name == '[]=':
                    yield True, e.loc, 'writes into a part of %s' % k
            elif e.kind == 'setattr' and isinstance(e.recv, R):
                k = self.root(e.recv)
                if k is not None:
                    yield True, e.loc, 'sets .%s of %s' % (e.name, k)
            if e.kind == 'native':
                for h, k in self.handles:
                    if e.name in BUNDLE_WRITERS and any(self.same(h, a) for a in e.args):
                        yield True, e.loc, 'native %s changes the rays of %s' % (e.name, k)
            elif e.kind == 'call' and isinstance(e.recv, R) and e.name in BUNDLE_WRITERS:
                for h, k in self.handles:
                    if self.same(h, e.recv):
                        yield True, e.loc, 'native %s changes the rays of %s' % (e.name, k)
        for e, b in sites(ctx, self.ip, self.n):
            if e.guard is False:
                continue
            ptr = [(i, pointee(a)) for i, a in enumerate(e.args) if address(a)]
            held = False
            if e.kind == 'native' and e.name.startswith('CPP'):
                w = [p for _, p in ptr] if e.name == 'CPPRayVector' else []
                held = True
            elif e.kind == 'native' or e.name in OUTPUTS:
                w = [p for _, p in ptr]
            else:
                w = [p for _, p in ptr[-1:]]
            for p in w:
                for k, sure in self.owned(p):
                    if held and '._' in k:
                        continue          # the native side of the given bundle itself
                    yield sure, e.loc, 'native %s writes through %s' % (e.name, k)

    def same(self, h, a):
        return isinstance(a, (R, V)) and T.veq(h, a) is True

    # ------------------------------------------------------------ changes
    def changes(self):
        ip = self.ip
        for i, (kind, f) in self.snap.items():
            o = ip.obj(i)
            memo = RO.caches(ip, Ref(i)) if o.kind == 'obj' and o.cls else ()
            for k in list(f) + [k for k in o.fields if k not in f]:
                a, b = f.get(k, MISSING), o.fields.get(k, MISSING)
                if a is b:
                    continue
                if k in memo or isinstance(k, str) and k.startswith('__'):
                    continue
                what = '%s%s' % (self.label[i], '.%s' % k if kind == 'obj' else ' (%s)' % kind)
                if a is MISSING or b is MISSING:
                    if kind == 'obj' and a is MISSING and isinstance(k, str) and k.startswith('_'):
                        continue          # a private memo
                    yield True, 'changes %s' % what
                    continue
                if T.veq(a, b) is True:
                    continue
                if isinstance(a, Arr) and isinstance(b, Arr) and a.dims == b.dims and all(T.veq(a.items[q], b.items.get(q)) is True for q in a.items):
                    continue
                m = T.compare(a, b)
                if m is None:
                    continue
                yield not m.undecided, 'changes %s' % what

    # ------------------------------------------------------------ results
    def shared(self, res, containers=True, through=()):
        ip = self.ip
        seen, out = set(), []

        def go(v, path, depth):
            if depth > 8:
                return
            if isinstance(v, V):
                for _, l in T.leaves(v):
                    go(l, path, depth)
            elif isinstance(v, Tup):
                for i, x in enumerate(v.items):
                    go(x, path, depth + 1)
            elif isinstance(v, Arr):
                for k, sure in self.owned(v):
                    if '.' in k and '._' not in k:
                        continue          # part of a frame, which is a value
                    out.append((sure, '%s is the array given as %s' % (path, k)))
            elif isinstance(v, Ref):
                if v.id in seen:
                    return
                seen.add(v.id)
                o = ip.obj(v)
                if v.id in self.snap:
                    if containers and o.kind in ('list', 'dict', 'set'):
                        out.append((True, '%s is the %s given as %s' % (path, o.kind, self.label[v.id])))
                    return            # an object of the caller that may be shared
                for f, x in o.fields.items():
                    go(x, '%s%s' % (path, '.%s' % f if isinstance(f, str) else '[]'), depth + 1)
        go(res, 'result', 0)
        return out

    def judge(self, ctx, s, subj, where, res=None, share=True, containers=True):
        worst = {}
        for sure, at, msg in self.stores(ctx):
            worst.setdefault('kept', []).append((sure, at, msg))
        for sure, msg in self.changes():
            worst.setdefault('kept', []).append((sure, where, msg))
        if share:
            for sure, msg in self.shared(res, containers):
                worst.setdefault('shared', []).append((sure, where, msg))
        for part in ('kept', 'shared') if share else ('kept',):
            bad = [x for x in worst.get(part, ()) if x[0]]
            und = [x for x in worst.get(part, ()) if not x[0]]
            sub = '%s/%s' % (subj, part)
            if bad:
                s.bad(sub, bad[0][1], bad[0][2])
            elif und:
                s.und(sub, und[0][1], und[0][2])
            else:
                s.ok(sub, where)


def attempt(ctx, s, ip, subj, where, args, f, share=True, containers=True, must=True):
    """Run f(ip) while watching args."""
    try:
        w = Watch(ip, args)
    except (P.NoVerdict, P.Budget) as e:
        return s.und(subj, where, 'arguments: %s' % e)
    res, err = None, None
    try:
        res = ip.toplevel(f)
    except (P.NoVerdict, P.Budget, P.Dead) as e:
        err = '%s: %s' % (type(e).__name__, e)
    if res is None and must and err is None and len(ip.raised) > w.n_raised:
        err = 'raises ' + '; '.join(sorted({str(r[1]) for r in ip.raised[w.n_raised:]}))[:80]
    w.judge(ctx, s, subj, where, res, share, containers)
    if err is not None:
        s.und(subj + '/analysis', where, err)
    try:
        done(ctx, ip)
    except (P.NoVerdict, P.Budget):
        pass
    return res


def G(name, *d):
    return lambda ip: given(name, *d)


def objs(*cls):
    return lambda ip: ip.newlist([ip.construct(ip.prog.cls(c), [REAL('%s%d' % (c, i))] if c != 'Plane' else [], {}) for i, c in enumerate(cls)])


def ifaces(ip):
    return ip.newlist([RO.interface(ip, c, n, RO.coordsys(ip, n)) for c, n in (('RefractiveInterface', 'A'), ('RefractiveInterface', 'B'))])


def nums(name, n):
    return lambda ip: ip.newlist([REAL('%s%d' % (name, i)) for i in range(n)])


def rotg(name):
    return lambda ip: Arr((3, 3), {(i, j): REAL('%s%d%d' % (name, i, j)) for i in range(3) for j in range(3)}, Meta('f8', 'C', frozenset({name})))


def constructors():
    yield 'TableMedium', dict(wavelengths=G('wavelengths', 3), ns=G('ns', 3))
    yield 'TableMedium', dict(wavelengths=nums('w', 3), ns=nums('n', 3))
    yield 'ObscPolygon', dict(xs=G('xs', 3), ys=G('ys', 3))
    yield 'ObscPolygon', dict(xs=nums('x', 3), ys=nums('y', 3))
    yield 'Asphere', dict(R=lambda ip: REAL('R'), conic=lambda ip: REAL('k'), coefs=G('coefs', 3))
    yield 'Asphere', dict(R=lambda ip: REAL('R'), conic=lambda ip: REAL('k'), coefs=nums('coefs', 3))
    yield 'Zernike', dict(coef=G('coef', 4))
    yield 'Zernike', dict(coef=nums('coef', 4))
    yield 'Bicubic', dict(xs=G('xs', 3), ys=G('ys', 4), zs=G('zs', 4, 3), dzdxs=G('dzdxs', 4, 3), dzdys=G('dzdys', 4, 3), d2zdxdys=G('d2zdxdys', 4, 3))
    yield 'Bicubic', dict(xs=G('xs', 3), ys=G('ys', 4), zs=G('zs', 4, 3))
    yield 'Bicubic', dict(xs=G('xs', 3), ys=G('ys', 4), zs=G('zs', 4, 3), dzdys=G('dzdys', 4, 3))
    yield 'CoordSys', dict(origin=G('origin', 3), rot=rotg('rot'))
    yield 'CoordSys', dict(origin=nums('o', 3))
    yield 'CoordSys', dict(rot=rotg('rot'))
    yield 'SellmeierMedium', dict(coefs=G('coefs', 6))
    yield 'SellmeierMedium', dict(coefs=nums('B', 6))
    yield 'SumitaMedium', dict(coefs=nums('A', 6))
    yield 'Sum', dict(surfaces=objs('Plane', 'Sphere'))
    yield 'ObscUnion', dict(items=objs('ObscCircle', 'ObscCircle'))
    yield 'ObscIntersection', dict(items=objs('ObscCircle', 'ObscCircle'))
    yield 'CompoundOptic', dict(items=ifaces)
    yield 'Lens', dict(items=ifaces)


POSITIONAL = {'SellmeierMedium': 'coefs', 'SumitaMedium': 'coefs', 'Sum': 'surfaces', 'ObscUnion': 'items', 'ObscIntersection': 'items', 'CompoundOptic': 'items', 'Lens': 'items'}


@rule('C12', 'constructors', need=30)
def ctors(ctx, s):
    """Surfaces, media, obscurations, frames and optics neither change nor keep the arrays and lists they are built from."""
    for i, (cls, kw) in enumerate(constructors()):
        ip = tinterp(ctx)
        a = ip.toplevel(lambda: Tup([f(ip) for f in kw.values()]))
        args = dict(zip(kw, a.items))
        pos = [args[POSITIONAL[cls]]] if cls in POSITIONAL else []
        k = {} if cls in POSITIONAL else args
        attempt(ctx, s, ip, '%s(%s)#%d' % (cls, ','.join(kw), i), loc(ctx, cls, '__init__'), args, lambda: ip.construct(ctx.py.cls(cls), list(pos), dict(k)))


@rule('C12', 'bundles', need=24)
def bundles(ctx, s):
    """New ray bundles share nothing with what they are made from, which stays as it is."""
    RV = ctx.py.cls('RayVector')
    full = {c: given(c, 3) for c in COLS[:-2]}
    full.update({c: Arr((3,), {(i,): T.bool_atom('truthy', REAL('%s%d' % (c, i))) for i in range(3)}, Meta('b1', 'C', frozenset({c}))) for c in COLS[-2:]})
    for tag, cols in (('all arrays', full), ('positions and directions', {c: full[c] for c in COLS[:6]}),
                      ('broadcast', dict(full, **{c: REAL(c) for c in ('vx', 'vy', 'vz', 't', 'wavelength', 'flux')})),
                      ('2d', {c: given(c, 2, 3) for c in COLS[:-2]})):
        ip = tinterp(ctx)
        cs = RO.coordsys(ip, 'frame')
        attempt(ctx, s, ip, 'RayVector ' + tag, loc(ctx, 'RayVector', '__init__'), dict(cols, coordSys=cs), lambda: ip.construct(RV, [], dict(cols, coordSys=cs)))
    ip = tinterp(ctx)
    cols = {c: ip.newlist([REAL('%s.%d' % (c, i)) for i in range(3)]) for c in COLS[:9]}
    attempt(ctx, s, ip, 'RayVector lists', loc(ctx, 'RayVector', '__init__'), cols, lambda: ip.construct(RV, [], dict(cols)))
    for tag, m, f in (('copy', 'copy', lambda ip, r: ip.call_method(r, 'copy')),
                      ('full slice', '__getitem__', lambda ip, r: ip.getitem(r, P_slice(None, None, None))),
                      ('slice', '__getitem__', lambda ip, r: ip.getitem(r, P_slice(const(1), None, const(2)))),
                      ('integer index', '__getitem__', lambda ip, r: ip.getitem(r, const(1))),
                      ('mask', '__getitem__', lambda ip, r: ip.getitem(r, Arr((4,), {(i,): i % 2 == 0 for i in range(4)}, Meta('b1', 'C', frozenset({'mask'}))))),
                      ('index list', '__getitem__', lambda ip, r: ip.getitem(r, ip.newlist([const(2), const(0)]))),
                      ('concatenation', None, lambda ip, r: ip.call(ip.function('rayVector', 'concatenateRayVectors'), [ip.newlist([r, bundle(ip, 2)])], {})),
                      ('concatenation of one', None, lambda ip, r: ip.call(ip.function('rayVector', 'concatenateRayVectors'), [ip.newlist([r])], {}))):
        for used in (False, True):
            ip = tinterp(ctx)
            r = bundle(ip, 4)
            if used:
                ip.toplevel(lambda: ip.getattr(r, '_rv'))
            where = loc(ctx, 'RayVector', m) if m else loc(ctx, 'concatenateRayVectors')
            attempt(ctx, s, ip, tag + (' of used rays' if used else ''), where, {'rays': r}, lambda: f(ip, r))


@rule('C12', 'ray-queries', need=20)
def ray_queries(ctx, s):
    """Computing quantities of a bundle changes neither the bundle nor the arrays given; nothing returned is storage of the arguments."""
    for m, mk in (('phase', lambda: [given('r', 3), REAL('t')]), ('amplitude', lambda: [given('r', 3), REAL('t')]),
                  ('sumAmplitude', lambda: [given('r', 3), REAL('t')]), ('positionAtTime', lambda: [REAL('t')]),
                  ('__eq__', None), ('__len__', lambda: []), ('__hash__', lambda: []), ('__repr__', lambda: [])):
        ip = tinterp(ctx)
        r = bundle(ip, 2)
        a = mk() if mk is not None else [bundle(ip, 2)]
        if ctx.py.cls('RayVector').find(m) is None:
            continue
        args = dict({'arg%d' % i: x for i, x in enumerate(a)}, rays=r)
        attempt(ctx, s, ip, 'RayVector.' + m, loc(ctx, 'RayVector', m), args, lambda: ip.call_method(r, m, *a), share=m in ('phase', 'amplitude', 'positionAtTime'), must=False)
    for q in ('r', 'v', 'k', 'kx', 'omega'):
        ip = tinterp(ctx)
        r = bundle(ip, 3)
        attempt(ctx, s, ip, 'RayVector.' + q, loc(ctx, 'RayVector'), {'rays': r}, lambda: ip.getattr(r, q))


QUERIES = (
    ('Sphere', 'sag', (2, 3)), ('Sphere', 'normal', (2, 3)), ('Plane', 'sag', (3,)), ('Plane', 'normal', (3,)), ('Bicubic', 'sag', (3,)), ('Bicubic', 'normal', (3,)),
    ('Zernike', 'sag', (3,)), ('Zernike', 'normal', (3,)), ('Sum', 'sag', (3,)), ('Sum', 'normal', (3,)),
)


@rule('C12', 'queries', need=20)
def queries(ctx, s):
    """Heights, normals, containment, indices and frame changes of points leave the given arrays alone."""
    def surface(ip, c):
        if c == 'Bicubic':
            return ip.construct(ctx.py.cls(c), [], dict(xs=given('xs', 3), ys=given('ys', 4), zs=given('zs', 4, 3)))
        if c == 'Zernike':
            return ip.construct(ctx.py.cls(c), [given('coef', 4)], {})
        if c == 'Sum':
            return ip.construct(ctx.py.cls(c), [objs('Plane', 'Sphere')(ip)], {})
        return ip.construct(ctx.py.cls(c), [REAL('R')] if c != 'Plane' else [], {})
    for c, m, d in QUERIES:
        ip = tinterp(ctx)
        o = ip.toplevel(lambda: surface(ip, c))
        a = dict(x=given('x', *d), y=given('y', *d))
        attempt(ctx, s, ip, '%s.%s' % (c, m), loc(ctx, c, m), dict(a, surface=o), lambda: ip.call_method(o, m, *a.values()), must=False)
    for c, ar in (('ObscCircle', [REAL('R')]), ('ObscAnnulus', [REAL('a'), REAL('b')]), ('ObscRectangle', [REAL('a'), REAL('b')]), ('ObscRay', [REAL('a'), REAL('b')]),
                  ('ObscPolygon', [given('px', 3), given('py', 3)])):
        ip = tinterp(ctx)
        o = ip.toplevel(lambda: ip.construct(ctx.py.cls(c), list(ar), {}))
        a = dict(x=given('x', 3), y=given('y', 3))
        attempt(ctx, s, ip, '%s.contains' % c, loc(ctx, c, 'contains'), dict(a, obsc=o), lambda: ip.call_method(o, 'contains', *a.values()), must=False)
    ip = tinterp(ctx)
    o = ip.toplevel(lambda: ip.construct(ctx.py.cls('ObscPolygon'), [given('px', 3), given('py', 3)], {}))
    a = dict(x=given('x', 3), y=given('y', 2))
    attempt(ctx, s, ip, 'ObscPolygon.containsGrid', loc(ctx, 'ObscPolygon', 'containsGrid'), dict(a, obsc=o), lambda: ip.call_method(o, 'containsGrid', *a.values()))
    for c, ar in (('ConstMedium', [REAL('n')]), ('TableMedium', [given('w', 3), given('n', 3)])):
        ip = tinterp(ctx)
        o = ip.toplevel(lambda: ip.construct(ctx.py.cls(c), list(ar), {}))
        a = given('wavelength', 3)
        attempt(ctx, s, ip, '%s.getN' % c, loc(ctx, c, 'getN'), {'wavelength': a, 'medium': o}, lambda: ip.call_method(o, 'getN', a), must=False)
    for m in ('applyForwardArray', 'applyReverseArray'):
        ip = tinterp(ctx)
        cs = [RO.coordsys(ip, 'a'), RO.coordsys(ip, 'b')]
        ct = ip.toplevel(lambda: ip.construct(ctx.py.cls('CoordTransform'), list(cs), {}))
        a = dict(x=given('x', 3), y=given('y', 3), z=given('z', 3))
        attempt(ctx, s, ip, 'CoordTransform.%s' % m, loc(ctx, 'CoordTransform', m), dict(a, frames=Tup(cs)), lambda: ip.call_method(ct, m, *a.values()))
    for c, m, mk in (('CoordSys', 'toGlobal', lambda ip: {'v': given('v', 3)}), ('CoordSys', 'toLocal', lambda ip: {'v': given('v', 3)}),
                     ('CoordSys', 'toGlobal', lambda ip: {'v': given('v', 2, 3)}), ('CoordSys', 'toLocal', lambda ip: {'v': given('v', 2, 3)}),
                     ('CoordSys', 'shiftGlobal', lambda ip: {'d': given('d', 3)}), ('CoordSys', 'shiftLocal', lambda ip: {'d': given('d', 3)}),
                     ('CoordSys', 'rotateGlobal', lambda ip: {'rot': rotg('rot')(ip)}), ('CoordSys', 'rotateLocal', lambda ip: {'rot': rotg('rot')(ip)}),
                     ('CoordSys', 'rotateGlobal', lambda ip: {'rot': rotg('rot')(ip), 'rotCenter': given('c', 3), 'coordSys': RO.coordsys(ip, 'f')}),
                     ('CoordSys', 'rotateLocal', lambda ip: {'rot': rotg('rot')(ip), 'rotCenter': given('c', 3), 'coordSys': RO.coordsys(ip, 'f')})):
        ip = tinterp(ctx)
        o = RO.coordsys(ip, 'a')
        a = mk(ip)
        attempt(ctx, s, ip, '%s.%s(%s)' % (c, m, ','.join(a)), loc(ctx, c, m), a, lambda: ip.call_method(o, m, *a.values()))


@rule('C12', 'projections', need=24)
def projections(ctx, s):
    """Angles and directions given to the projections are not changed."""
    names = [n[:-len('ToDirCos')] for n in ctx.py.mods['utils'].names if n.endswith('ToDirCos')]
    for n in names:
        for f, ar in ((n + 'ToDirCos', 'uv'), ('dirCosTo' + n[0].upper() + n[1:], 'abc')):
            if f not in ctx.py.mods['utils'].names:
                continue
            for d in ((3,), ()):
                ip = tinterp(ctx)
                a = {q: given(q, *d) for q in ar}
                attempt(ctx, s, ip, '%s%s' % (f, '' if d else ' of a point'), loc(ctx, f), a, lambda: ip.call(ip.function('utils', f), list(a.values()), {}), share=False)
    for f, ar in (('fieldToDirCos', 'uv'), ('dirCosToField', 'abc')):
        ip = tinterp(ctx)
        a = {q: given(q, 3) for q in ar}
        attempt(ctx, s, ip, f, loc(ctx, f), a, lambda: ip.call(ip.function('utils', f), list(a.values()), {'projection': 'gnomonic'}), share=False)


@rule('C12', 'factories', need=20)
def factories(ctx, s):
    """Ray factories leave the arrays they are given alone and do not put them into the bundle."""
    def own(v):
        if isinstance(v, Arr) and v.meta is not None:
            return Arr(v.dims, v.items, v.meta._replace(dtype='f8', layout='C'))
        return v
    for tag, name, kw, pos in factory_runs(ctx):
        if 'float32' in tag:
            continue
        kw, pos = {k: own(v) for k, v in kw.items()}, tuple(own(v) for v in pos)
        r = FRun(ctx, name, kw, pos)
        r.watch.judge(ctx, s, tag, r.where, r.res)
        if r.res is None:
            s.und(tag, r.where, 'no result')


class FRun(TRun):
    def extra(self, ip):
        TRun.extra(self, ip)
        self.watch = Watch(ip, self.given)

    def __init__(self, ctx, name, kw, pos):
        self.given = dict(kw, **{'arg%d' % i: x for i, x in enumerate(pos)})
        self.given = {k: v for k, v in self.given.items() if not isinstance(v, R)}
        TRun.__init__(self, ctx, name, kw, pos)


@rule('C12', 'configurations', need=60)
def configurations(ctx, s):
    """Parsing leaves the configuration as it was and keeps none of its dictionaries and lists."""
    def one(subj, fname, c, extra=()):
        b = TBuild(ctx)
        ip = b.ip
        try:
            pa = [f(b) for f in extra]
            cc = b.cfg(c)
        except (P.NoVerdict, P.Budget, P.Dead) as e:
            return s.und(subj, RP.fn(ctx, fname), str(e))
        args = {'config': cc}
        args.update({'arg%d' % i: x for i, x in enumerate(pa)})
        attempt(ctx, s, ip, subj, RP.fn(ctx, fname), args, lambda: ip.call(ip.function('parse', fname), [cc] + pa, {}), must=False)
    for i, c in enumerate(RP.surfaces()):
        one('surface %s #%d' % (RP.label(c), i), 'parse_surface', c)
    for i, c in enumerate(RP.obscs()):
        one('obscuration %s #%d' % (RP.label(c), i), 'parse_obscuration', c)
    for i, c in enumerate(RP.media()):
        if isinstance(c, dict):
            one('medium %s #%d' % (RP.label(c), i), 'parse_medium', c)
    parent = lambda b: b.frame({'shift': [RP.S('p0'), RP.S('p1'), RP.S('p2')], 'rotX': RP.S('pr')}, b.new('CoordSys'))
    for i, c in enumerate(RP.frames()):
        one('frame %s' % RP.label(c), 'parse_coordSys', c, (parent,))
    for i, (tag, c) in enumerate(RP.optics()):
        one('%s %s #%d' % (c['type'], tag, i), 'parse_optic', c)


class TBuild(RP.Build):
    make = staticmethod(tinterp)


MOTIONS = {
    'withGlobalShift': lambda ip: dict(shift=given('shift', 3)), 'withLocalShift': lambda ip: dict(shift=given('shift', 3)),
    'withGlobalRotation': lambda ip: dict(rot=rotg('rot')(ip), rotCenter=given('rotCenter', 3), coordSys=RO.coordsys(ip, 'f')),
    'withLocalRotation': lambda ip: dict(rot=rotg('rot')(ip), rotCenter=given('rotCenter', 3), coordSys=RO.coordsys(ip, 'f')),
}
NAMED = {
    'withGloballyShiftedOptic': lambda ip: dict(name=RO.name('C'), shift=given('shift', 3)),
    'withLocallyShiftedOptic': lambda ip: dict(name=RO.name('C'), shift=given('shift', 3)),
    'withLocallyRotatedOptic': lambda ip: dict(name=RO.name('C'), rot=rotg('rot')(ip), rotCenter=given('rotCenter', 3), coordSys=RO.coordsys(ip, 'f')),
    'withSurface': lambda ip: dict(name=RO.name('C'), surface=thing('new')),
    'withPerturbedSurface': lambda ip: dict(name=RO.name('C'), perturbation=thing('new')),
}


@rule('C12', 'derived-optics', need=70)
def derived(ctx, s):
    """Deriving an optic changes neither the optic nor the arrays that describe the change."""
    for cls in RO.KINDS:
        for op, mk in list(MOTIONS.items()) + [('withSurface', lambda ip: dict(surface=thing('new'))), ('withPerturbedSurface', lambda ip: dict(perturbation=thing('new')))]:
            ip = tinterp(ctx)
            stop = RO.interface(ip, 'Interface', 'stop', RO.coordsys(ip, 'b'))
            o = RO.interface(ip, cls, 'A', RO.coordsys(ip, 'a'), stop, pupilSize=REAL('pupilSize'))
            a = mk(ip)
            w = dict(a, optic=o)
            attempt(ctx, s, ip, '%s.%s' % (cls, op), loc(ctx, cls, op), w, lambda: ip.call_method(o, op, *a.values()), share=False)
    for op, mk in list(MOTIONS.items()) + list(NAMED.items()):
        t = TTree(ctx)
        ip = t.ip
        a = mk(ip)
        attempt(ctx, s, ip, 'CompoundOptic.' + op, loc(ctx, 'CompoundOptic', op), dict(a, optic=t.root), lambda: ip.call_method(t.root, op, *a.values()), share=False)
    for op, mk in (('withInsertedOptic', lambda ip: [RO.name('C'), RO.interface(ip, 'Mirror', 'N', RO.coordsys(ip, 'N'))]), ('withRemovedOptic', lambda ip: [RO.name('C')])):
        t = TTree(ctx)
        ip = t.ip
        a = mk(ip)
        attempt(ctx, s, ip, 'CompoundOptic.' + op, loc(ctx, 'CompoundOptic', op), {'optic': t.root, 'arg': Tup(a)}, lambda: ip.call_method(t.root, op, *a), share=False)


class TTree(RO.Tree):
    make = staticmethod(tinterp)


class TScene(RT.Scene):
    make = staticmethod(tinterp)

    def __init__(self, ctx):
        RT.Scene.__init__(self, ctx)
        self.ip.hooks.pop('RayVector.copy')

    def rays(self):
        r = bundle(self.ip, 2)
        self.ip.wr(r).fields['coordSys'] = RO.coordsys(self.ip, 'given')
        self.ip.toplevel(lambda: self.ip.getattr(r, '_rv'))
        return r


@rule('C12', 'trace-full', need=8)
def trace_full(ctx, s):
    """A history of a trace leaves the given bundle and the optic as they were."""
    for rev in (False, True):
        for cls in RO.KINDS:
            sc = TScene(ctx)
            ip = sc.ip
            el = sc.element(cls, 'A')
            rv = sc.rays()
            attempt(ctx, s, ip, '%s.traceFull%s' % (cls, ' reversed' if rev else ''), loc(ctx, cls, 'traceFull'), {'rays': rv, 'optic': el},
                    lambda: ip.call_method(el, 'traceFull', rv, reverse=rev), share=False)
        sc = TScene(ctx)
        ip = sc.ip
        t = sc.compound('T', [sc.element('Mirror', 'A'), sc.compound('L', [sc.element('RefractiveInterface', 'B'), sc.element('RefractiveInterface', 'C')], cls='Lens'), sc.element('Detector', 'D')])
        rv = sc.rays()
        attempt(ctx, s, ip, 'CompoundOptic.traceFull%s' % (' reversed' if rev else ''), loc(ctx, 'CompoundOptic', 'traceFull'), {'rays': rv, 'optic': t},
                lambda: ip.call_method(t, 'traceFull', rv, reverse=rev), share=False)
    for path in ('AB', 'ABA', 'BA'):
        sc = TScene(ctx)
        ip = sc.ip
        t = sc.compound('T', [sc.element('Mirror', 'A'), sc.element('RefractiveInterface', 'B')])
        rv = sc.rays()
        p = ip.newlist([RO.name(c) for c in path])
        attempt(ctx, s, ip, 'CompoundOptic.traceFull along %s' % path, loc(ctx, 'CompoundOptic', 'traceFull'), {'rays': rv, 'optic': t, 'path': p},
                lambda: ip.call_method(t, 'traceFull', rv, path=p), share=False)


@rule('C12', 'in-place-operations', need=20)
def in_place(ctx, s):
    """Operations that change the bundle they are given change nothing else."""
    for cls in RO.KINDS:
        for m in ('trace', 'interact', 'intersect', 'rSplit', 'traceSplit'):
            if ctx.py.cls(cls).find(m) is None:
                continue
            sc = TScene(ctx)
            ip = sc.ip
            el = sc.element(cls, 'A')
            rv = sc.rays()
            attempt(ctx, s, ip, '%s.%s' % (cls, m), loc(ctx, cls, m), {'optic': el, 'frame': ip.getattr(rv, 'coordSys')}, lambda: ip.call_method(el, m, rv), share=False, must=False)
    for path in (None, 'AB', 'ABA'):
        sc = TScene(ctx)
        ip = sc.ip
        t = sc.compound('T', [sc.element('Mirror', 'A'), sc.element('RefractiveInterface', 'B')])
        rv = sc.rays()
        kw = {} if path is None else {'path': ip.newlist([RO.name(c) for c in path])}
        attempt(ctx, s, ip, 'CompoundOptic.trace %s' % (path or ''), loc(ctx, 'CompoundOptic', 'trace'), dict(kw, optic=t, frame=ip.getattr(rv, 'coordSys')),
                lambda: ip.call_method(t, 'trace', rv, **kw), share=False)
    for m in ('toCoordSys', 'propagate'):
        sc = TScene(ctx)
        ip = sc.ip
        rv = sc.rays()
        cs = RO.coordsys(ip, 'to')
        attempt(ctx, s, ip, 'RayVector.' + m, loc(ctx, 'RayVector', m), {'frame': ip.getattr(rv, 'coordSys'), 'to': cs},
                lambda: ip.call_method(rv, m, cs if m == 'toCoordSys' else REAL('t')), share=False)
    for m in ('applyForward', 'applyReverse'):
        sc = TScene(ctx)
        ip = sc.ip
        rv = sc.rays()
        a, b = ip.getattr(rv, 'coordSys'), RO.coordsys(ip, 'to')
        ct = ip.toplevel(lambda: ip.construct(ctx.py.cls('CoordTransform'), [a, b] if m == 'applyForward' else [b, a], {}))
        attempt(ctx, s, ip, 'CoordTransform.' + m, loc(ctx, 'CoordTransform', m), {'from': a, 'to': b, 'transform': ct}, lambda: ip.call_method(ct, m, rv), share=False)


ANALYSES = (
    ('dkdu', {}), ('drdth', {}), ('dthdr', {}), ('focalLength', {}), ('wavefront', dict(nx=const(3))), ('wavefront', dict(nx=const(4), reference='mean')),
    ('spot', dict(nx=const(3))), ('fftPSF', dict(nx=const(3), pad_factor=const(2))), ('huygensPSF', dict(nx=const(3), nxOut=const(2))),
    ('zernike', dict(nx=const(3), jmax=const(3))), ('zernikeGQ', dict(jmax=const(3))),
    ('zernikeTA', dict(nrad=const(2), naz=const(6), jmax=const(3))), ('zernikeXYAberrations', dict(nrad=const(2), naz=const(6), jmax=const(3))),
)


@rule('C12', 'analyses', need=14)
def analyses(ctx, s):
    """Analyses change nothing of the optic they are given."""
    cases = [(f, [RA.OPT] + list(RA.ARGS), dict(kw, projection=RA.PROJ)) for f, kw in ANALYSES]
    cases.append(('exitPupilPos', [RA.OPT, RA.WL], {}))
    for i, (f, pos, kw) in enumerate(cases):
        where = loc(ctx, f)
        w = RA.World(ctx, f != 'zernikeGQ')
        watch = Watch(w.ip, {'optic': RA.OPT})
        err = None
        try:
            w.run(f, *pos, **kw)
        except (P.NoVerdict, P.Budget, P.Dead, KeyError, TypeError, AttributeError, IndexError) as e:
            err = str(e)
        watch.judge(ctx, s, '%s#%d' % (f, i), where, None, share=False)
        if err is not None or w.res is None:
            s.und('%s#%d/analysis' % (f, i), where, err or 'no result')
