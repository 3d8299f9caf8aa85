"""Configurations against the objects parsed from them.

The oracle builds each object directly with its constructor, from the same
symbolic values, following the meaning of the configuration keys.
"""
from fractions import Fraction
from . import terms as T
from .terms import V, R, ZERO, ONE, const
from .core import rule
from .pyvals import Arr, Tup, Ref, Cls, Str, MISSING, DictView
from .py import interp, done, loc, same_values, unclear
from .rules_frames import thing
from . import pyinterp as P

KN = ('native:*', 'numpy.*', 'sag', 'array', '.ctypes', 'field')


def S(n):
    return T.atom('var', ('cfg.' + n,), ('real',))


class Build:
    make = staticmethod(interp)

    """Configurations and the objects they mean, in one interpreter."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.ip = self.make(ctx)
        # the order in which a union or intersection keeps its members is immaterial
        self.ip.hooks['builtins.sorted'] = lambda ip, a, k: ip.newlist(ip.seq_items(a[0]))

    def new(self, cls, *a, **k):
        return self.ip.construct(self.ctx.py.cls(cls), list(a), dict(k))

    # configurations: nested python dicts / lists; leaves are abstract values
    def cfg(self, c):
        if isinstance(c, dict):
            return self.ip.newdict([(k, self.cfg(v)) for k, v in c.items()])
        if isinstance(c, list):
            return self.ip.newlist([self.cfg(v) for v in c])
        return c

    def lst(self, l):
        return self.ip.newlist(list(l))

    def val(self, v):
        """A fresh abstract copy of a configuration value."""
        return self.cfg(v)

    # -------------------------------------------------------------- oracle
    def surface(self, c):
        k = {n: self.val(v) for n, v in c.items() if n != 'type'}
        if c['type'] == 'Sum':
            return self.new('Sum', self.lst([self.surface(x) for x in c['items']]))
        return self.new(c['type'], **k)

    def obsc(self, c):
        t = c['type']
        if t == 'ObscNegation':
            return self.new(t, self.obsc(c['original']))
        if t in ('ObscUnion', 'ObscIntersection'):
            return self.new(t, *[self.obsc(x) for x in c['items']])
        if t.startswith('Clear'):
            return self.new('ObscNegation', self.obsc(dict(c, type='Obsc' + t[5:])))
        return self.new(t, **{n: self.val(v) for n, v in c.items() if n != 'type'})

    def medium(self, c):
        if c is None or isinstance(c, Ref):
            return c
        if isinstance(c, R):
            return self.new('ConstMedium', c)
        return self.new(c['type'], **{n: self.val(v) for n, v in c.items() if n != 'type'})

    def frame(self, c, cs):
        ip = self.ip
        for k, v in c.items():
            if k in ('x', 'y', 'z'):
                cs = ip.call_method(cs, 'shiftLocal', self.lst([v if k == q else ZERO for q in 'xyz']))
            elif k == 'shift':
                cs = ip.call_method(cs, 'shiftLocal', self.val(v))
            elif k in ('rotX', 'rotY', 'rotZ'):
                cs = ip.call_method(cs, 'rotateLocal', ip.call(ip.function('coordSys', 'R' + k[1:]), [v], {}))
        return cs

    def optic(self, c, cs=None, inm=None, outm=None):
        if cs is None:
            cs = self.new('CoordSys')
        cs = self.frame(c.get('coordSys', {}), cs)
        inm = self.medium(c['inMedium']) if 'inMedium' in c else inm if inm is not None else self.new('ConstMedium', ONE)
        outm = self.medium(c['outMedium']) if 'outMedium' in c else outm
        if outm is None:
            outm = inm
        k = {n: self.val(c[n]) for n in ('backDist', 'sphereRadius', 'pupilSize', 'pupilObscuration', 'R_outer', 'R_inner') if n in c}
        if 'stopSurface' in c:
            k['stopSurface'] = self.optic(c['stopSurface'])
        k.update(name=c.get('name', ''), coordSys=cs, inMedium=inm, outMedium=outm)
        t = c['type']
        if t == 'Lens':
            m = self.medium(c['medium'])
            return self.new(t, self.lst([self.optic(c['items'][0], cs, inm, m), self.optic(c['items'][1], cs, m, outm)]), medium=m, **k)
        if t == 'CompoundOptic':
            return self.new(t, self.lst([self.optic(x, cs, inm, outm) for x in c['items']]), **k)
        k['obscuration'] = self.obsc(c['obscuration']) if 'obscuration' in c else None
        a = [self.surface(c['surface'])] + ([self.surface(c['screen'])] if t == 'OPDScreen' else [])
        return self.new(t, *a, **k)

    # ---------------------------------------------------------- comparison
    def plain(self, v, seen=()):
        """Python rendering of a configuration value's present content."""
        if isinstance(v, Ref):
            o = self.ip.obj(v)
            if o.kind in ('dict',):
                return ('dict', [(k, self.plain(x)) for k, x in o.fields.items() if x is not MISSING])
            if o.kind == 'list':
                c = o.fields[0]
                return ('list', [self.plain(x) for x in c.items]) if isinstance(c, Tup) else ('?', c)
            return ('ref', v.id)
        return ('val', v)

    def unchanged(self, a, b, path=''):
        if a[0] != b[0]:
            return path or 'itself'
        if a[0] == 'dict':
            x, y = dict(a[1]), dict(b[1])
            for k in list(x) + [q for q in y if q not in x]:
                if k not in x or k not in y:
                    return '%s[%r] %s' % (path, k, 'removed' if k in x else 'added')
                r = self.unchanged(x[k], y[k], '%s[%r]' % (path, k))
                if r:
                    return r
            return None
        if a[0] == 'list':
            if len(a[1]) != len(b[1]):
                return path + ' length'
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                r = self.unchanged(x, y, '%s[%d]' % (path, i))
                if r:
                    return r
            return None
        if a[0] == 'ref':
            return None if a[1] == b[1] else path
        return None if T.compare(a[1], b[1]) is None else path

    def differ(self, a, b, path, seen):
        """First difference between two objects: None, ('bad', text) or ('und', text)."""
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id or (a.id, b.id) in seen:
                return None
            seen.add((a.id, b.id))
            x, y = self.ip.obj(a), self.ip.obj(b)
            if x.kind != y.kind or x.cls is not y.cls:
                n = lambda o: o.cls.name if o.cls is not None else o.kind
                return ('bad', '%s is a %s, expected a %s' % (path, n(x), n(y)))
            und = None
            for k in sorted(set(x.fields) | set(y.fields), key=str):
                p, q = x.fields.get(k, MISSING), y.fields.get(k, MISSING)
                r = self.differ(p, q, '%s.%s' % (path, k) if not isinstance(k, int) else path, seen)
                if r is not None:
                    if r[0] == 'bad':
                        return r
                    und = r
            return und
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return ('bad', '%s has %d items, expected %d' % (path, len(a.items), len(b.items)))
            und = None
            for i, (p, q) in enumerate(zip(a.items, b.items)):
                r = self.differ(p, q, '%s[%d]' % (path, i), seen)
                if r is not None:
                    if r[0] == 'bad':
                        return r
                    und = r
            return und
        if a is MISSING or b is MISSING:
            return None if a is b or path.split('.')[-1].startswith('_') else ('bad', '%s is %s, expected %s' % (path, T.show(a), T.show(b)))
        if isinstance(a, Ref) != isinstance(b, Ref):
            if isinstance(a, V) or isinstance(b, V):
                return ('und', '%s is conditional' % path)
            n = lambda v: self.ip.obj(v).cls.name if isinstance(v, Ref) and self.ip.obj(v).cls is not None else T.show(v)
            u = None
            for v in (a, b):
                if isinstance(v, R):
                    u = u or unclear(v, KN)
            return ('und' if u else 'bad', '%s is %s, expected %s' % (path, n(a), n(b)))
        if isinstance(a, R) and isinstance(b, R):
            i, j = T.single_atom(a), T.single_atom(b)
            if i is not None and j is not None and T.ATOMS[i][0] == T.ATOMS[j][0] and str(T.ATOMS[i][0]).startswith('native:'):
                return None      # built from the fields compared separately
        m = T.compare(same_values(a), same_values(b))
        if m is None:
            return None
        u = None
        if not m.undecided:
            for q in (m.a, m.b):
                if isinstance(q, (R, V)) or hasattr(q, 'sub_values'):
                    u = u or unclear(q, KN)
        return ('und' if m.undecided or u else 'bad', '%s: %s' % (path, m.text()))


def fn(ctx, name):
    return loc(ctx, name)


def run(ctx, s, subj, fname, c, oracle, args=(), keep=True):
    """fname(c, *args) means oracle and leaves c alone."""
    try:
        b = Build(ctx)
        ip = b.ip
        pa = [f(b) for f in args]
        cc = b.cfg(c)
        before = b.plain(cc)
        r0 = len(ip.raised)
        want = None
        if oracle is not None:
            want = ip.toplevel(lambda: oracle(b, *pa))
            if want is None and not any(r[0] is True for r in ip.raised[r0:]):
                return s.und(subj, fn(ctx, fname), 'no reference object')
            if want is None:
                oracle = None      # an inconsistent configuration
            r0 = len(ip.raised)
        got = ip.toplevel(lambda: ip.call(ip.function('parse', fname), [cc] + pa, {}))
        where = fn(ctx, fname)
        done(ctx, ip)
        rs = ip.raised[r0:]
        if got is None and (rs or oracle is None):
            if oracle is None:
                (s.ok if any(r[0] is True for r in rs) else s.und if rs else s.bad)(subj, where, '' if rs else 'does not raise')
            elif any(r[0] is True for r in rs):
                r = [r for r in rs if r[0] is True][0]
                s.bad(subj, where, 'raises %s %s' % (r[1], T.show(r[-1])[:80]))
            else:
                s.und(subj, where, 'no result')
            return
        if oracle is None:
            return (s.bad if isinstance(got, Ref) else s.und)(subj, where, 'does not raise')
        d = b.differ(got, want, 'result', set())
        if d is None:
            s.ok(subj, where)
        else:
            (s.bad if d[0] == 'bad' else s.und)(subj, where, d[1])
        ch = b.unchanged(before, b.plain(cc), 'config')
        s.check(ch is None, subj + '/kept', where, 'the configuration passed in changes: %s' % ch)
    except (P.NoVerdict, P.Budget, P.Dead) as e:
        s.und(subj, fn(ctx, fname), '%s: %s' % (type(e).__name__, e))


# ------------------------------------------------------------------ families
def surfaces():
    yield {'type': 'Plane'}
    yield {'type': 'Tilted', 'tanx': S('tx'), 'tany': S('ty')}
    yield {'type': 'Paraboloid', 'R': S('R')}
    yield {'type': 'Sphere', 'R': S('R')}
    yield {'type': 'Quadric', 'R': S('R'), 'conic': S('k')}
    yield {'type': 'Asphere', 'R': S('R'), 'conic': S('k'), 'coefs': [S('a0'), S('a1'), S('a2')]}
    yield {'type': 'Zernike', 'coef': [S('a0'), S('a1'), S('a2')], 'R_outer': S('ro'), 'R_inner': S('ri')}
    yield {'type': 'Zernike', 'coef': [S('a0'), S('a1')]}
    yield {'type': 'Sum', 'items': [{'type': 'Plane'}, {'type': 'Quadric', 'R': S('R'), 'conic': S('k')}]}
    yield {'type': 'Sum', 'items': [{'type': 'Sum', 'items': [{'type': 'Sphere', 'R': S('q')}, {'type': 'Plane'}]}, {'type': 'Paraboloid', 'R': S('R')}]}


def simple_obsc():
    yield 'Circle', {'radius': S('r')}
    yield 'Circle', {'radius': S('r'), 'x': S('x'), 'y': S('y')}
    yield 'Annulus', {'inner': S('i'), 'outer': S('o'), 'x': S('x'), 'y': S('y')}
    yield 'Annulus', {'inner': S('i'), 'outer': S('o')}
    yield 'Rectangle', {'width': S('w'), 'height': S('h'), 'x': S('x'), 'y': S('y'), 'theta': S('th')}
    yield 'Rectangle', {'width': S('w'), 'height': S('h')}
    yield 'Ray', {'width': S('w'), 'theta': S('th'), 'x': S('x'), 'y': S('y')}
    yield 'Polygon', {'xs': [S('x0'), S('x1'), S('x2')], 'ys': [S('y0'), S('y1'), S('y2')]}


def obscs():
    for n, k in simple_obsc():
        yield dict({'type': 'Obsc' + n}, **k)
        yield dict({'type': 'Clear' + n}, **k)
        yield {'type': 'ObscNegation', 'original': dict({'type': 'Obsc' + n}, **k)}
    a, b, c = ({'type': 'ObscCircle', 'radius': S('r%d' % i)} for i in range(3))
    for t in ('ObscUnion', 'ObscIntersection'):
        yield {'type': t, 'items': [a, b]}
        yield {'type': t, 'items': [a, {'type': 'ClearRectangle', 'width': S('w'), 'height': S('h')}, {'type': 'ObscUnion' if t != 'ObscUnion' else 'ObscIntersection', 'items': [b, c]}]}
        yield {'type': 'ObscNegation', 'original': {'type': t, 'items': [a, b]}}


def media():
    yield S('n')
    yield {'type': 'ConstMedium', 'n': S('n')}
    yield {'type': 'TableMedium', 'wavelengths': [S('w0'), S('w1')], 'ns': [S('n0'), S('n1')]}
    yield dict({'type': 'SellmeierMedium'}, **{n: S(n) for n in ('B1', 'B2', 'B3', 'C1', 'C2', 'C3')})
    yield dict({'type': 'SumitaMedium'}, **{'A%d' % i: S('s%d' % i) for i in range(6)})
    yield {'type': 'Air'}
    yield {'type': 'Air', 'pressure': S('p'), 'temperature': S('t'), 'h2o_pressure': S('h')}
    yield {'type': 'Air', 'temperature': S('t')}


def frames():
    yield {}
    for k in ('x', 'y', 'z', 'rotX', 'rotY', 'rotZ'):
        yield {k: S('a')}
    yield {'shift': [S('a'), S('b'), S('c')]}
    yield {'x': S('a'), 'y': S('b'), 'z': S('c')}
    yield {'z': S('c'), 'rotX': S('t')}
    yield {'rotX': S('t'), 'z': S('c')}
    yield {'x': S('a'), 'rotY': S('t'), 'rotZ': S('u')}
    yield {'rotZ': S('t'), 'shift': [S('a'), S('b'), S('c')], 'rotX': S('u')}


def reordered(c):
    return dict(reversed(list(c.items())))


def label(c):
    if not isinstance(c, dict):
        return 'number' if isinstance(c, R) else T.show(c)
    return '%s(%s)' % (c.get('type', ''), ','.join(k for k in c if k != 'type'))


SINGLE = ('Mirror', 'RefractiveInterface', 'OPDScreen', 'Baffle', 'Detector', 'Interface')
EXTRA = {'backDist': S('bd'), 'sphereRadius': S('sr'), 'pupilSize': S('ps'), 'pupilObscuration': S('po'), 'R_outer': S('Ro'), 'R_inner': S('Ri')}


def single(t, **k):
    c = {'type': t, 'surface': {'type': 'Paraboloid', 'R': S('R')}}
    if t == 'OPDScreen':
        c['screen'] = {'type': 'Quadric', 'R': S('R2'), 'conic': S('k')}
    c.update(k)
    return c


CS = {'x': S('a'), 'rotY': S('t')}
OBS = {'type': 'ClearAnnulus', 'inner': S('i'), 'outer': S('o')}
MED = dict({'type': 'SellmeierMedium'}, **{n: S(n) for n in ('B1', 'B2', 'B3', 'C1', 'C2', 'C3')})


def optics():
    for t in SINGLE:
        yield 'plain', single(t)
        yield 'full', single(t, name='nm', coordSys=CS, obscuration=OBS, inMedium=S('n1'), outMedium=MED, **EXTRA)
        yield 'in only', single(t, inMedium=MED, name='q')
        yield 'out only', single(t, outMedium=S('n2'), obscuration={'type': 'ObscCircle', 'radius': S('r')})
        for k in EXTRA:
            yield k, single(t, **{k: EXTRA[k]})
        yield 'own frame', single(t, coordSys={'rotZ': S('u'), 'z': S('zz')})
    for kw, tag in (({}, 'plain'), ({'name': 'nm', 'coordSys': CS, 'inMedium': S('n1'), 'outMedium': S('n2')}, 'full'),
                    (dict({'coordSys': CS}, **EXTRA), 'extra')):
        a = single('RefractiveInterface', name='A', coordSys={'z': S('z1')})
        b = single('RefractiveInterface', name='B', coordSys={'z': S('z2'), 'rotX': S('v')}, obscuration=OBS)
        yield tag, dict({'type': 'Lens', 'medium': MED, 'items': [a, b]}, **kw)
        yield tag + ' own media', dict({'type': 'Lens', 'medium': S('nl'), 'items': [dict(a, inMedium=S('m1')), dict(b, outMedium=S('m2'), inMedium=S('m3'))]}, **kw)
        m = single('Mirror', name='M', coordSys={'z': S('z3')}, obscuration=OBS)
        lens = {'type': 'Lens', 'name': 'L', 'medium': S('nl'), 'coordSys': {'y': S('yl')}, 'items': [a, b]}
        d = single('Detector', name='D', coordSys={'rotX': S('w')})
        stop = single('Interface', name='stop')
        yield tag, dict({'type': 'CompoundOptic', 'items': [m, lens, d]}, **kw)
        yield tag + ' nested', dict({'type': 'CompoundOptic', 'items': [{'type': 'CompoundOptic', 'name': 'I', 'coordSys': {'z': S('zi')}, 'items': [m, lens]}, d]}, **kw)
        yield tag + ' one item', dict({'type': 'CompoundOptic', 'items': [single('Mirror', name='M', inMedium=S('n5'))]}, **kw)
        if 'coordSys' not in kw:
            yield tag + ' stop', dict({'type': 'CompoundOptic', 'items': [m], 'stopSurface': stop}, **kw)
            yield tag + ' stop frame', dict({'type': 'CompoundOptic', 'items': [m], 'stopSurface': dict(stop, coordSys={'z': S('zs')}, inMedium=S('ns'))}, **kw)


@rule('C20', 'surfaces', need=8)
def r_surf(ctx, s):
    for c in surfaces():
        run(ctx, s, label(c), 'parse_surface', c, lambda b: b.surface(c))
        run(ctx, s, label(c) + ' reordered', 'parse_surface', reordered(c), lambda b: b.surface(c))


@rule('C20', 'obscurations', need=8)
def r_obsc(ctx, s):
    for i, c in enumerate(obscs()):
        t = '%s #%d' % (label(c), i)
        run(ctx, s, t, 'parse_obscuration', c, lambda b: b.obsc(c))
        run(ctx, s, t + ' reordered', 'parse_obscuration', reordered(c), lambda b: b.obsc(c))


@rule('C20', 'media', need=8)
def r_media(ctx, s):
    for i, c in enumerate(media()):
        t = '%s #%d' % (label(c), i)
        run(ctx, s, t, 'parse_medium', c, lambda b: b.medium(c))
        if isinstance(c, dict):
            run(ctx, s, t + ' reordered', 'parse_medium', reordered(c), lambda b: b.medium(c))


@rule('C20', 'frames', need=8)
def r_frames(ctx, s):
    parent = lambda b: b.frame({'shift': [S('p0'), S('p1'), S('p2')], 'rotX': S('pr')}, b.new('CoordSys'))
    for i, c in enumerate(frames()):
        run(ctx, s, label(c) + ' global', 'parse_coordSys', c, lambda b: b.frame(c, b.new('CoordSys')))
        run(ctx, s, label(c) + ' child', 'parse_coordSys', c, lambda b, p: b.frame(c, p), (parent,))


@rule('C20', 'optics', need=40)
def r_optics(ctx, s):
    parent = lambda b: b.frame({'shift': [S('p0'), S('p1'), S('p2')], 'rotX': S('pr')}, b.new('CoordSys'))
    m1, m2 = (lambda b: b.new('ConstMedium', S('pm1'))), (lambda b: b.new('ConstMedium', S('pm2')))
    for i, (tag, c) in enumerate(optics()):
        t = '%s %s #%d' % (c['type'], tag, i)
        run(ctx, s, t, 'parse_optic', c, lambda b: b.optic(c))
        run(ctx, s, t + ' child', 'parse_optic', c, lambda b, p, x, y: b.optic(c, p, x, y), (parent, m1, m2))
        run(ctx, s, t + ' reordered', 'parse_optic', reordered(c), lambda b: b.optic(c))


@rule('C20', 'unknown', need=3)
def r_unknown(ctx, s):
    run(ctx, s, 'surface type', 'parse_surface', {'type': 'NoSuchThing', 'R': S('R')}, None)
    run(ctx, s, 'obscuration type', 'parse_obscuration', {'type': 'NoSuchThing', 'radius': S('R')}, None)
    run(ctx, s, 'obscuration type Clear', 'parse_obscuration', {'type': 'ClearNoSuchThing', 'radius': S('R')}, None)
    run(ctx, s, 'optic type', 'parse_optic', single('NoSuchThing'), None)
    run(ctx, s, 'medium type', 'parse_medium', {'type': 'NoSuchThing', 'n': S('R')}, None)
    run(ctx, s, 'surface argument', 'parse_surface', {'type': 'Sphere', 'R': S('R'), 'nosuch': S('q')}, None)
    run(ctx, s, 'obscuration argument', 'parse_obscuration', {'type': 'ObscCircle', 'radius': S('R'), 'nosuch': S('q')}, None)
