"""Ray bundles as containers (Python side)."""
from . import terms as T
from .terms import V, R, ZERO, ONE, const, var
from .core import rule
from .pyvals import Arr, Tup, Ref, Cls, MISSING, SliceV
from .pyinterp import vand, vor, vnot, truthv
from .py import interp, done, loc, vec, judge, same_values, coordsys, CS, rot_equal
from .rules_frames import thing, frame_is
from .rules_trace import FIELDS, rayfield


def rays(ip, nm, cs, opaque=False):
    """A ray bundle by its per-ray arrays (a generic ray of each, or opaque arrays)."""
    r = ip.instance('RayVector', {'_' + q: thing('%s._%s' % (nm, q)) if opaque else rayfield(nm, q) for q in FIELDS}, False)
    f = ip.wr(r).fields
    f['coordSys'] = cs
    f['_rv'] = thing(nm + '._rv')
    return r


def field(ip, ref, q):
    return ip.obj(ref).fields.get('_' + q, MISSING)


# ------------------------------------------------------------------- aliasing
FRESH = {'numpy.copy', '.copy', 'numpy.hstack', 'numpy.concatenate', 'numpy.empty', 'numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.empty_like',
         'numpy.zeros_like', 'numpy.ones_like', 'numpy.full_like', 'numpy.vstack', 'numpy.column_stack', 'numpy.where', 'copy.copy', 'copy.deepcopy',
         '.flatten', '.tolist', 'numpy.stack', 'numpy.append', 'numpy.tile', 'numpy.repeat', 'numpy.take', '.take', 'numpy.compress'}
VIEW = {'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asfortranarray', 'numpy.asanyarray', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.ravel', '.ravel',
        '.reshape', 'numpy.reshape', '.view', '.squeeze', 'numpy.squeeze', 'numpy.broadcast_to', '.transpose', 'numpy.transpose', 'numpy.require', 'attr',
        'numpy.flip', '.swapaxes', 'numpy.real'}


def kwargs_of(args):
    return {a.items[0]: a.items[1] for a in args if isinstance(a, Tup) and len(a.items) == 2 and isinstance(a.items[0], str)}


def may_alias(v, src):
    """Whether the array v can share memory with the array src: True, False or None (unknown)."""
    if isinstance(v, V):
        a, b = may_alias(v.hi, src), may_alias(v.lo, src)
        return True if True in (a, b) else None if None in (a, b) else False
    if not isinstance(v, R):
        return False if isinstance(v, (bool, str, type(None))) else None
    if T.veq(v, src):
        return True
    i = T.single_atom(v)
    if i is None:
        return False              # arithmetic makes a new array
    n, args = T.ATOMS[i]
    if n in FRESH:
        return False
    if n == 'numpy.array':
        c = kwargs_of(args).get('copy', True)
        return False if c is True else may_alias(args[0], src)
    if n == '.astype':
        c = kwargs_of(args).get('copy', True)
        return False if c is True else may_alias(args[0], src)
    if n == 'getitem':
        r = may_alias(args[0], src)
        if r is False:
            return False
        ix = args[1]
        basic = lambda q: isinstance(q, SliceV) or q is None or isinstance(q, R) and T.is_const(q) or isinstance(q, Tup) and all(basic(z) for z in q.items)
        return r if basic(ix) else None
    if n in VIEW:
        return may_alias(args[0], src)
    if n == 'var':
        return False
    return None


def independent(s, subj, where, v, src):
    r = may_alias(v, src)
    if r is False:
        s.ok(subj, where)
    elif r:
        s.bad(subj, where, 'shares memory with the original array')
    else:
        s.und(subj, where, T.show(v))


# ----------------------------------------------------------------------- rules
@rule('C14', 'construct', need=20)
def construct(ctx, s):
    """A bundle holds exactly the per-ray quantities it is given, and none of the caller's arrays."""
    where = loc(ctx, 'RayVector', '__init__')
    for how in ('__init__', '_directInit'):
        if how == '_directInit' and ctx.py.cls('RayVector').find(how) is None:
            continue
        ip = interp(ctx)
        cs = coordsys(ip, 'a')
        args = [thing(q) for q in FIELDS] + [cs]
        if how == '__init__':
            r = ip.construct(ctx.py.cls('RayVector'), args, {})
        else:
            r = ip.call_method(Cls(ctx.py.cls('RayVector')), how, *args)
        for q in FIELDS:
            judge(s, '%s.%s' % (how, q), where, field(ip, r, q), thing(q), known=('numpy.broadcast', 'attr'))
            if how == '__init__':
                independent(s, '%s.%s independent' % (how, q), where, field(ip, r, q), thing(q))
        s.check(ip.getattr(r, 'coordSys') == cs, how + '.coordSys', where, 'not the system given')
        done(ctx, ip)
    # documented defaults
    ip = interp(ctx)
    r = ip.construct(ctx.py.cls('RayVector'), [thing(q) for q in FIELDS[:6]], {})
    for q, d in (('t', ZERO), ('wavelength', ZERO), ('flux', ONE), ('vignetted', False), ('failed', False)):
        judge(s, 'default.' + q, where, field(ip, r, q), d)
    eye = coordsys(ip, 'x')
    g = ip.construct(ctx.py.cls('CoordSys'), [], {})
    frame_is(ctx, s, ip, 'default.coordSys', where, ip.getattr(r, 'coordSys'), g)
    done(ctx, ip)


@rule('C14', 'copy', need=22)
def copy_(ctx, s):
    """A copy has every quantity and the frame, and shares no array with the original."""
    where = loc(ctx, 'RayVector', 'copy')
    ip = interp(ctx)
    cs = coordsys(ip, 'a')
    rv = rays(ip, 'rv', cs, True)
    c = ip.call_method(rv, 'copy')
    if not isinstance(c, Ref):
        return s.und('copy', where, T.show(c))
    s.check(c != rv, 'copy is new', where, 'returns the original')
    for q in FIELDS:
        v = field(ip, c, q)
        judge(s, 'copy.' + q, where, v, thing('rv._' + q))
        independent(s, 'copy.%s independent' % q, where, v, thing('rv._' + q))
    frame_is(ctx, s, ip, 'copy.coordSys', where, ip.getattr(c, 'coordSys'), cs)
    h = ip.obj(c).fields.get('_rv', MISSING)
    s.check(h is MISSING or h is not None and not T.veq(h, thing('rv._rv')), 'copy native handle', where, 'uses the native object of the original')
    done(ctx, ip)


def index_cases():
    i = T.atom('var', ('i',), ('int',))
    n = var('n')
    yield 'slice', SliceV(var('a'), var('b'), var('c')), None
    yield 'mask', Arr(('N',), {(): T.bool_atom('truthy', var('w'))}), None
    yield 'index array', thing('idx'), None
    yield 'int', i, i


@rule('C14', 'index', need=60)
def index(ctx, s):
    """Indexing selects the same rays of every quantity, keeps the frame, and fails only out of range."""
    where = loc(ctx, 'RayVector', '__getitem__')
    n = T.atom('var', ('n',), ('int', 'nonneg'))
    for tag, idx, i in index_cases():
        ip = interp(ctx)
        cs = coordsys(ip, 'a')
        rv = rays(ip, 'rv', cs, True)

        def size(v):
            """Every spelling of the number of rays is n."""
            sub = {}
            for a in T.val_atoms(v) if isinstance(v, V) else T.all_atoms(v) if isinstance(v, R) else ():
                for d in T.deep_atoms(a):
                    nm, args = T.ATOMS[d]
                    if nm == 'attr' and args[1] == 'size' or nm == 'len':
                        sub[d] = n
            return deep(v, sub)
        r = ip.call_method(rv, '__getitem__', idx)
        if not isinstance(r, Ref):
            s.und('[%s]' % tag, where, T.show(r))
            continue
        frame_is(ctx, s, ip, '[%s].coordSys' % tag, where, ip.getattr(r, 'coordSys'), cs)
        ok = True
        if i is not None:
            # within range: a bundle of the one ray meant
            ok = vand(T.vlt(i, n), vnot(T.vlt(T.radd(i, n), ZERO)))
            # a size is never negative
            possible = vand(vor(vnot(T.vlt(i, ZERO)), T.vlt(i, n)), vor(T.vlt(i, ZERO), vnot(T.vlt(T.radd(i, n), ZERO))))
            ok = vand(ok, possible)
        for q in FIELDS:
            v = field(ip, r, q)
            src = thing('rv._' + q)
            if i is None:
                judge(s, '[%s].%s' % (tag, q), where, v, ip.getitem(src, idx), known=('getitem',))
            else:
                lo = T.ite(T.gt0(T.rsub(ZERO, i)), T.radd(i, n), i)
                want = T.vmap(lambda a: ip.getitem(src, SliceV(a, T.radd(a, ONE), None)), lo)
                judge(s, '[%s].%s' % (tag, q), where, size(same_values(v)), want, known=('getitem',), guard=ok)
            if tag in ('slice', 'int'):
                independent(s, '[%s].%s independent' % (tag, q), where, v, src)
        bad = False
        for g, name, h, d in ip.raised:
            bad = vor(bad, g)
        if i is None:
            s.check(bad is False or not ip.sat(bad), '[%s] accepted' % tag, where, 'raises')
        else:
            judge(s, '[%s] out of range raises' % tag, where, size(bad), vnot(ok), guard=possible)
            s.check(all(x[1] == 'IndexError' for x in ip.raised), '[%s] IndexError' % tag, where, 'raises %s' % sorted({x[1] for x in ip.raised}))
        done(ctx, ip)


def deep(v, sub):
    """Substitute atoms at any depth."""
    memo = {}

    def at(i):
        if i in sub:
            return sub[i]
        if i in memo:
            return memo[i]
        memo[i] = None
        n, args = T.ATOMS[i]
        if n == 'var' or not args:
            return None
        na = tuple(go(x) for x in args)
        if any(x is not y and not T.veq(x, y) for x, y in zip(na, args)):
            if n == 'gt0' and isinstance(na[0], R):
                memo[i] = T.gt0(na[0])
            elif n == 'eq0' and isinstance(na[0], R):
                memo[i] = T.eq0(na[0])
            else:
                memo[i] = T.atom(n, na, tuple(T._FLAGS[i]))
        return memo[i]

    def go(x):
        if isinstance(x, R):
            m = {i: at(i) for i in T.all_atoms(x)}
            m = {i: r for i, r in m.items() if r is not None}
            return T.rsubst(x, m) if m else x
        if isinstance(x, V):
            m = {i: at(i) for i in T.val_atoms(x)}
            m = {i: r for i, r in m.items() if r is not None}
            return T.vsubst(x, m) if m else x
        if hasattr(x, 'rebuild'):
            return x.rebuild([go(y) for y in x.sub_values()])
        return x
    return go(v)


@rule('C14', 'length', need=1)
def length(ctx, s):
    """The length is the number of rays."""
    ip = interp(ctx)
    rv = rays(ip, 'rv', coordsys(ip, 'a'), True)
    v = ip.call_method(rv, '__len__')
    where = loc(ctx, 'RayVector', '__len__')
    good = []
    for q in FIELDS:
        a = thing('rv._' + q)
        good += [T.atom('attr', (a, 'size')), T.atom('len', (a,), ('int', 'nonneg')), T.atom('attr', (T.atom('attr', (thing('rv._rv'), q)), 'size')),
                 T.atom('getitem', (T.atom('attr', (a, 'shape')), ZERO))]
    if any(T.veq(v, g) for g in good):
        s.ok('len', where)
    else:
        judge(s, 'len', where, v, good[6 * 4])
    done(ctx, ip)


@rule('C14', 'concatenate', need=14)
def concatenate(ctx, s):
    """Concatenation joins every quantity in order, in one frame."""
    where = loc(ctx, 'concatenateRayVectors')
    for tag in ('one frame', 'two frames'):
        ip = interp(ctx)
        a = coordsys(ip, 'a')
        b = a if tag == 'one frame' else coordsys(ip, 'b')
        r1, r2 = rays(ip, 'r1', a, True), rays(ip, 'r2', b, True)
        n0 = len(ip.events)
        c = ip.call_value(ip.function('rayVector', 'concatenateRayVectors'), ip.newlist([r1, r2]))
        if not isinstance(c, Ref):
            s.und(tag, where, T.show(c))
            continue
        if tag == 'one frame':
            for q in FIELDS:
                x, y = thing('r1._' + q), thing('r2._' + q)
                v = same_values(field(ip, c, q))
                want = T.atom('numpy.hstack', (Tup((x, y)),))
                v = joined(v)
                judge(s, '%s.%s' % (tag, q), where, v, want, known=('numpy.hstack', 'numpy.broadcast'))
            frame_is(ctx, s, ip, tag + '.coordSys', where, ip.getattr(c, 'coordSys'), a)
        else:
            got = ip.getattr(c, 'coordSys')
            # rays of another frame must be brought into the one the result is labelled with (or be refused)
            tf = [e for e in ip.events[n0:] if e.kind == 'native' and e.name.startswith('apply') and e.name.endswith('Transform')]
            refused = [x for x in ip.raised]
            s.check(bool(tf) or bool(refused), tag, where, 'rays expressed in another frame are relabelled without being transformed')
            for e in tf:
                s.check(not any(T.veq(x, thing('r1._rv')) or T.veq(x, thing('r2._rv')) for x in e.args), tag + ' input', e.loc, 'a bundle passed in is transformed')
        done(ctx, ip)


def joined(v):
    """One spelling of joining one-dimensional arrays."""
    def go(i):
        n, args = T.ATOMS[i]
        if n in ('numpy.concatenate', 'numpy.hstack', 'numpy.append', 'numpy.r_'):
            a = args[0]
            if n == 'numpy.append':
                a = Tup(args[:2])
            return T.atom('numpy.hstack', (a,))
        return None
    if isinstance(v, R):
        i = T.single_atom(v)
        return (go(i) if i is not None else None) or v
    if isinstance(v, V):
        return T.vmap(joined, v)
    return v


@rule('C14', 'accessors', need=20)
def accessors(ctx, s):
    """Every accessor gives the quantity it names."""
    ip = interp(ctx)
    rv = rays(ip, 'rv', coordsys(ip, 'a'))
    g = lambda q: rayfield('rv', q).items[()]
    f = {q: rayfield('rv', q) for q in FIELDS}
    col = lambda v: Arr(('N',), {(): v})
    trio = lambda l: Arr(('N', 3), {(i,): v for i, v in enumerate(l)})
    f['r'] = trio([g(q) for q in ('x', 'y', 'z')])
    f['v'] = trio([g(q) for q in ('vx', 'vy', 'vz')])
    v2 = T.vadd(T.vadd(T.vmul(g('vx'), g('vx')), T.vmul(g('vy'), g('vy'))), T.vmul(g('vz'), g('vz')))
    pi2 = T.vmul(const(2), T.atom('pi', (), ('pos',)))
    ks = [T.vdiv(T.vmul(pi2, g(q)), T.vmul(g('wavelength'), v2)) for q in ('vx', 'vy', 'vz')]
    f['k'] = trio(ks)
    f['kx'], f['ky'], f['kz'] = (col(x) for x in ks)
    f['omega'] = col(T.vdiv(pi2, g('wavelength')))
    for q, want in f.items():
        got = ip.toplevel(lambda: ip.getattr(rv, q))
        judge(s, q, loc(ctx, 'RayVector', q), got, want)
    done(ctx, ip)
