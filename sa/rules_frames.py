"""Coordinate systems, transforms and the tracing wrappers (Python side)."""
from . import terms as T
from .terms import V, R, ZERO, ONE, const, var
from .core import rule
from .cfront import AnalysisBroken
from .pyvals import Arr, Tup, Ref, Cls, MISSING
from .py import (interp, done, loc, vec, pts, col, rotm, mm, tr, vadd, vsub, like, rot_equal, judge, coordsys, CS)

SYS = [('rotX', 'RotX'), ('rotY', 'RotY'), ('rotZ', 'RotZ')]


def single(ip, recv, name, *a, **k):
    return ip.call_method(recv, name, *a, **k)


def affine(r, v, o):
    """rot applied to (batch of) vectors plus origin."""
    if len(v.dims) == 1:
        return vadd(mm(r, v), o)
    row = Arr((3,), v.items)
    return like(vadd(mm(r, row), o), v.dims)


def glob(s, v):
    return affine(s.r, v, s.o)


def local(s, v):
    row = Arr((3,), v.items)
    return like(mm(tr(s.r), vsub(row, s.o)), v.dims)


@rule('C26', 'elementary-rotations', need=3)
def elementary(ctx, s):
    """RotX/RotY/RotZ are the right-handed rotations about their axes."""
    ip = interp(ctx)
    th = var('th')
    sn, cs = T.fn('sin', th), T.fn('cos', th)
    for ax, name in enumerate(('RotX', 'RotY', 'RotZ')):
        got = ip.call_value(ip.function('coordSys', name), th)
        i, j = (ax + 1) % 3, (ax + 2) % 3
        m = {(p, q): ONE if p == q == ax else ZERO for p in range(3) for q in range(3)}
        m[(i, i)] = m[(j, j)] = cs
        m[(i, j)] = T.vneg(sn)
        m[(j, i)] = sn
        judge(s, name, loc(ctx, name), got, Arr((3, 3), m))
    done(ctx, ip)


@rule('C26', 'motions', need=24)
def motions(ctx, s):
    """Every CoordSys operation is the documented rigid motion."""
    def frame(q):
        return (ip.getattr(q, 'origin'), ip.getattr(q, 'rot')) if q is not None else (None, None)

    def both(subj, meth, q, o, r):
        go, gr = frame(q)
        judge(s, subj + '.origin', loc(ctx, 'CoordSys', meth), go, o, second=rot_equal)
        judge(s, subj + '.rot', loc(ctx, 'CoordSys', meth), gr, r, second=rot_equal)

    ip = interp(ctx)
    eye = Arr((3, 3), {(i, j): ONE if i == j else ZERO for i in range(3) for j in range(3)})
    zero = Arr((3,), {(i,): ZERO for i in range(3)})
    both('default', '__init__', ip.construct(ctx.py.cls('CoordSys'), [], {}), zero, eye)
    a, A = coordsys(ip, 'a'), CS('a')
    b, B = coordsys(ip, 'b'), CS('b')
    d, c, R3 = vec('d'), vec('c'), rotm('R')
    both('constructor', '__init__', a, A.o, A.r)
    both('copy', 'copy', single(ip, a, 'copy'), A.o, A.r)
    for i, n in enumerate(('xhat', 'yhat', 'zhat')):
        judge(s, n, loc(ctx, 'CoordSys', n), ip.getattr(a, n), Arr((3,), {(k,): A.r.items[(k, i)] for k in range(3)}), second=rot_equal)
    both('shiftGlobal', 'shiftGlobal', single(ip, a, 'shiftGlobal', d), vadd(A.o, d), A.r)
    both('shiftLocal', 'shiftLocal', single(ip, a, 'shiftLocal', d), vadd(A.o, mm(A.r, d)), A.r)
    for v, tag in ((vec('v'), 'point'), (pts('v'), 'points')):
        judge(s, 'toGlobal.' + tag, loc(ctx, 'CoordSys', 'toGlobal'), single(ip, a, 'toGlobal', v), glob(A, v), second=rot_equal)
        judge(s, 'toLocal.' + tag, loc(ctx, 'CoordSys', 'toLocal'), single(ip, a, 'toLocal', v), local(A, v), second=rot_equal)

    def about(rot, cen):
        return vadd(mm(rot, vsub(A.o, cen)), cen)
    for meth, rot in (('rotateGlobal', R3), ('rotateLocal', mm(mm(A.r, R3), tr(A.r)))):
        dflt = None if meth == 'rotateGlobal' else A
        for kw, cen, tag in (({}, zero if dflt is None else A.o, 'default'),
                             (dict(rotCenter=c), c if dflt is None else glob(A, c), 'center'),
                             (dict(rotCenter=c, coordSys=b), glob(B, c), 'center-in-frame'),
                             (dict(coordSys=b), B.o, 'frame')):
            q = ip.call_method(a, meth, R3, **kw)
            both('%s(%s)' % (meth, tag), meth, q, about(rot, cen), mm(rot, A.r))
    done(ctx, ip)


@rule('C26', 'transform', need=6)
def transform(ctx, s):
    """A transform maps coordinates of a fixed point between its two systems."""
    ip = interp(ctx)
    a, A = coordsys(ip, 'a'), CS('a')
    b, B = coordsys(ip, 'b'), CS('b')
    ct = ip.construct(ctx.py.cls('CoordTransform'), [a, b], {})
    for kind in ('scalars', 'arrays'):
        x = [var('p.%d' % i) if kind == 'scalars' else Arr(('N',), {(): var('p.%d' % i)}) for i in range(3)]
        row = Arr((3,), {(i,): var('p.%d' % i) for i in range(3)})
        dims = (3,) if kind == 'scalars' else (3, 'N')
        for meth, want in (('applyForwardArray', like(local(B, glob(A, row)), dims)), ('applyReverseArray', like(local(A, glob(B, row)), dims))):
            judge(s, '%s.%s' % (meth, kind), loc(ctx, 'CoordTransform', meth), single(ip, ct, meth, *x), want, second=rot_equal)
    # the native parameters: r' = drot^T (r - dr) (C04 decides that the kernels compute that)
    for k, o in (('fromSys', a), ('toSys', b)):
        s.check(ip.getattr(ct, k) == o, 'CoordTransform.' + k, loc(ctx, 'CoordTransform', '__init__'), 'not the system given')
    done(ctx, ip)


# ------------------------------------------------------------ tracing wrappers
# native name -> roles of its positional parameters (checked against the kernels in C22/binding-roles)
def kinds(ip, ctx):
    a, b = coordsys(ip, 'a'), coordsys(ip, 'b')
    return a, b


def bundle(ip, name, cs):
    """A ray bundle with native handle `name`._rv in coordinate system cs."""
    return ip.instance('RayVector', {'_rv': T.atom('var', (name + '._rv',), ('obj',)), 'coordSys': cs}, open=True, base=T.atom('var', (name,), ('obj',)))


def handle(name, f):
    return T.atom('attr', (T.atom('var', (name,), ('obj',)), f))


def thing(name):
    return T.atom('var', (name,), ('obj',))


DR, DROT = 'dr', 'drot'
# wrapper -> (native, python arguments, native roles)
WRAPPERS = {
    'intersect': ('intersect', ['surface', 'rv', 'coordSys', 'coating'], ['surface', DR, DROT, 'rv', 'coating', 'threads', 'niter']),
    'reflect': ('reflect', ['surface', 'rv', 'coordSys', 'coating'], ['surface', DR, DROT, 'rv', 'coating', 'threads', 'niter']),
    'refract': ('refract', ['surface', 'rv', 'm1', 'm2', 'coordSys', 'coating'], ['surface', DR, DROT, 'm1', 'm2', 'rv', 'coating', 'threads', 'niter']),
    'rSplit': ('rSplit', ['surface', 'rv', 'inMedium', 'outMedium', 'coating', 'coordSys'],
               ['surface', DR, DROT, 'inMedium', 'outMedium', 'coating', 'rv', 'rvSplit', 'threads', 'niter']),
    'refractScreen': ('refractScreen', ['surface', 'rv', 'screen', 'coordSys'], ['surface', DR, DROT, 'screen', 'rv', 'threads', 'niter']),
    'obscure': ('obscure', ['obsc', 'rv'], ['obsc', 'rv', 'threads']),
    'applyForwardTransform': ('applyForwardTransform', ['ct', 'rv'], [DR, DROT, 'rv', 'threads']),
    'applyReverseTransform': ('applyReverseTransform', ['ct', 'rv'], [DR, DROT, 'rv', 'threads']),
    'applyForwardTransformArrays': ('applyForwardTransformArrays', ['ct', 'x', 'y', 'z'], [DR, DROT, 'x', 'y', 'z', 'n', 'threads']),
    'applyReverseTransformArrays': ('applyReverseTransformArrays', ['ct', 'x', 'y', 'z'], [DR, DROT, 'x', 'y', 'z', 'n', 'threads']),
}
HANDLE = {'surface': '_surface', 'screen': '_surface', 'm1': '_medium', 'm2': '_medium', 'inMedium': '_medium', 'outMedium': '_medium',
          'obsc': '_obsc', 'coating': '_coating'}


class Wrapped:
    """One analysed call of a tracing wrapper."""

    def __init__(self, ctx, name, with_cs, coating):
        native, pyargs, roles = WRAPPERS[name]
        self.ip = ip = interp(ctx)
        self.a, self.b = coordsys(ip, 'a'), coordsys(ip, 'b')
        self.A, self.B = CS('a'), CS('b')
        rv = bundle(ip, 'rv', self.a)
        self.rv = rv
        self.copies = []

        def copy(ip_, args, kw):
            r = bundle(ip_, 'rvSplit', ip_.getattr(args[0], 'coordSys'))
            self.copies.append(r)
            return r
        ip.hooks['RayVector.copy'] = copy
        kw = {}
        ct = ip.construct(ctx.py.cls('CoordTransform'), [self.a, self.b], {})
        for p in pyargs:
            if p == 'rv':
                kw[p] = rv
            elif p == 'coordSys':
                if with_cs:
                    kw[p] = self.b
            elif p == 'coating':
                if coating or name == 'rSplit':
                    kw[p] = thing('coating')
            elif p == 'ct':
                kw[p] = ct
            elif p in 'xyz':
                kw[p] = thing(p)
            else:
                kw[p] = thing(p)
        pos = []
        self.fn = ip.function('trace', name)
        # required parameters by position, optional ones by keyword
        names = [x.arg for x in self.fn.node.args.args]
        nreq = len(names) - len(self.fn.node.args.defaults)
        for p in pyargs:
            if p in kw and len(pos) == pyargs.index(p) and pyargs.index(p) < nreq:
                pos.append(kw.pop(p))
        self.ret = ip.call_value(self.fn, *pos, **kw)
        # a coating object is truthy
        self.truthy = T.single_atom(thing('coating'))
        self.calls = [e for e in ip.events if e.kind == 'native']
        done(ctx, ip)

    def val(self, v):
        """Value under the assumption that coating objects are true."""
        sub = {}
        for i in T.all_atoms(v) if isinstance(v, (R, V)) else ():
            if T.ATOMS[i][0] == 'truthy':
                sub[i] = True
        return T.vsubst(v, sub) if sub else v


def wrapped(ctx, name, cs, coat):
    return ctx.memo(('wrapped', name, cs, coat), lambda: Wrapped(ctx, name, cs, coat))


def variants(name):
    native, pyargs, roles = WRAPPERS[name]
    for cs in ((True, False) if 'coordSys' in pyargs else (True,)):
        for coat in ((True, False) if 'coating' in pyargs and name != 'rSplit' else (True,)):
            yield cs, coat


def expected(w, name, role, cs):
    """Expected value of a native argument by role."""
    A, B = w.A, w.B
    if not cs:
        B = A
    if role == DR:
        return mm(tr(A.r), vsub(B.o, A.o))
    if role == DROT:
        m = mm(tr(A.r), B.r)
        return Arr((9,), {(3 * i + j,): m.items[(i, j)] for i in range(3) for j in range(3)})
    if role in ('rv', 'rvSplit'):
        return T.atom('var', (role + '._rv',), ('obj',))
    if role in HANDLE:
        return handle(role, HANDLE[role])
    if role == 'threads':
        return T.atom('glob', ('_batoid_max_threads',), ('int', 'pos'))
    if role == 'niter':
        return T.atom('glob', ('_batoid_niter',), ('int', 'pos'))
    if role in 'xyz':
        return T.atom('attr', (T.atom('attr', (thing(role), 'ctypes')), 'data'))
    return None


def native_calls(ctx, s, want_roles):
    for name, (native, pyargs, roles) in WRAPPERS.items():
        for cs, coat in variants(name):
            tag = name + ('' if cs else '(own frame)') + ('' if coat else '(uncoated)')
            w = wrapped(ctx, name, cs, coat)
            where = loc(ctx, name)
            if not w.calls:
                # another spelling of the wrapper: nothing native reached
                s.und(tag, where, 'no native call found')
                continue
            hit = [e for e in w.calls if e.name == native]
            for e in w.calls:
                if e.name != native:
                    if not hit and e.name in WRAPPERS:
                        s.bad(tag, e.loc, 'calls the native %s' % e.name)
                    continue
                if e.kw or len(e.args) != len(roles):
                    s.und(tag, e.loc, 'argument list of another shape')
                    continue
                for role, got in zip(roles, e.args):
                    if role not in want_roles:
                        continue
                    if role == 'coating' and not coat:
                        judge(s, '%s/%s' % (tag, role), e.loc, got, None)
                        continue
                    if role == 'n':
                        n = T.val_atoms(got) if isinstance(got, R) else ()
                        lens = [T.atom('len', (thing(q),), ('int', 'nonneg')) for q in 'xyz'] + [T.atom('attr', (thing(q), 'size')) for q in 'xyz']
                        if any(T.veq(got, l) for l in lens):
                            s.ok('%s/%s' % (tag, role), e.loc)
                        elif isinstance(got, R) and T.is_const(got):
                            s.bad('%s/%s' % (tag, role), e.loc, 'length given as ' + T.show(got))
                        else:
                            s.und('%s/%s' % (tag, role), e.loc, T.show(got))
                        continue
                    judge(s, '%s/%s' % (tag, role), e.loc, w.val(got), expected(w, name, role, cs), second=rot_equal)


@rule('C22', 'trace-arguments', need=70)
def trace_args(ctx, s):
    """Each tracing wrapper hands its own arguments to the native function in their roles."""
    native_calls(ctx, s, {'surface', 'screen', 'm1', 'm2', 'inMedium', 'outMedium', 'coating', 'obsc', 'rv', 'rvSplit', 'x', 'y', 'z', 'n'})


@rule('C04', 'wrapper-frames', need=30)
def wrapper_frames(ctx, s):
    """Wrappers pass the transform from the bundle's system to the target one and relabel the bundle with it."""
    native_calls(ctx, s, {DR, DROT})
    for name, (native, pyargs, roles) in WRAPPERS.items():
        if 'rv' not in pyargs:
            continue
        for cs, coat in variants(name):
            tag = name + ('' if cs else '(own frame)') + ('' if coat else '(uncoated)')
            w = wrapped(ctx, name, cs, coat)
            ip = w.ip
            target = w.b if cs and 'coordSys' in pyargs else w.a
            if name == 'applyForwardTransform':
                target = w.b
            if name == 'applyReverseTransform':
                target = w.a
            if name == 'obscure':
                target = w.a
            for r in [w.rv] + w.copies:
                got = ip.getattr(r, 'coordSys')
                which = 'rv' if r == w.rv else 'rvSplit'
                frame_is(ctx, s, ip, '%s/%s.coordSys' % (tag, which), loc(ctx, name), got, target)


def moves(ip, rv, p, vel):
    """The vector p (in the bundle's first system) after the native transforms issued so far, or None."""
    for e in ip.events:
        if e.kind != 'native':
            continue
        if e.name not in ('applyForwardTransform', 'applyReverseTransform'):
            return None
        if e.kw or len(e.args) != 4 or not T.veq(e.args[2], thing('rv._rv')):
            return None
        dr, m = e.args[0], e.args[1]
        if not isinstance(dr, Arr) or dr.dims != (3,) or not isinstance(m, Arr) or m.dims not in ((9,), (3, 3)):
            return None
        if m.dims == (9,):
            m = Arr((3, 3), {(i, j): m.items[(3 * i + j,)] for i in range(3) for j in range(3)})
        zero = Arr((3,), {(i,): ZERO for i in range(3)})
        d = zero if vel else dr
        q = mm(tr(m), vsub(p, d)) if e.name == 'applyForwardTransform' else vadd(mm(m, p), d)
        p = Arr((3,), {k: T.ite(e.guard, q.items[k], p.items[k]) for k in q.items})
    return p


@rule('C04', 'bundle-moves', need=16)
def bundle_moves(ctx, s):
    """Moving a bundle to another system leaves every ray where it is in space and labels the bundle with that system."""
    entries = [('RayVector.toCoordSys', ('RayVector', 'toCoordSys'), 'a', 'b', lambda ip, rv, ct, a, b: single(ip, rv, 'toCoordSys', b)),
               ('CoordTransform.applyForward', ('CoordTransform', 'applyForward'), 'a', 'b', lambda ip, rv, ct, a, b: single(ip, ct, 'applyForward', rv)),
               ('CoordTransform.applyReverse', ('CoordTransform', 'applyReverse'), 'b', 'a', lambda ip, rv, ct, a, b: single(ip, ct, 'applyReverse', rv)),
               ('applyForwardTransform', ('applyForwardTransform',), 'a', 'b', lambda ip, rv, ct, a, b: ip.call_value(ip.function('trace', 'applyForwardTransform'), ct, rv)),
               ('applyReverseTransform', ('applyReverseTransform',), 'b', 'a', lambda ip, rv, ct, a, b: ip.call_value(ip.function('trace', 'applyReverseTransform'), ct, rv))]
    for tag, fn, frm, to, run in entries:
        ip = interp(ctx)
        f = {q: coordsys(ip, q) for q in 'ab'}
        where = loc(ctx, *fn)
        rv = bundle(ip, 'rv', f[frm])
        cols = {q: thing('rv0.' + q) for q in FIELDS6}
        for q, v in cols.items():
            ip.obj(rv).fields['_' + q] = v
        ct = ip.construct(ctx.py.cls('CoordTransform'), [f['a'], f['b']], {})
        run(ip, rv, ct, f['a'], f['b'])
        if any(ip.obj(rv).fields.get('_' + q) != v for q, v in cols.items()):
            s.und(tag, where, 'the columns are replaced')
            continue
        L = ip.getattr(rv, 'coordSys')
        lo, lr = ip.getattr(L, 'origin'), ip.getattr(L, 'rot')
        W = CS(to)
        judge(s, tag + '.label.origin', where, lo, W.o, second=rot_equal)
        judge(s, tag + '.label.rot', where, lr, W.r, second=rot_equal)
        for vel in (False, True):
            p = vec('v' if vel else 'p')
            q = moves(ip, rv, p, vel)
            sub = tag + ('.velocity' if vel else '.position')
            if q is None:
                s.und(sub, where, 'other native work on the bundle')
                continue
            want = mm(CS(frm).r, p) if vel else glob(CS(frm), p)
            got = mm(lr, q) if vel else vadd(mm(lr, q), lo)
            judge(s, sub, where, got, want, second=rot_equal)
        done(ctx, ip)


FIELDS6 = ('x', 'y', 'z', 'vx', 'vy', 'vz')


def frame_is(ctx, s, ip, subj, where, got, want):
    """got is want or a system equal to it."""
    if got == want:
        return s.ok(subj, where)
    if not isinstance(got, Ref):
        return s.und(subj, where, 'coordinate system is ' + T.show(got))
    for f in ('origin', 'rot'):
        judge(s, '%s.%s' % (subj, f), where, ip.getattr(got, f), ip.getattr(want, f), second=rot_equal)


@rule('C18', 'trace-settings', need=24)
def trace_settings(ctx, s):
    """Tracing wrappers read the thread and iteration settings when called, and pass each in its own place."""
    native_calls(ctx, s, {'threads', 'niter'})


@rule('C17', 'wrapper-results', need=12)
def wrapper_results(ctx, s):
    """Tracing wrappers return the bundle they work on (a split: that bundle and its new partner)."""
    for name, (native, pyargs, roles) in WRAPPERS.items():
        if 'rv' not in pyargs:
            continue
        for cs, coat in variants(name):
            tag = name + ('' if cs else '(own frame)') + ('' if coat else '(uncoated)')
            w = wrapped(ctx, name, cs, coat)
            want = w.rv
            if name == 'rSplit':
                want = Tup((w.rv, w.copies[0] if w.copies else None))
            if isinstance(w.ret, (Ref, Tup)) or w.ret is None:
                s.check(w.ret == want, tag, loc(ctx, name), 'returns %s' % T.show(w.ret))
            else:
                s.und(tag, loc(ctx, name), T.show(w.ret))


def counts(gap):
    """Atoms that stand for the number of rays."""
    out = set()
    for a in T.all_atoms(gap):
        for b in T.deep_atoms(a):
            n, args = T.ATOMS[b]
            if n == 'len' or (n == 'attr' and args[1] == 'size'):
                out.add(b)
    return out


def skipped(ip, hits):
    """Condition under which a call returns normally, for a bundle with rays, without any of the events."""
    gap = True
    for e in hits:
        gap = T.vand(gap, T.vnot(e.guard))
    for r in ip.raised:
        gap = T.vand(gap, T.vnot(r[0]))
    if not isinstance(gap, V):
        return gap
    ns = counts(gap)
    if not ns:
        return gap
    out = False
    for n in (1, 2, 1000):
        out = T.vor(out, T.vsubst(gap, {b: T.const(n) for b in ns}))
    return out


@rule('C22', 'operation-performed', need=20)
def operation_performed(ctx, s):
    """Every normal return of a tracing wrapper has handed the bundle to the native operation (nothing to do only without rays)."""
    for name, (native, pyargs, roles) in WRAPPERS.items():
        for cs, coat in variants(name):
            tag = name + ('' if cs else '(own frame)') + ('' if coat else '(uncoated)')
            w = wrapped(ctx, name, cs, coat)
            where = loc(ctx, name)
            hits = [e for e in w.calls if e.name == native]
            if not hits:
                s.und(tag, where, 'no native call found')
                continue
            gap = skipped(w.ip, hits)
            # rays that are all failed or vignetted, or a transform that is the identity, may need nothing
            if gap is False:
                s.ok(tag, where)
            elif gap is not True and (T.has_unknown(gap) or name.startswith('apply') or any(k in T.show(gap) for k in ('failed', 'vignetted'))):
                s.und(tag, where, 'returns without the native %s when %s' % (native, T.clip(T.show(gap), 200)))
            else:
                s.bad(tag, where, 'returns without the native %s when %s' % (native, 'there are rays' if gap is True else T.clip(T.show(gap), 200)))
