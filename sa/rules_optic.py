"""Optics: derivation, naming and tracing (Python side)."""
import ast
from . import terms as T
from .terms import V, R, ZERO, ONE, const, var
from .core import rule
from .cfront import AnalysisBroken
from .pyvals import Arr, Tup, Ref, Cls, MISSING, Sym, Str, mkstr
from .pyinterp import decname
from .py import interp, done, loc, vec, rotm, mm, tr, vadd, vsub, rot_equal, judge, coordsys, CS
from .rules_frames import thing, bundle, frame_is, glob

KINDS = ('Interface', 'RefractiveInterface', 'Mirror', 'Detector', 'Baffle', 'OPDScreen')


def boolv(n):
    return T.bool_atom('truthy', var(n))


def name(n):
    return mkstr([Sym(n)])


def interface(ip, cls, nm, frame, stop=None, obsc=True, **extra):
    """An interface with every documented attribute symbolic."""
    kw = dict(name=name(nm), coordSys=frame, inMedium=thing(nm + '.m1'), outMedium=thing(nm + '.m1' if cls == 'OPDScreen' else nm + '.m2'),
              skip=boolv('skip ' + nm), obscuration=thing(nm + '.obsc') if obsc else None)
    if cls != 'Interface' and cls != 'OPDScreen':
        kw['forwardCoating'] = thing(nm + '.fc')
        kw['reverseCoating'] = thing(nm + '.rc')
    if stop is not None:
        kw['stopSurface'] = stop
    kw.update(extra)
    a = [thing(nm + '.surface')]
    if cls == 'OPDScreen':
        a.append(thing(nm + '.screen'))
    return ip.construct(ip.prog.cls(cls), a, kw)


def caches(ip, ref):
    out = set()
    for c in ip.obj(ref).cls.mro():
        for m in c.methods.values():
            if any('cached_property' in decname(d) for d in m.decorator_list):
                out.add(m.name)
    return out


def attrs(ip, ref):
    skip = caches(ip, ref)
    return {k: v for k, v in ip.obj(ref).fields.items() if k not in skip and v is not MISSING}


def snapshot(ip, ref, seen=None):
    """Recursive copy of everything reachable from ref (caches excluded)."""
    seen = {} if seen is None else seen
    if ref.id in seen:
        return seen
    o = ip.obj(ref)
    if o.kind == 'obj':
        f = attrs(ip, ref)
    else:
        f = {k: v for k, v in o.fields.items()}
    seen[ref.id] = f
    for v in f.values():
        walk_refs(v, lambda r: snapshot(ip, r, seen))
    return seen


def walk_refs(v, f):
    if isinstance(v, Ref):
        f(v)
    elif isinstance(v, V):
        walk_refs(v.hi, f)
        walk_refs(v.lo, f)
    elif isinstance(v, Tup):
        for x in v.items:
            walk_refs(x, f)


def unchanged(ctx, s, ip, subj, where, before):
    """Nothing reachable at the snapshot was modified."""
    for i, f in before.items():
        o = ip.obj(i)
        now = attrs(ip, Ref(i)) if o.kind == 'obj' else o.fields
        for k in set(f) | set(now):
            a, b = now.get(k, MISSING), f.get(k, MISSING)
            if a is b or (a is not MISSING and b is not MISSING and T.veq(a, b)):
                continue
            if isinstance(a, Arr) and isinstance(b, Arr) and rot_equal(a, b) is None:
                continue
            if o.kind == 'obj' and o.cls and b is MISSING:
                continue       # a new attribute (memo) on the original
            s.bad(subj, where, 'modifies .%s of %s' % (k, o.cls.name if o.cls else o.kind))
            return
    s.ok(subj, where)


def shifted(A, d):
    return vadd(A.o, d), A.r


def rotated(A, rot, cen):
    return vadd(mm(rot, vsub(A.o, cen)), cen), mm(rot, A.r)


def frame_matches(ctx, s, ip, subj, where, got, o, r):
    if not isinstance(got, Ref):
        return s.und(subj, where, 'coordinate system is ' + T.show(got))
    judge(s, subj + '.origin', where, ip.getattr(got, 'origin'), o, second=rot_equal)
    judge(s, subj + '.rot', where, ip.getattr(got, 'rot'), r, second=rot_equal)


def kept(ctx, s, ip, subj, where, old, new, changed):
    """new has old's class and all of old's attributes except the changed ones."""
    if not isinstance(new, Ref):
        return s.und(subj, where, 'result is ' + T.show(new))
    if new == old and changed:
        return s.bad(subj, where, 'returns the original')
    co, cn = ip.obj(old).cls, ip.obj(new).cls
    if co is not cn:
        return s.bad(subj, where, 'class %s becomes %s' % (co, cn))
    a, b = attrs(ip, old), attrs(ip, new)
    for k in a:
        if k in changed:
            continue
        x = b.get(k, MISSING)
        if x is MISSING:
            s.bad('%s.%s' % (subj, k), where, 'attribute lost')
            continue
        same_value(ctx, s, ip, '%s.%s' % (subj, k), where, x, a[k])


def same_value(ctx, s, ip, subj, where, x, y):
    if x is y:
        return s.ok(subj, where)
    if isinstance(x, Ref) and isinstance(y, Ref) and x != y:
        p, q = ip.obj(x), ip.obj(y)
        if p.kind != q.kind or p.cls is not q.cls:
            return s.bad(subj, where, 'replaced by another kind of object')
        if p.kind == 'list':
            p, q = p.fields.get(0), q.fields.get(0)
            if isinstance(p, Tup) and isinstance(q, Tup) and T.veq(p, q):
                return s.ok(subj, where)
            return judge(s, subj, where, p, q)
        if p.kind == 'obj':
            f, g = attrs(ip, x), attrs(ip, y)
            if set(f) == set(g):
                for k in f:
                    same_value(ctx, s, ip, subj + '.' + k, where, f[k], g[k])
                return
        return s.und(subj, where, 'another object')
    judge(s, subj, where, x, y, norm=False)


OPS = [('withGlobalShift', ()), ('withLocalShift', ()), ('withGlobalRotation', ()), ('withGlobalRotation', ('rotCenter',)),
       ('withGlobalRotation', ('rotCenter', 'coordSys')), ('withLocalRotation', ()), ('withLocalRotation', ('rotCenter',)),
       ('withLocalRotation', ('rotCenter', 'coordSys'))]


class Motion:
    """Arguments of a rigid-motion method and the motion it must make of any frame."""

    def __init__(self, ip, op, opts, own):
        """own: the mathematical frame of the optic (or element) addressed."""
        d, R3, c = vec('d'), rotm('R'), vec('c')
        self.kw = {}
        self.own = own
        if 'Shift' in op:
            dd = d if 'Global' in op else mm(own.r, d)
            self.args = [d]
            self.move = lambda A: shifted(A, dd)
            return
        self.args = [R3]
        F = own if 'Local' in op else CSID
        if 'coordSys' in opts:
            self.kw['coordSys'] = coordsys(ip, 'f')
            F = CS('f')
        cen = F.o
        if 'rotCenter' in opts:
            self.kw['rotCenter'] = c
            cen = glob(F, c)
        rot = R3 if 'Global' in op else mm(mm(own.r, R3), tr(own.r))
        self.move = lambda A: rotated(A, rot, cen)


@rule('C15', 'given-attributes', need=50)
def given(ctx, s):
    """An optic carries every attribute it is constructed with."""
    for cls in KINDS + ('CompoundOptic',):
        ip = interp(ctx)
        a = coordsys(ip, 'a')
        given = dict(name=name('A'), coordSys=a, inMedium=thing('m1'), outMedium=thing('m1'), skip=boolv('skip ' + 'A'),
                     pupilSize=var('pupilSize'), extra=thing('extra'), stopSurface=thing('stop'))
        pos = [thing('surface')]
        if cls == 'OPDScreen':
            pos.append(thing('screen'))
        elif cls == 'CompoundOptic':
            k = interface(ip, 'Mirror', 'K', coordsys(ip, 'k'))
            pos = [ip.newlist([k])]
        elif cls != 'Interface':
            given.update(forwardCoating=thing('fc'), reverseCoating=thing('rc'))
        if cls != 'CompoundOptic':
            given['obscuration'] = thing('obsc')
        it = ip.construct(ctx.py.cls(cls), pos, given)
        where = loc(ctx, cls, '__init__')
        for k, v in dict(given, **({'surface': pos[0]} if cls != 'CompoundOptic' else {}), **({'screen': pos[1]} if cls == 'OPDScreen' else {})).items():
            got = ip.toplevel(lambda: ip.getattr(it, k))
            same_value(ctx, s, ip, '%s.%s' % (cls, k), where, got, v)
        done(ctx, ip)


class _Id:
    o = Arr((3,), {(i,): ZERO for i in range(3)})
    r = Arr((3, 3), {(i, j): ONE if i == j else ZERO for i in range(3) for j in range(3)})


CSID = _Id()


@rule('C15', 'interface-motion', need=900)
def interface_motion(ctx, s):
    """Rigid motions of a single interface move its frame and stop surface and keep everything else."""
    for cls in KINDS:
        for op, opts in OPS:
            ip = interp(ctx)
            stop = interface(ip, 'Interface', 'stop', coordsys(ip, 'b'))
            it = interface(ip, cls, 'A', coordsys(ip, 'a'), stop, pupilSize=var('pupilSize'), extra=thing('extra'))
            for k in ('forwardCoating', 'reverseCoating', 'skip', 'inMedium', 'outMedium'):
                # also attributes assigned after construction are kept
                if k in attrs(ip, it) and not (cls == 'OPDScreen' and 'Medium' in k):
                    ip.wr(it).fields[k] = thing('assigned.' + k) if k != 'skip' else boolv('skip ' + 'assigned')
            m = Motion(ip, op, opts, CS('a'))
            before = snapshot(ip, it)
            new = ip.call_method(it, op, *m.args, **m.kw)
            subj = '%s.%s(%s)' % (cls, op, ','.join(opts))
            where = loc(ctx, cls, op)
            kept(ctx, s, ip, subj, where, it, new, {'coordSys', 'stopSurface'})
            unchanged(ctx, s, ip, subj + ' original', where, before)
            if isinstance(new, Ref):
                frame_matches(ctx, s, ip, subj + '.coordSys', where, ip.getattr(new, 'coordSys'), *m.move(CS('a')))
                st = attrs(ip, new).get('stopSurface', MISSING)
                if isinstance(st, Ref):
                    kept(ctx, s, ip, subj + '.stopSurface', where, stop, st, {'coordSys'})
                    frame_matches(ctx, s, ip, subj + '.stopSurface.coordSys', where, ip.getattr(st, 'coordSys'), *m.move(CS('b')))
                else:
                    s.bad(subj + '.stopSurface', where, 'stop surface lost')
            done(ctx, ip)


@rule('C15', 'interface-surface', need=200)
def interface_surface(ctx, s):
    """withSurface / withPerturbedSurface change only the surface."""
    for cls in KINDS:
        for op in ('withSurface', 'withPerturbedSurface'):
            ip = interp(ctx)
            stop = interface(ip, 'Interface', 'stop', coordsys(ip, 'b'))
            it = interface(ip, cls, 'A', coordsys(ip, 'a'), stop, pupilSize=var('pupilSize'), extra=thing('extra'))
            for k in ('forwardCoating', 'reverseCoating', 'skip', 'inMedium', 'outMedium'):
                if k in attrs(ip, it) and not (cls == 'OPDScreen' and 'Medium' in k):
                    ip.wr(it).fields[k] = thing('assigned.' + k) if k != 'skip' else boolv('skip ' + 'assigned')
            before = snapshot(ip, it)
            sf = thing('new')
            new = ip.call_method(it, op, sf)
            subj, where = '%s.%s' % (cls, op), loc(ctx, cls, op)
            kept(ctx, s, ip, subj, where, it, new, {'surface'})
            unchanged(ctx, s, ip, subj + ' original', where, before)
            if isinstance(new, Ref):
                want = sf if op == 'withSurface' else ip.binop('+', thing('A.surface'), sf)
                judge(s, subj + '.surface', where, ip.getattr(new, 'surface'), want, known=('op+',))
            done(ctx, ip)


# ------------------------------------------------------------------ compounds
class Tree:
    """T = [A (mirror), B = [C, D (refracting)], E (detector)] with a stop surface."""
    LEAVES = {'A': 'Mirror', 'C': 'RefractiveInterface', 'D': 'RefractiveInterface', 'E': 'Detector'}
    PATHS = {'T': ('T',), 'A': ('T', 'A'), 'B': ('T', 'B'), 'C': ('T', 'B', 'C'), 'D': ('T', 'B', 'D'), 'E': ('T', 'E')}

    make = staticmethod(interp)

    def __init__(self, ctx, nested='CompoundOptic', skips=True):
        self.ip = ip = self.make(ctx)
        self.el = {}
        for n, c in self.LEAVES.items():
            self.el[n] = interface(ip, c, n, coordsys(ip, n))
        self.stop = interface(ip, 'Interface', 'stop', coordsys(ip, 'stop'))
        self.el['B'] = ip.construct(ctx.py.cls(nested), [ip.newlist([self.el['C'], self.el['D']])],
                                    dict(name=name('B'), coordSys=coordsys(ip, 'B'), inMedium=thing('B.m1'), outMedium=thing('B.m2'),
                                         skip=boolv('skip ' + 'B'), note=thing('B.note')))
        self.el['T'] = ip.construct(ctx.py.cls('CompoundOptic'), [ip.newlist([self.el['A'], self.el['B'], self.el['E']])],
                                    dict(name=name('T'), coordSys=coordsys(ip, 'T'), inMedium=thing('T.m1'), outMedium=thing('T.m2'),
                                         skip=boolv('skip ' + 'T'), stopSurface=self.stop, pupilSize=var('pupilSize'),
                                         backDist=var('backDist'), pupilObscuration=var('pupilObscuration'), note=thing('T.note')))
        self.root = self.el['T']
        self.ctx = ctx

    def kids(self, ref):
        v = self.ip.getattr(ref, 'items')
        if isinstance(v, Tup):
            return list(v.items)
        return self.ip.seq_items(v)

    def full(self, n):
        return mkstr([x for i, p in enumerate(self.PATHS[n]) for x in ((Sym(p),) if i == 0 else ('.', Sym(p)))])


def spellings(n):
    """Ways to name element n of the tree."""
    p = Tree.PATHS[n]
    for k in range(len(p)):
        yield mkstr([x for i, q in enumerate(p[k:]) for x in ((Sym(q),) if i == 0 else ('.', Sym(q)))]), '.'.join(p[k:])


def check_tree(ctx, s, tree, subj, where, new, change, extra_changed=None):
    """Compare the derived tree element by element with the original.

    change(n) -> None (kept as it is) or a function (new element) -> set of attributes it has checked."""
    ip = tree.ip
    extra_changed = extra_changed or {}

    def go(n, old, new):
        act = change(n)
        if not isinstance(new, Ref):
            return s.und(subj + ':' + n, where, 'element is ' + T.show(new))
        if old == new:
            if act is None and all(change(k) is None for k in below(n)):
                return s.ok(subj + ':' + n, where)
            return s.bad(subj + ':' + n, where, 'element %s is not changed' % n)
        ch = set(extra_changed.get(n, ()))
        if act is not None:
            ch |= act(new)
        kept(ctx, s, ip, subj + ':' + n, where, old, new, ch | {'items'})
        if 'items' in attrs(ip, old):
            a, b = tree.kids(old), tree.kids(new)
            names = [k for k in Tree.PATHS if Tree.PATHS[k][:-1] == Tree.PATHS[n]]
            if len(a) != len(b):
                return s.bad(subj + ':' + n, where, '%d items become %d' % (len(a), len(b)))
            for k, x, y in zip(names, a, b):
                go(k, x, y)
    go('T', tree.root, new)


def below(n):
    return [k for k, p in Tree.PATHS.items() if n in p[:-1]]


@rule('C15', 'compound-motion', need=700)
def compound_motion(ctx, s):
    """Rigid motions of a compound move all it contains, stop surface included, as one body."""
    for op, opts in OPS:
        t = Tree(ctx)
        ip = t.ip
        m = Motion(ip, op, opts, CS('T'))
        before = snapshot(ip, t.root)
        new = ip.call_method(t.root, op, *m.args, **m.kw)
        subj, where = 'CompoundOptic.%s(%s)' % (op, ','.join(opts)), loc(ctx, 'CompoundOptic', op)

        def moved(n):
            def chk(x):
                frame_matches(ctx, s, ip, '%s:%s.coordSys' % (subj, n), where, ip.getattr(x, 'coordSys'), *m.move(CS(n)))
                return {'coordSys'}
            return chk

        def root(x):
            moved('T')(x)
            st = attrs(ip, x).get('stopSurface', MISSING)
            if isinstance(st, Ref):
                kept(ctx, s, ip, subj + '.stopSurface', where, t.stop, st, {'coordSys'})
                frame_matches(ctx, s, ip, subj + '.stopSurface.coordSys', where, ip.getattr(st, 'coordSys'), *m.move(CS('stop')))
            else:
                s.bad(subj + '.stopSurface', where, 'stop surface lost')
            return {'coordSys', 'stopSurface'}
        check_tree(ctx, s, t, subj, where, new, lambda n: root if n == 'T' else moved(n))
        unchanged(ctx, s, ip, subj + ' original', where, before)
        done(ctx, ip)


NAMED = [('withGloballyShiftedOptic', ()), ('withLocallyShiftedOptic', ()), ('withLocallyRotatedOptic', ()),
         ('withLocallyRotatedOptic', ('rotCenter',)), ('withLocallyRotatedOptic', ('rotCenter', 'coordSys'))]


def raised_in(ip, n0):
    return ip.raised[n0:]


def named_ops(ctx, s, which):
    """Named derivations, on every element and spelling."""
    for op, opts in NAMED:
        for n in ('A', 'C', 'B', 'D', 'E', 'T'):
            for nm, text in spellings(n):
                t = Tree(ctx)
                ip = t.ip
                eff = op.replace('GloballyShiftedOptic', 'GlobalShift').replace('LocallyShiftedOptic', 'LocalShift').replace('LocallyRotatedOptic', 'LocalRotation')
                m = Motion(ip, eff, opts, CS(n))
                before = snapshot(ip, t.root)
                k0 = len(ip.raised)
                new = ip.call_method(t.root, op, nm, *m.args, **m.kw)
                subj, where = 'CompoundOptic.%s(%s%s)' % (op, text, ''.join(',' + o for o in opts)), loc(ctx, 'CompoundOptic', op)
                if which == 'C16':
                    # resolution only: nothing but the addressed element (and what it contains) moves
                    if new is None or len(ip.raised) > k0:
                        s.bad(subj, where, 'fails with %s' % ', '.join(sorted({r[1] for r in ip.raised[k0:]})))
                        if new is None:
                            continue
                inside = {n} | set(below(n))

                def moved(q):
                    def chk(x):
                        if which == 'C15':
                            frame_matches(ctx, s, ip, '%s:%s.coordSys' % (subj, q), where, ip.getattr(x, 'coordSys'), *m.move(CS(q)))
                        if q == 'T':
                            return {'coordSys', 'stopSurface'}
                        return {'coordSys'}
                    return chk
                if which == 'C15' and new is None:
                    s.bad(subj, where, 'always fails')
                    continue
                check_tree(ctx, s, t, subj, where, new, lambda q: moved(q) if q in inside else None)
                if which == 'C15':
                    unchanged(ctx, s, ip, subj + ' original', where, before)
                done(ctx, ip)


@rule('C15', 'named-motion', need=2000)
def named_motion(ctx, s):
    """Moving a named element moves exactly it, by the documented motion."""
    named_ops(ctx, s, 'C15')


@rule('C16', 'named-motion', need=1500)
def named_motion16(ctx, s):
    """A named element, at any depth and however spelt, is the one that moves, and nothing else does."""
    named_ops(ctx, s, 'C16')


@rule('C16', 'named-surface', need=500)
def named_surface(ctx, s):
    """withSurface / withPerturbedSurface replace the surface of exactly the named element."""
    for op in ('withSurface', 'withPerturbedSurface'):
        for n in ('A', 'C', 'D', 'E'):
            for nm, text in spellings(n):
                t = Tree(ctx)
                ip = t.ip
                before = snapshot(ip, t.root)
                k0 = len(ip.raised)
                sf = thing('new')
                new = ip.call_method(t.root, op, nm, sf)
                subj, where = 'CompoundOptic.%s(%s)' % (op, text), loc(ctx, 'CompoundOptic', op)
                if new is None or len(ip.raised) > k0:
                    s.bad(subj, where, 'fails with %s' % ', '.join(sorted({r[1] for r in ip.raised[k0:]})))
                    if new is None:
                        continue
                want = sf if op == 'withSurface' else ip.binop('+', thing(n + '.surface'), sf)

                def repl(x):
                    judge(s, subj + '.surface', where, ip.getattr(x, 'surface'), want, known=('op+',))
                    return {'surface'}
                check_tree(ctx, s, t, subj, where, new, lambda q: repl if q == n else None)
                unchanged(ctx, s, ip, subj + ' original', where, before)
                done(ctx, ip)


@rule('C16', 'lookup', need=12)
def lookup(ctx, s):
    """Indexing by any unambiguous name returns exactly that element; unknown names raise."""
    where = loc(ctx, 'CompoundOptic', '__getitem__')
    t = Tree(ctx)
    for n in Tree.PATHS:
        for nm, text in spellings(n):
            k0 = len(t.ip.raised)
            got = t.ip.call_method(t.root, '__getitem__', nm)
            if got is None:
                s.bad('T[%s]' % text, where, 'fails with %s' % [r[1] for r in t.ip.raised[k0:]])
            elif isinstance(got, Ref):
                s.check(got == t.el[n], 'T[%s]' % text, where, 'another element')
            else:
                s.und('T[%s]' % text, where, T.show(got))
    for nm, text in ((name('Z'), 'Z'), (mkstr([Sym('B'), '.', Sym('Z')]), 'B.Z'), (mkstr([Sym('B'), '.', Sym('A')]), 'B.A')):
        got = t.ip.call_method(t.root, '__getitem__', nm)
        s.check(got is None, 'T[%s] raises' % text, where, 'unknown name accepted')
    done(ctx, t.ip)


@rule('C16', 'unknown', need=20)
def unknown_names(ctx, s):
    """Every named operation refuses a name that is not in the tree."""
    calls = [('withGloballyShiftedOptic', (vec('d'),)), ('withLocallyShiftedOptic', (vec('d'),)), ('withLocallyRotatedOptic', (rotm('R'),)),
             ('withSurface', (thing('new'),)), ('withPerturbedSurface', (thing('new'),)), ('withInsertedOptic', None), ('withRemovedOptic', ())]
    for op, args in calls:
        for nm, text in ((name('Z'), 'Z'), (mkstr([Sym('T'), '.', Sym('Z')]), 'T.Z'), (mkstr([Sym('B'), '.', Sym('A')]), 'B.A')):
            t = Tree(ctx)
            a = (interface(t.ip, 'Baffle', 'X', coordsys(t.ip, 'X')),) if args is None else args
            got = t.ip.call_method(t.root, op, nm, *a)
            if got is None:
                s.ok('%s(%s)' % (op, text), loc(ctx, 'CompoundOptic', op))
            elif isinstance(got, Ref):
                s.bad('%s(%s)' % (op, text), loc(ctx, 'CompoundOptic', op), 'unknown name accepted')
            else:
                s.und('%s(%s)' % (op, text), loc(ctx, 'CompoundOptic', op), T.show(got))
            done(ctx, t.ip)


@rule('C16', 'insert-remove', need=60)
def insert_remove(ctx, s):
    """Insertion and removal change exactly the place named, at any depth."""
    for op in ('withInsertedOptic', 'withRemovedOptic'):
        where = loc(ctx, 'CompoundOptic', op)
        for n in ('A', 'B', 'C', 'D', 'E'):
            for nm, text in spellings(n):
                t = Tree(ctx)
                ip = t.ip
                ip.getattr(t.root, '_names') if ctx.py.cls('CompoundOptic').find('_names') else None
                x = interface(ip, 'Baffle', 'X', coordsys(ip, 'X'))
                before = snapshot(ip, t.root)
                k0 = len(ip.raised)
                new = ip.call_method(t.root, op, nm, *([x] if 'Insert' in op else []))
                subj = '%s(%s)' % (op, text)
                if new is None or len(ip.raised) > k0:
                    s.bad(subj, where, 'fails with %s' % ', '.join(sorted({r[1] for r in ip.raised[k0:]})))
                    if new is None:
                        continue
                if not isinstance(new, Ref):
                    s.und(subj, where, T.show(new))
                    continue
                parent = Tree.PATHS[n][-2]
                want = []
                for k, r in zip([q for q in Tree.PATHS if Tree.PATHS[q][:-1] == Tree.PATHS[parent]], t.kids(t.el[parent])):
                    if k == n and 'Insert' in op:
                        want.append(x)
                    if k == n and 'Remove' in op:
                        continue
                    want.append(r)
                if parent == 'T':
                    got = t.kids(new)
                    p = new
                else:
                    tops = t.kids(new)
                    s.check(len(tops) == 3 and tops[0] == t.el['A'] and tops[2] == t.el['E'], subj + ' siblings', where,
                            'items beside the one named have changed')
                    p = tops[1] if len(tops) > 1 else None
                    if not isinstance(p, Ref):
                        continue
                    got = t.kids(p)
                    kept(ctx, s, ip, subj + ':T', where, t.root, new, {'items', 'path'})
                if all(isinstance(g, Ref) for g in got):
                    s.check(got == want, subj + ' items', where, 'items are now %s' % [T.show(ip.getattr(g, 'name')) for g in got])
                else:
                    s.und(subj + ' items', where, T.show(Tup(got)))
                kept(ctx, s, ip, subj + ':' + parent, where, t.el[parent], p, {'items', 'path'})
                names = ip.call_method(new, '__getitem__', nm)
                if 'Remove' in op:
                    s.check(names is None, subj + ' gone', where, 'the removed element is still found by name')
                else:
                    s.check(ip.call_method(new, '__getitem__', name('X')) == x, subj + ' found', where, 'the inserted element is not found by name')
                unchanged(ctx, s, ip, subj + ' original', where, before)
                done(ctx, ip)
