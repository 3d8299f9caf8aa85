"""Tracing through optics: order, reversal, skipping, splitting (Python side)."""
from fractions import Fraction
from . import terms as T
from .terms import V, R, ZERO, ONE, const, var
from .core import rule
from .pyvals import Arr, Tup, Ref, Cls, MISSING, Sym, Str, mkstr
from .py import interp, done, loc, vec, rotm, mm, tr, vsub, rot_equal, judge, same_values, coordsys, CS
from .rules_frames import thing, bundle, frame_is, WRAPPERS, HANDLE
from .rules_optic import name, boolv, snapshot, unchanged, KINDS

OPS = {'intersect', 'reflect', 'refract', 'refractScreen', 'rSplit', 'obscure'}


def hand(n):
    return T.atom('var', (n,), ('obj',))


class Scene:
    """Optical elements over real (abstract) surfaces, media, coatings and obscurations."""

    make = staticmethod(interp)

    def __init__(self, ctx):
        self.ctx = ctx
        self.ip = ip = self.make(ctx)
        self.n = 0
        self.bundles = {}            # ref id -> handle name
        self.copied = {}             # handle name -> handle name it was copied from
        self.cls = {}

        def copy(ip_, args, kw):
            if not isinstance(args[0], Ref):
                return T.atom('native:copy', (args[0],), ('obj',))
            r = self.bundle(ip_.getattr(args[0], 'coordSys'))
            self.copied[r.id] = (args[0].id, ip_.serial)
            p = ip_.obj(args[0]).fields.get('path', MISSING)
            if p is not MISSING:
                ip_.wr(r).fields['path'] = p
            return r
        ip.hooks['RayVector.copy'] = copy

    def bundle(self, cs, path=None):
        self.n += 1
        nm = 'rays%d' % self.n
        r = bundle(self.ip, nm, cs)
        if path is not None:
            self.ip.wr(r).fields['path'] = path
        self.bundles[r.id] = nm
        return r

    def rv(self, ref):
        return hand(self.bundles[ref.id] + '._rv')

    def surface(self, n):
        return self.ip.instance('Plane', {'_surface': hand(n + '._surface')}, True, thing(n))

    def medium(self, n):
        return self.ip.instance('ConstMedium', {'_medium': hand(n + '._medium')}, True, thing(n))

    def coating(self, n):
        return self.ip.instance('SimpleCoating', {'_coating': hand(n + '._coating')}, True, thing(n))

    def obsc(self, n):
        return self.ip.instance('ObscCircle', {'_obsc': hand(n + '._obsc')}, True, thing(n))

    def element(self, cls, n, obscured=True, skip=False, **extra):
        ip = self.ip
        self.cls[n] = (cls, obscured)
        m1 = self.medium(n + '.m1')
        kw = dict(name=name(n), coordSys=coordsys(ip, n), inMedium=m1, outMedium=m1 if cls == 'OPDScreen' else self.medium(n + '.m2'),
                  skip=skip, obscuration=self.obsc(n + '.obsc') if obscured else None)
        if cls not in ('Interface', 'OPDScreen'):
            kw['forwardCoating'] = self.coating(n + '.fc')
            kw['reverseCoating'] = self.coating(n + '.rc')
        kw.update(extra)
        pos = [self.surface(n + '.surface')]
        if cls == 'OPDScreen':
            pos.append(self.surface(n + '.screen'))
        return ip.construct(ip.prog.cls(cls), pos, kw)

    def compound(self, n, items, cls='CompoundOptic', **kw):
        ip = self.ip
        return ip.construct(ip.prog.cls(cls), [ip.newlist(items)], dict(dict(name=name(n), coordSys=coordsys(ip, n), inMedium=self.medium(n + '.m1'),
                                                                             outMedium=self.medium(n + '.m2')), **kw))

    def steps(self, n, reverse, op=None):
        """What tracing through element n must do to its bundle."""
        cls, obscured = self.cls[n]
        d = {'surface': hand(n + '.surface._surface'), 'frame': n}
        if op == 'reflect' or (op is None and cls == 'Mirror'):
            d['op'] = 'reflect'
            d['coating'] = None
        elif cls == 'RefractiveInterface':
            d['op'] = 'refract'
            d['m1'], d['m2'] = (hand('%s.%s._medium' % (n, m)) for m in (('m2', 'm1') if reverse else ('m1', 'm2')))
            d['coating'] = None
        elif cls == 'OPDScreen':
            d['op'] = 'refractScreen'
            d['screen'] = hand(n + '.screen._surface')
        else:
            d['op'] = 'intersect'
            d['coating'] = None
        out = [d]
        if obscured:
            out.append({'op': 'obscure', 'obsc': hand(n + '.obsc._obsc')})
        return out


def interactions(ip, n0=0):
    return [e for e in ip.events[n0:] if e.kind == 'native' and e.name in OPS]


def roles_of(e):
    r = WRAPPERS[e.name][2]
    if e.kw or len(e.args) != len(r):
        return None
    return dict(zip(r, e.args))


def follow(s, subj, where, ip, events, want, start):
    """The native interactions are exactly the wanted ones in order, each in its element's frame.

    want: dicts of roles incl. 'op', 'rv' and, for interactions with a surface, 'frame' (element name).
    start: {handle name: CS}"""
    if any(e.loops or e.guard is not True for e in events):
        return s.und(subj, where, 'interactions depend on what the domain does not resolve: %s' % [repr(e)[:150] for e in events][:3])
    got = [e.name for e in events]
    if got != [w['op'] for w in want]:
        if any(roles_of(e) is None for e in events):
            return s.und(subj, where, 'native calls of another shape')
        return s.bad(subj, where, 'performs %s instead of %s' % (got, [w['op'] for w in want]))
    cur = dict(start)
    for k, (e, w) in enumerate(zip(events, want)):
        r = roles_of(e)
        if r is None:
            s.und('%s#%d' % (subj, k), e.loc, 'native call of another shape')
            continue
        for q, x in w.items():
            if q in ('op', 'frame'):
                continue
            judge(s, '%s#%d.%s' % (subj, k, q), e.loc, r.get(q, MISSING), x)
        if 'frame' in w:
            A, B = cur[T.show(w['rv'])], CS(w['frame'])
            judge(s, '%s#%d.dr' % (subj, k), e.loc, r['dr'], mm(tr(A.r), vsub(B.o, A.o)), second=rot_equal)
            m = mm(tr(A.r), B.r)
            judge(s, '%s#%d.drot' % (subj, k), e.loc, r['drot'], Arr((9,), {(3 * i + j,): m.items[(i, j)] for i in range(3) for j in range(3)}), second=rot_equal)
            cur[T.show(w['rv'])] = B


def with_rv(steps, rv):
    return [dict(d, rv=rv) for d in steps]


@rule('C17', 'interface-trace', need=300)
def interface_trace(ctx, s):
    """Tracing an interface performs its own interaction once, in its frame, then its obscuration once."""
    for cls in KINDS:
        for reverse in (False, True):
            for obscured in (True, False):
                for meth in ('trace', 'interact') + (('reflect',) if cls == 'Mirror' else ('refract',) if cls in ('RefractiveInterface', 'OPDScreen') else ()):
                    sc = Scene(ctx)
                    ip = sc.ip
                    it = sc.element(cls, 'A', obscured)
                    rv = sc.bundle(coordsys(ip, 'a'))
                    where = loc(ctx, cls, meth)
                    ret = ip.call_method(it, meth, rv, reverse=reverse)
                    subj = '%s.%s(reverse=%s,obscured=%s)' % (cls, meth, reverse, obscured)
                    want = with_rv(sc.steps('A', reverse), sc.rv(rv))
                    if meth != 'trace':
                        want = want[:1]
                    follow(s, subj, where, ip, interactions(ip), want, {T.show(sc.rv(rv)): CS('a')})
                    if isinstance(ret, Ref) or ret is None:
                        s.check(ret == rv, subj + ' returns its bundle', where, 'returns %s' % T.show(ret))
                    frame_is(ctx, s, ip, subj + '.coordSys', where, ip.getattr(rv, 'coordSys'), ip.getattr(it, 'coordSys'))
                    done(ctx, ip)


TREE = ('A', ('B', 'C', 'D'), 'E')
TCLS = {'A': 'Mirror', 'C': 'RefractiveInterface', 'D': 'RefractiveInterface', 'E': 'OPDScreen', 'F': 'Baffle', 'G': 'Detector'}


def build(sc, skips, assigned):
    """T = [A, F, B = [C, D], E, G]; skip flags given or assigned later."""
    def sk(n):
        return dict(skip=True) if n in skips and not assigned else {}
    el = {}
    for n in TCLS:
        el[n] = sc.element(TCLS[n], n, n not in 'D', **sk(n))
    el['B'] = sc.compound('B', [el['C'], el['D']], **sk('B'))
    el['T'] = sc.compound('T', [el[x] for x in ('A', 'F', 'B', 'E', 'G')], **sk('T'))
    if assigned:
        for n in skips:
            sc.ip.setattr(el[n], 'skip', True)
    return el


def visited(skips, reverse, top=True):
    out = []
    for n in ('A', 'F', 'B', 'E', 'G'):
        if n in skips:
            continue
        out += [n] if n != 'B' else [k for k in ('C', 'D') if k not in skips]
    return out[::-1] if reverse else out


SKIPS = [set(), {'A'}, {'F'}, {'B'}, {'C'}, {'D'}, {'E'}, {'G'}, {'A', 'B'}, {'C', 'D'}, {'A', 'F', 'B', 'E', 'G'}, {'F', 'D', 'G'}, {'B', 'C'}]


@rule('C17', 'compound-trace', need=600)
def compound_trace(ctx, s):
    """A compound traces its unskipped elements in order (or in reverse order), nested ones at their place."""
    for skips in SKIPS:
        for reverse in (False, True):
            for assigned in ((False, True) if len(skips) == 1 else (False,)):
                sc = Scene(ctx)
                ip = sc.ip
                el = build(sc, skips, assigned)
                rv = sc.bundle(coordsys(ip, 'a'))
                where = loc(ctx, 'CompoundOptic', 'trace')
                ret = ip.call_method(el['T'], 'trace', rv, reverse=reverse)
                subj = 'CompoundOptic.trace(reverse=%s,skip=%s%s)' % (reverse, ''.join(sorted(skips)), ' assigned' if assigned else '')
                order = visited(skips, reverse)
                want = [x for n in order for x in with_rv(sc.steps(n, reverse), sc.rv(rv))]
                follow(s, subj, where, ip, interactions(ip), want, {T.show(sc.rv(rv)): CS('a')})
                if isinstance(ret, Ref) or ret is None:
                    s.check(ret == rv, subj + ' returns its bundle', where, 'returns %s' % T.show(ret))
                done(ctx, ip)


PATHS = [('A', 'C', 'D', 'G'), ('A', 'C', 'D', 'C', 'D', 'G'), ('A', 'F', 'C', 'D', 'E', 'D', 'C', 'D', 'E', 'G'), ('A', 'C', 'A', 'C', 'D'),
         ('A', 'F', 'C', 'F', 'A'), ('C', 'D'), ('A',), ('C', 'E', 'D', 'C')]


def path_steps(sc, path):
    """Nominal order = first appearance; an element where the direction turns reflects."""
    first = {}
    for n in path:
        first.setdefault(n, len(first))
    d = 'f'
    out = []
    for i, n in enumerate(path):
        if i + 1 < len(path):
            nd = 'r' if first[path[i + 1]] < first[n] else 'f'
        else:
            nd = 'r' if first[n] == 0 else d
        out.append((n, sc.steps(n, d == 'r', None if nd == d else 'reflect')))
        d = nd
    return out


@rule('C17', 'path-trace', need=250)
def path_trace(ctx, s):
    """An explicit path visits its elements in the order given, reflecting where the path turns back."""
    for path in PATHS:
        for full in (False, True):
            sc = Scene(ctx)
            ip = sc.ip
            el = build(sc, set(), False)
            sc.frames = {n: ip.getattr(el[n], 'coordSys') for n in el}
            rv = sc.bundle(coordsys(ip, 'a'))
            meth = 'traceFull' if full else 'trace'
            where = loc(ctx, 'CompoundOptic', meth)
            ret = ip.call_method(el['T'], meth, rv, path=ip.newlist([name(n) for n in path]))
            subj = 'CompoundOptic.%s(path=%s)' % (meth, '-'.join(path))
            ev = interactions(ip)
            ps = path_steps(sc, path)
            want = [x for n, st in ps for x in st]
            if not full:
                follow(s, subj, where, ip, ev, with_rv(want, sc.rv(rv)), {T.show(sc.rv(rv)): CS('a')})
            else:
                # same interactions; the bundles are copies of each other
                if any(e.guard is not True or e.loops for e in ev):
                    s.und(subj, where, 'unresolved')
                    continue
                if [e.name for e in ev] != [w['op'] for w in want]:
                    s.bad(subj, where, 'performs %s instead of %s' % ([e.name for e in ev], [w['op'] for w in want]))
                    continue
                s.ok(subj, where)
                for k, (e, w) in enumerate(zip(ev, want)):
                    r = roles_of(e)
                    if r is None:
                        continue
                    for q, x in w.items():
                        if q not in ('op', 'frame'):
                            judge(s, '%s#%d.%s' % (subj, k, q), e.loc, r.get(q, MISSING), x)
                full_result(ctx, s, sc, subj, where, ret, [n for n, _ in ps], rv, ev, [len(st) for _, st in ps])
            done(ctx, ip)


def history(sc, ref, ev, upto=None):
    """Interactions the data of a bundle have been through (through the bundles it was copied from)."""
    out = []
    if ref.id in sc.copied:
        src, when = sc.copied[ref.id]
        out = history(sc, Ref(src), ev, when)
    h = sc.rv(ref)
    for k, e in enumerate(ev):
        if upto is None or e.seq <= upto:
            if T.veq(roles_of(e)['rv'], h):
                out.append(k)
    return out


def full_result(ctx, s, sc, subj, where, ret, order, rv, ev, counts):
    """One entry per element visited, in order, with the rays going in and those coming out."""
    ip = sc.ip
    if any(roles_of(e) is None for e in ev):
        return s.und(subj + ' result', where, 'native calls of another shape')
    s.check(history(sc, rv, ev) == [], subj + ' input', where, 'the bundle passed in is modified')
    if not isinstance(ret, Ref):
        return s.und(subj + ' result', where, T.show(ret))
    vals = ip.seq_items(ip.call_method(ret, 'values'))
    if len(vals) != len(order):
        return s.bad(subj + ' result', where, '%d entries for %d elements' % (len(vals), len(order)))
    k = 0
    for n, v, c in zip(order, vals, counts):
        nm, i, o = (ip.getitem(v, q) for q in ('name', 'in', 'out'))
        judge(s, '%s[%s].name' % (subj, n), where, nm, name(n))
        if not all(isinstance(x, Ref) and x.id in sc.bundles for x in (i, o)):
            s.und('%s[%s]' % (subj, n), where, 'in/out not resolved')
            continue
        s.check(history(sc, i, ev) == list(range(k)), '%s[%s].in' % (subj, n), where, 'in: not the rays that reach the element')
        k += c
        s.check(history(sc, o, ev) == list(range(k)), '%s[%s].out' % (subj, n), where, 'out: not the rays that leave the element')
        frame_is(ctx, s, ip, '%s[%s].out.coordSys' % (subj, n), where, ip.getattr(o, 'coordSys'), sc.frames[n])


@rule('C17', 'trace-full', need=300)
def trace_full(ctx, s):
    """Full tracing performs the interactions of plain tracing, one fresh bundle per element, and keeps the input."""
    for skips in SKIPS + [{'T'}]:
        for reverse in (False, True):
            sc = Scene(ctx)
            ip = sc.ip
            el = build(sc, skips, False)
            sc.frames = {n: ip.getattr(el[n], 'coordSys') for n in el}
            rv = sc.bundle(coordsys(ip, 'a'))
            where = loc(ctx, 'CompoundOptic', 'traceFull')
            ret = ip.call_method(el['T'], 'traceFull', rv, reverse=reverse)
            subj = 'CompoundOptic.traceFull(reverse=%s,skip=%s)' % (reverse, ''.join(sorted(skips)))
            order = visited(skips, reverse) if 'T' not in skips else []
            ev = interactions(ip)
            full_events(ctx, s, sc, subj, where, ev, [(n, sc.steps(n, reverse)) for n in order], rv, ret)
            done(ctx, ip)
    for cls in KINDS:
        for reverse in (False, True):
            for skip in (False, True):
                sc = Scene(ctx)
                ip = sc.ip
                it = sc.element(cls, 'A', skip=skip)
                sc.frames = {'A': ip.getattr(it, 'coordSys')}
                rv = sc.bundle(coordsys(ip, 'a'))
                ret = ip.call_method(it, 'traceFull', rv, reverse=reverse)
                full_events(ctx, s, sc, '%s.traceFull(reverse=%s,skip=%s)' % (cls, reverse, skip), loc(ctx, cls, 'traceFull'), interactions(ip),
                            [('A', sc.steps('A', reverse))] if not skip else [], rv, ret)
                done(ctx, ip)


def full_events(ctx, s, sc, subj, where, ev, want, rv, ret):
    ip = sc.ip
    if any(e.guard is not True or e.loops for e in ev):
        return s.und(subj, where, 'unresolved')
    flat = [x for n, st in want for x in st]
    if [e.name for e in ev] != [w['op'] for w in flat]:
        return s.bad(subj, where, 'performs %s instead of %s' % ([e.name for e in ev], [w['op'] for w in flat]))
    s.ok(subj, where)
    k = 0
    cur = CS('a')
    for n, st in want:
        for w in st:
            e = ev[k]
            k += 1
            r = roles_of(e)
            if r is None:
                continue
            for q, x in w.items():
                if q not in ('op', 'frame'):
                    judge(s, '%s[%s].%s' % (subj, n, q), e.loc, r.get(q, MISSING), x)
            if 'frame' in w:
                B = CS(n)
                judge(s, '%s[%s].dr' % (subj, n), e.loc, r['dr'], mm(tr(cur.r), vsub(B.o, cur.o)), second=rot_equal)
                cur = B
    full_result(ctx, s, sc, subj, where, ret, [n for n, _ in want], rv, ev, [len(st) for _, st in want])


# ------------------------------------------------------------------- splitting
FIELDS = ('x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux', 'vignetted', 'failed')


def split_expect(sc, cls, n, reverse):
    """(interactions, role of the forward rays, role of the reverse rays)."""
    d = {'op': 'rSplit', 'surface': hand(n + '.surface._surface'), 'frame': n}
    if cls == 'RefractiveInterface':
        d['inMedium'], d['outMedium'] = (hand('%s.%s._medium' % (n, m)) for m in (('m2', 'm1') if reverse else ('m1', 'm2')))
        return d, ('rvSplit' if reverse else 'rv'), ('rv' if reverse else 'rvSplit')
    if cls == 'Detector':
        d['inMedium'], d['outMedium'] = (hand('%s.%s._medium' % (n, m)) for m in ('m1', 'm2'))
        d['coating'] = hand(n + '.fc._coating')
        return d, 'rv', 'rvSplit'
    st = sc.steps(n, reverse)[0]
    if cls == 'Mirror':
        return st, (None if reverse else 'rv'), ('rv' if reverse else None)
    return st, (None if reverse else 'rv'), ('rv' if reverse else None)


@rule('C17', 'interface-split', need=250)
def interface_split(ctx, s):
    """Splitting at an interface: its interaction once, both products obscured once, each sent the way it goes."""
    coats = {}
    for cls in KINDS:
        if cls == 'Interface':
            continue
        for reverse in (False, True):
            if cls == 'Detector' and reverse:
                continue
            for obscured in (True, False):
                for skip in (False, True):
                    for path in (None, ['p', 'q']):
                        sc = Scene(ctx)
                        ip = sc.ip
                        it = sc.element(cls, 'A', obscured, skip)
                        rv = sc.bundle(coordsys(ip, 'a'))
                        if path is not None:
                            ip.wr(rv).fields['path'] = ip.newlist([name(p) for p in path])
                        else:
                            ip.obj(rv).open = False
                        where = loc(ctx, cls, 'traceSplit')
                        subj = '%s.traceSplit(reverse=%s,obscured=%s,skip=%s,path=%s)' % (cls, reverse, obscured, skip, path)
                        k0 = len(ip.raised)
                        ret = ip.call_method(it, 'traceSplit', rv, reverse=reverse)
                        if ret is None or len(ip.raised) > k0:
                            s.bad(subj, where, 'fails with %s' % [r[1] for r in ip.raised[k0:]])
                            continue
                        ev = interactions(ip)
                        split_result(ctx, s, sc, subj, where, cls, reverse, obscured, skip, path, rv, ret, ev, coats)
                        done(ctx, ip)
    f, r = coats.get(False), coats.get(True)
    if f is not None and r is not None:
        s.check(not T.veq(f, r), 'RefractiveInterface.traceSplit coatings', loc(ctx, 'RefractiveInterface', 'rSplit'),
                'the same coating is used in both directions')


def bundles_of(ip, v):
    """The bundles of a result list, None and unresolved entries apart."""
    out, odd = [], []
    for x in ip.seq_items(v):
        if isinstance(x, Ref):
            out.append(x)
        elif x is not None:
            odd.append(x)
    return out, odd


def split_result(ctx, s, sc, subj, where, cls, reverse, obscured, skip, path, rv, ret, ev, coats):
    ip = sc.ip
    if any(e.guard is not True or e.loops or roles_of(e) is None for e in ev):
        return s.und(subj, where, 'unresolved')
    if not isinstance(ret, Tup) or len(ret.items) != 2:
        return s.und(subj, where, 'returns %s' % T.show(ret))
    (fwd, o1), (rev, o2) = (bundles_of(ip, x) for x in ret.items)
    if o1 or o2:
        return s.und(subj, where, 'result not resolved')
    if skip:
        s.check(not ev, subj + ' interactions', where, 'a skipped element interacts')
        s.check((fwd, rev) == (([], [rv]) if reverse else ([rv], [])), subj, where, 'a skipped element must pass the rays on unchanged')
        return
    main, fr, rr = split_expect(sc, cls, 'A', reverse)
    ops = [e.name for e in ev]
    if [q for q in ops if q != 'obscure'] != [main['op']]:
        return s.bad(subj, where, 'performs %s instead of %s' % (ops, main['op']))
    r = roles_of(ev[0])
    if ops[0] != main['op']:
        return s.bad(subj, where, 'obscures before the interaction')
    A, B = CS('a'), CS('A')
    judge(s, subj + '.dr', ev[0].loc, r['dr'], mm(tr(A.r), vsub(B.o, A.o)), second=rot_equal)
    m = mm(tr(A.r), B.r)
    judge(s, subj + '.drot', ev[0].loc, r['drot'], Arr((9,), {(3 * i + j,): m.items[(i, j)] for i in range(3) for j in range(3)}), second=rot_equal)
    for q, x in main.items():
        if q not in ('op', 'frame'):
            judge(s, '%s.%s' % (subj, q), ev[0].loc, r.get(q, MISSING), x)
    if cls == 'RefractiveInterface':
        c = r['coating']
        ok = [hand('A.%s._coating' % q) for q in ('fc', 'rc')]
        if any(T.veq(c, q) for q in ok):
            s.ok(subj + '.coating', ev[0].loc)
            coats.setdefault(reverse, c)
            s.check(T.veq(coats[reverse], c), subj + '.coating always the same', ev[0].loc, 'coating changes with an unrelated argument')
        else:
            judge(s, subj + '.coating', ev[0].loc, c, ok[0])
    want = {}
    for side, role, lst in (('forward', fr, fwd), ('reverse', rr, rev)):
        hs = [sc.rv(x) if x.id in sc.bundles else None for x in lst]
        if None in hs:
            s.und('%s.%s' % (subj, side), where, 'result not resolved')
            continue
        wh = [r[role]] if role else []
        if not (len(hs) == len(wh) and all(T.veq(a, b) for a, b in zip(hs, wh))):
            s.bad('%s.%s' % (subj, side), where, 'wrong rays: %s' % [T.show(h) for h in hs])
            continue
        s.ok('%s.%s' % (subj, side), where)
        for x, h in zip(lst, hs):
            n = [e for e in ev[1:] if T.veq(roles_of(e)['rv'], h)]
            s.check(len(n) == (1 if obscured else 0), '%s.%s obscured once' % (subj, side), where, 'obscured %d times' % len(n))
            for e in n:
                judge(s, '%s.%s obscuration' % (subj, side), e.loc, roles_of(e)['obsc'], hand('A.obsc._obsc'))
            frame_is(ctx, s, ip, '%s.%s.coordSys' % (subj, side), where, ip.getattr(x, 'coordSys'), ip.construct(ip.prog.cls('CoordSys'), [vec('A.o'), rotm('A')], {}))
            p = ip.obj(x).fields.get('path', MISSING)
            if isinstance(p, Ref):
                p = Tup(ip.seq_items(p))
            judge(s, '%s.%s.path' % (subj, side), where, p, Tup([name(q) for q in (path or []) + ['A']]), norm=False)


def rayfield(nm, q):
    """The array of one ray quantity of bundle nm."""
    n = '%s._%s' % (nm, q)
    return Arr(('N',), {(): boolv(n) if q in ('vignetted', 'failed') else var(n)})


class SplitScene(Scene):
    """A compound of three elements whose own splitting is scripted."""

    def __init__(self, ctx, depth):
        super().__init__(ctx)
        ip = self.ip
        self.calls = []           # (element, bundle ref, minFlux, reverse)
        self.made = []            # (ref, dict of fields, coordSys)
        self.line = {}            # bundle ref -> lineage
        self.cs = {}              # lineage -> frame
        self.depth = depth

        def new(ip_, args, kw):
            ci = ip_.prog.cls('RayVector')
            fn = ci.find('__init__')[1]
            names = [a.arg for a in fn.args.args][1:]
            f = dict(zip(names, args))
            f.update(kw)
            r = ip_.instance('RayVector', {'_' + q: f[q] for q in FIELDS if q in f}, False)
            ip_.wr(r).fields['coordSys'] = f.get('coordSys', MISSING)
            ip_.wr(r).fields['_rv'] = T.atom('native:rv', (const(r.id),), ('obj',))
            self.made.append(r)
            return r
        ip.hooks['new:RayVector'] = new

        def direct(ip_, args, kw):
            return new(ip_, args, kw)
        ip.hooks['RayVector._directInit'] = direct
        ip.hooks['RayVector.__len__'] = lambda ip_, args, kw: ONE

        def split(ip_, args, kw):
            fn = ip_.prog.cls('Interface').find('traceSplit')[1]
            names = [a.arg for a in fn.args.args]
            f = dict(zip(names, args))
            f.update(kw)
            el = args[0]
            src = f.get('rv')
            rev = f.get('reverse', False)
            lin = self.lineage(src)
            self.calls.append((el, src, f.get('minFlux'), rev, lin, ip_.g))
            if lin is None or len(lin) > self.depth:
                return Tup((ip_.newlist([]), ip_.newlist([])))
            return Tup((ip_.newlist([self.rays(lin + 'f', el)]), ip_.newlist([self.rays(lin + 'r', el)])))
        for c in ('Interface', 'Mirror', 'RefractiveInterface', 'Detector', 'Baffle', 'OPDScreen'):
            ip.hooks[c + '.traceSplit'] = split

    def rays(self, nm, el):
        ip = self.ip
        r = ip.instance('RayVector', {'_' + q: rayfield(nm, q) for q in FIELDS}, False)
        o = ip.wr(r).fields
        o['coordSys'] = ip.getattr(el, 'coordSys') if el is not None else coordsys(ip, 'a')
        o['_rv'] = T.atom('var', (nm + '._rv',), ('obj',))
        o['path'] = ip.newlist([name('path ' + nm)])
        self.line[r.id] = nm
        self.cs[nm] = o['coordSys']
        return r

    def lineage(self, ref):
        """The scripted bundle whose rays (all or a selection) these are."""
        if not isinstance(ref, Ref):
            return None
        if ref.id in self.line:
            return self.line[ref.id]
        v = same_values(self.ip.obj(ref).fields.get('_x', MISSING))
        if not isinstance(v, R):
            return None
        for a in T.all_atoms(v):
            for d in T.deep_atoms(a):
                n, args = T.ATOMS[d]
                if n == 'var' and args[0].endswith('._x'):
                    return args[0][:-3]
        return None


def sim(depth, reverse, nitems=3):
    """Work items and outputs the documented propagation produces."""
    calls, outf, outr = [], [], []
    todo = [('0', 'r' if reverse else 'f', nitems - 1 if reverse else 0)]
    while todo:
        lin, d, k = todo.pop()
        calls.append((lin, d, k))
        if len(lin) > depth:
            continue
        if k == nitems - 1:
            outf.append(lin + 'f')
        else:
            todo.append((lin + 'f', 'f', k + 1))
        if k == 0:
            outr.append(lin + 'r')
        else:
            todo.append((lin + 'r', 'r', k - 1))
    return sorted(calls), sorted(outf), sorted(outr)


@rule('C17', 'compound-split', need=60)
def compound_split(ctx, s):
    """Splitting a compound sends every product on to the neighbouring element, or out at either end, above minFlux only."""
    where = loc(ctx, 'CompoundOptic', 'traceSplit')
    for reverse in (False, True):
        for minflux in (True, False):
            sc = SplitScene(ctx, 3)
            ip = sc.ip
            els = [sc.element(c, n) for c, n in (('RefractiveInterface', 'A'), ('Mirror', 'B'), ('Detector', 'C'))]
            t = sc.compound('T', els)
            rv = sc.rays('0', None)
            k0 = len(ip.raised)
            kw = dict(minFlux=var('minFlux')) if minflux else {}
            ret = ip.call_method(t, 'traceSplit', rv, reverse=reverse, **kw)
            subj = 'CompoundOptic.traceSplit(reverse=%s%s)' % (reverse, ',minFlux' if minflux else '')
            if ret is None or len(ip.raised) > k0:
                s.bad(subj, where, 'fails with %s' % [r[1] for r in ip.raised[k0:]])
                continue
            split_compound_result(ctx, s, sc, subj, where, ret, els, reverse, var('minFlux') if minflux else None)
            done(ctx, ip)
        sc = SplitScene(ctx, 3)
        ip = sc.ip
        t = sc.compound('T', [sc.element('Mirror', 'A')], skip=True)
        rv = sc.rays('0', None)
        ret = ip.call_method(t, 'traceSplit', rv, reverse=reverse)
        subj = 'CompoundOptic.traceSplit(reverse=%s,skipped)' % reverse
        if isinstance(ret, Tup) and len(ret.items) == 2:
            (f, o1), (r, o2) = (bundles_of(ip, x) for x in ret.items)
            s.check(not sc.calls and not o1 and not o2 and (f, r) == (([], [rv]) if reverse else ([rv], [])), subj, where,
                    'a skipped compound must pass the rays on unchanged')
        else:
            s.und(subj, where, T.show(ret))
        done(ctx, ip)


def split_compound_result(ctx, s, sc, subj, where, ret, els, reverse, minflux):
    ip = sc.ip
    if any(c[5] is not True or c[4] is None or not isinstance(c[3], bool) for c in sc.calls):
        return s.und(subj, where, 'propagation not resolved')
    if not isinstance(ret, Tup) or len(ret.items) != 2:
        return s.und(subj, where, T.show(ret))
    calls, outf, outr = sim(sc.depth, reverse)
    got = sorted((lin, 'r' if rev else 'f', els.index(el) if el in els else -1) for el, src, mf, rev, lin, g in sc.calls)
    s.check(got == calls, subj + ' propagation', where, 'elements visited %s, expected %s' % (sorted(set(got) - set(calls))[:4], sorted(set(calls) - set(got))[:4]))
    if minflux is not None:
        for el, src, mf, rev, lin, g in sc.calls:
            judge(s, '%s minFlux at %s' % (subj, lin), where, mf, minflux)
    for side, v, want in (('forward', ret.items[0], outf), ('reverse', ret.items[1], outr)):
        b, odd = bundles_of(ip, v)
        lins = [sc.lineage(x) for x in b]
        if odd or None in lins:
            s.und('%s.%s' % (subj, side), where, 'result not resolved')
            continue
        s.check(sorted(lins) == want, '%s.%s' % (subj, side), where, 'returns %s instead of %s' % (sorted(lins), want))
        for x, lin in zip(b, lins):
            selection(ctx, s, sc, '%s.%s[%s]' % (subj, side, lin), where, x, lin, minflux)
    for el, src, mf, rev, lin, g in sc.calls:
        if lin != '0':
            selection(ctx, s, sc, '%s.queued[%s]' % (subj, lin), where, src, lin, minflux)


def selection(ctx, s, sc, subj, where, ref, lin, minflux):
    """All quantities of the unvignetted rays of sufficient flux, with the frame and path."""
    ip = sc.ip
    o = ip.obj(ref).fields
    v = rayfield(lin, 'vignetted')
    mf = minflux if minflux is not None else const(Fraction(1, 1000))
    w = want_mask(ip, v, rayfield(lin, 'flux'), mf)
    for q in FIELDS:
        judge(s, '%s.%s' % (subj, q), where, o.get('_' + q, MISSING), ip.getitem(rayfield(lin, q), w), known=('getitem',))
    frame_is(ctx, s, ip, subj + '.coordSys', where, o.get('coordSys', MISSING), sc.cs[lin])
    p = o.get('path', MISSING)
    if isinstance(p, Ref):
        p = Tup(ip.seq_items(p))
    judge(s, subj + '.path', where, p, Tup([name('path ' + lin)]), norm=False)


def want_mask(ip, vig, flux, mf):
    import ast
    saved = ip.frame
    ip.frame = ip.alloc('frame')
    ip.obj(ip.frame).fields.update(v=vig, f=flux, m=mf)
    try:
        return ip.ev(ast.parse('~v & (f >= m)', mode='eval').body)
    finally:
        ip.frame = saved
