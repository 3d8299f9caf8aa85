"""C24: the host/device protocol of ray storage and the device-side clones of native objects (GPU configuration).

The sources are read in the configuration BATOID_GPU.  Every DualView carries, next to its recorded syncState, two
ghost facts: the device copy is current, the host copy is current.  `target update` moves them, accesses use them."""
import re
from . import terms as T
from .terms import V, R, ZERO, ONE
from .core import rule
from .cfront import AnalysisBroken, line_of, params_of
from .cinterp import Interp, State, Rec, qual, walk, pragma_text, base_type, pointee, is_ptr

HOST, DEVICE = ('enum', 'host'), ('enum', 'device')
GHOST = ('#dev', '#host')


def state0(ok):
    return T.bool_atom('on_device', ok)


def is_dev(v):
    return T.truthv(T.vmap(lambda l: True if l == DEVICE else False if l == HOST else
                           T.bool_atom('unknown', T.unknown('sync state')), v))


def directive(text):
    m = re.search(r'#\s*pragma\s+omp\s+(.*)', text)
    return m.group(1) if m else ''


def clauses(text):
    """[(clause name, argument text)] of a directive"""
    out = []
    d = directive(text)
    for m in re.finditer(r'(\w+)\s*\(', d):
        depth, i = 1, m.end()
        while i < len(d) and depth:
            depth += {'(': 1, ')': -1}.get(d[i], 0)
            i += 1
        out.append((m.group(1), d[m.end():i - 1]))
    return out


def items(arg):
    """the list items of a clause argument: (modifier, [(name, has section)])"""
    mod = None
    depth = 0
    for i, ch in enumerate(arg):
        depth += {'[': 1, ']': -1}.get(ch, 0)
        if ch == ':' and not depth:
            mod, arg = arg[:i].strip(), arg[i + 1:]
            break
    out, cur, depth = [], '', 0
    for ch in arg + ',':
        depth += {'[': 1, ']': -1}.get(ch, 0)
        if ch == ',' and not depth:
            cur = cur.strip()
            if cur:
                out.append((cur.split('[')[0].strip(), '[' in cur))
            cur = ''
        else:
            cur += ch
    return mod, out


class DevInterp(Interp):
    def __init__(self, *a, **kw):
        Interp.__init__(self, *a, **kw)
        self.region = None
        self._st = None
        self.touched = {}
        self.moves = []
        self.bad = []

    # ---- ghosts ---------------------------------------------------------
    def dv_init(self, ok, name):
        if name == 'syncState':
            self.touched[ok] = True
            return T.ite(state0(ok), DEVICE, HOST)
        if name == '#dev':
            return state0(ok)
        if name == '#host':
            return T.vnot(state0(ok))
        return None

    def default_field(self, ok, name, t):
        v = self.dv_init(ok, name)
        return v if v is not None else Interp.default_field(self, ok, name, t)

    def initial_field(self, key, like):
        v = self.dv_init(*key)
        return v if v is not None else Interp.initial_field(self, key, like)

    def ghost(self, ok, name, st):
        v = st.fields.get((ok, name))
        return self.dv_init(ok, name) if v is None else v

    @staticmethod
    def dv_of(base):
        if isinstance(base, tuple) and len(base) == 3 and base[0] == 'f' and base[2] == 'data':
            return base[1]
        return None

    def event(self, kind, node, **kw):
        e = Interp.event(self, kind, node, **kw)
        e['region'] = self.region
        if kind in ('load', 'store'):
            dv = self.dv_of(e['base'])
            if dv is not None and self._st is not None:
                e['dv'] = dv
                e['dev'] = self.ghost(dv, '#dev', self._st)
                e['host'] = self.ghost(dv, '#host', self._st)
                e['state'] = self.ghost(dv, 'syncState', self._st)
        return e

    def load_mem(self, p, i, t, st, node):
        self._st = st
        return Interp.load_mem(self, p, i, t, st, node)

    def store(self, lv, val, st, node=None):
        self._st = st
        return Interp.store(self, lv, val, st, node)

    # ---- calls ----------------------------------------------------------
    def method_call(self, decl, m, obj, args, st, n):
        name = decl.get('name')
        cls = decl.get('_clsname') or (decl.get('_parent') or {}).get('_cls') or (decl.get('_parent') or {}).get('name') or ''
        if cls.startswith('DualView'):
            fn = self.definition(decl)
            if fn is not None and not isinstance(obj, V):
                return self.call_fn(fn, self.args(fn, args, st), st, obj)
        if name == 'getDevPtr' and not args:
            self.event('getdevptr', n, obj=obj)
            return T.vmap(lambda o: ('ptr', ('obj', ('dev', o)), ZERO), obj)
        return Interp.method_call(self, decl, m, obj, args, st, n)

    def ev_CXXNewExpr(self, n, st):
        k = len(self.events)
        v = Interp.ev_CXXNewExpr(self, n, st)
        for e in self.events[k:]:
            if e['kind'] == 'new':
                e['obj'] = v
        return v

    # ---- directives ---------------------------------------------------------
    def sections(self, n, st):
        """[(base pointer value, lower, length)] of the array sections of the directive, in source order"""
        out = []

        def rec(x, top):
            for c in x.get('inner', ()):
                if c.get('kind') in ('CapturedStmt',):
                    continue
                if c.get('kind') in ('OMPArraySectionExpr', 'ArraySectionExpr'):
                    kids = c.get('inner', [])
                    b = self.ev(kids[0], st)
                    lo = self.ev(kids[1], st) if len(kids) > 1 and kids[1].get('kind') else ZERO
                    ln = self.ev(kids[2], st) if len(kids) > 2 and kids[2].get('kind') else None
                    out.append((c.get('_beg', (None, 0, 0))[2], b, lo, ln))
                    continue
                rec(c, False)
        rec(n, True)
        seen = {}
        for o in out:
            seen.setdefault(o[0], o)
        return [seen[k][1:] for k in sorted(seen)]

    def named(self, n, name, st):
        for c in walk(n):
            if c.get('kind') == 'DeclRefExpr' and c.get('referencedDecl', {}).get('name') == name:
                d = c['referencedDecl']['id']
                k = self.varkey(d, st)
                if k is not None:
                    v = st.env.get(k)
                    if isinstance(v, tuple) and v and v[0] == 'ref':
                        v = self.load(v[1], st, c)
                    return v
        return None

    def ex_omp(self, n, st):
        kind = n.get('kind', '')
        if not kind.startswith('OMPTarget'):
            return Interp.ex_omp(self, n, st)
        text = pragma_text(n)
        cl = clauses(text)
        secs = self.sections(n, st)
        maps, dev, plain = [], [], []
        it = iter(secs)
        okay = True
        for name, arg in cl:
            if name in ('to', 'from', 'map'):
                mod, lst = items(arg)
                mt = name if name != 'map' else (mod or 'tofrom').split(',')[-1].strip()
                for nm, sec in lst:
                    if sec:
                        s = next(it, None)
                        if s is None:
                            okay = False
                        else:
                            maps.append((mt, nm) + s)
                    else:
                        plain.append((mt, nm))
            elif name in ('is_device_ptr', 'has_device_addr'):
                for nm, _ in items(arg)[1]:
                    dev.append((nm, self.named(n, nm, st)))
        if next(it, None) is not None:
            okay = False
        if kind == 'OMPTargetUpdateDirective':
            self.event('update', n, maps=maps, ok=okay)
            for mt, nm, b, lo, ln in maps:
                self.move(mt, b, lo, ln, n, st)
            return
        if kind in ('OMPTargetEnterDataDirective', 'OMPTargetExitDataDirective'):
            self.event('enter' if 'Enter' in kind else 'exit', n, maps=maps, ok=okay, mem={
                b[1]: list(st.mem.get(b[1], [])) for _, _, b, _, _ in maps if isinstance(b, tuple) and b[0] == 'ptr'})
            return
        reg = dict(node=n, maps=maps, dev=dev, plain=plain, ok=okay, guard=self.guard, text=text,
                   loops=tuple(l['id'] for l in self.loopstack))
        old, self.region = self.region, reg
        try:
            if kind in ('OMPTargetDirective', 'OMPTargetDataDirective'):
                body = None
                for c in walk(n):
                    if c.get('kind') == 'CapturedDecl':
                        body = c['inner'][0]
                        while body.get('kind') == 'CapturedStmt':
                            body = body['inner'][0]['inner'][0]
                        break
                self.exec(body, st)
            else:
                Interp.ex_omp(self, n, st)
        finally:
            self.region = old

    def move(self, mt, b, lo, ln, n, st):
        if not (isinstance(b, tuple) and b and b[0] == 'ptr'):
            self.unk('target update of an unknown pointer', n)
            return
        dv = self.dv_of(b[1])
        if dv is None:
            return
        size = self.load_field(('obj', dv), 'size', 'size_t', st)
        full = isinstance(lo, R) and not lo.num and isinstance(b[2], R) and not b[2].num and ln is not None and T.veq(ln, size)
        src, dst = ('#host', '#dev') if mt == 'to' else ('#dev', '#host')
        self.moves.append(dict(mt=mt, dv=dv, node=n, guard=self.total_guard(), src=self.ghost(dv, src, st), full=full))
        if full:
            st.fields[(dv, dst)] = True

    def total_guard(self):
        g = self.guard
        for l in self.loopstack:
            g = T.vand(g, l['guard'])
        return g


class Quiet:
    """Reports of a function some statement of which was not understood: no alarm can be justified from the rest."""
    def __init__(self, s):
        self.s = s

    def __getattr__(self, k):
        return getattr(self.s, k)

    def bad(self, subject, loc='', msg=''):
        self.s.und(subject, loc, 'a statement of the function is not understood; ' + msg)

    def check(self, cond, subject, loc='', msg=''):
        return self.s.ok(subject, loc) if cond else self.bad(subject, loc, msg)

    def holds(self, subject, loc, cond, msg=''):
        cond = T.truthv(cond)
        if all(l is True for _, l in T.leaves(cond)):
            self.s.ok(subject, loc)
        else:
            self.bad(subject, loc, msg)


def fair(s, r):
    return Quiet(s) if r.I.unknowns else s


class DRun:
    def __init__(self, ctx, fn, this=None, args=None, ctor=None):
        P = ctx.gpu
        self.I = I = DevInterp(P)
        self.fn = fn
        self.loc = line_of(fn)
        st = State()
        n = fn.get('mangledName')
        q = P.qname.get(n, n)
        ctx.analysed.add(q + ' [BATOID_GPU]')
        self.q = q
        self.ret, self.st, self.params = I.run(fn, args, this, st)

    def total(self, e):
        g = e['guard']
        for i in e['loops']:
            g = T.vand(g, self.I.loops[i]['guard'])
        return g


def entries(ctx):
    """every definition that receives ray storage: functions with RayVector parameters, methods of RayVector and DualView"""
    def build():
        P = ctx.gpu
        out = []
        for m, fn in sorted(P.defs.items()):
            q = P.qname.get(m, m)
            if not m.startswith('_Z') or not P.callable_from_outside(m):
                continue                # a local helper is followed from its callers
            cls = q.split('::')[0] if '::' in q else ''
            if fn.get('kind') in ('CXXConstructorDecl', 'CXXDestructorDecl'):
                continue
            if cls == 'RayVector' or cls.startswith('DualView') or any('RayVector' in qual(p) for p in params_of(fn)):
                out.append((q, fn))
        return out
    return ctx.memo('device-entries', build)


def drun(ctx, q, fn):
    def build():
        this = ('obj', 'this') if fn.get('kind') == 'CXXMethodDecl' else None
        return DRun(ctx, fn, this)
    return ctx.memo(('drun', fn.get('mangledName')), build)


def short(dv):
    return dv[2] if isinstance(dv, tuple) and dv[0] == 'f' else str(dv)


def owner(dv):
    return dv[1] if isinstance(dv, tuple) and dv[0] == 'f' else dv


def where(e):
    return line_of(e['node']) if e.get('node') else ''


def result_of_assignment(e):
    """the value of the expression a = b, which nothing uses"""
    n = e['node'] or {}
    return e['kind'] == 'load' and n.get('kind') == 'BinaryOperator' and n.get('opcode') == '='


def accesses(r):
    """{(dv, kind, on device)} -> events"""
    out = {}
    seen = set()
    for e in r.I.events:
        if e['kind'] in ('load', 'store') and 'dv' in e and not result_of_assignment(e):
            out.setdefault((e['dv'], e['kind'], e['region'] is not None), []).append(e)
    return out


def name_of(r, dv, kind, dev):
    return '%s.%s.%s.%s-%s' % (r.q.replace('::', '.'), owner(dv) if not isinstance(owner(dv), tuple) else 'rays', short(dv),
                               'device' if dev else 'host', 'read' if kind == 'load' else 'write')


def any_of(vs):
    g = False
    for v in vs:
        g = T.vor(g, v)
    return g


@rule('C24', 'current-before-use', need=60)
def current(ctx, s0):
    """A copy of a ray quantity is read only where it is current, whichever side was current on entry."""
    for q, fn in entries(ctx):
        r = drun(ctx, q, fn)
        s = fair(s0, r)
        for (dv, kind, dev), es in sorted(accesses(r).items(), key=lambda x: str(x[0])):
            if kind != 'load':
                continue
            ok = True
            for e in es:
                g = r.total(e)
                ok = T.vand(ok, T.vor(T.vnot(g), e['dev'] if dev else e['host']))
            s.holds(name_of(r, dv, kind, dev), where(es[0]), ok,
                    'the %s copy of %s is read but need not be current' % ('device' if dev else 'host', short(dv)))


@rule('C24', 'change-recorded', need=60)
def recorded(ctx, s0):
    """A side that was written is recorded as the current one when the function returns, and no element of a copy
    recorded as current is left without the current value."""
    for q, fn in entries(ctx):
        r = drun(ctx, q, fn)
        s = fair(s0, r)
        acc = accesses(r)
        for (dv, kind, dev), es in sorted(acc.items(), key=lambda x: str(x[0])):
            if kind != 'store':
                continue
            ok = True
            final = is_dev(r.I.ghost(dv, 'syncState', r.st))
            if any(m['dv'] == dv and m['mt'] == ('from' if dev else 'to') for m in r.I.moves):
                # written, then moved?  only the order could tell
                last = max(i for i, e in enumerate(r.I.events) if e in es)
                if any(e['kind'] == 'update' for e in r.I.events[last:]):
                    s.und(name_of(r, dv, kind, dev), where(es[0]), 'moved again after the write')
                    continue
            for e in es:
                ok = T.vand(ok, T.vor(T.vnot(r.total(e)), final if dev else T.vnot(final)))
            s.holds(name_of(r, dv, kind, dev), where(es[0]), ok,
                    '%s is changed on the %s but the %s copy is recorded as current' %
                    (short(dv), 'device' if dev else 'host', 'host' if dev else 'device'))
        for dv in sorted(set(r.I.touched) | {k[0] for k in r.st.fields if k[1] == 'syncState'}, key=str):
            fin = is_dev(r.I.ghost(dv, 'syncState', r.st))
            devok = r.I.ghost(dv, '#dev', r.st)
            hostok = r.I.ghost(dv, '#host', r.st)
            if full_write(r, dv, acc):
                devok = True
            s.holds('%s.%s.%s.state' % (r.q.replace('::', '.'), owner(dv) if not isinstance(owner(dv), tuple) else 'rays', short(dv)),
                    r.loc, T.vand(T.vor(T.vnot(fin), devok), T.vor(fin, hostok)),
                    'the recorded current copy of %s was never brought up to date' % short(dv))


def full_write(r, dv, acc):
    for e in acc.get((dv, 'store', True), ()):
        if e['guard'] is not True or len(e['loops']) != 1:
            continue
        l = r.I.loops[e['loops'][0]]
        if l['guard'] is not True or l.get('ret') not in (False, None) or l.get('brk') not in (False, None):
            continue
        if isinstance(e['idx'], R) and T.req(e['idx'], l['k']) and l['n'] is not None:
            return True
    return False


@rule('C24', 'moves', need=12)
def moves(ctx, s0):
    """Every copy between the sides moves the whole quantity, from the side that is current."""
    for q, fn in entries(ctx):
        if not q.startswith('DualView'):
            continue
        r = drun(ctx, q, fn)
        s = fair(s0, r)
        for i, m in enumerate(r.I.moves):
            sub = '%s.%s.%d' % (q.replace('::', '.'), m['mt'], i)
            s.check(m['full'], sub, where(m), 'the copy does not cover data[0:size]')
            s.holds(sub + '.source', where(m), T.vor(T.vnot(m['guard']), m['src']),
                    'copied from the side that need not be current')
        if q.endswith('::syncToDevice') or q.endswith('::syncToHost'):
            to = q.endswith('Device')
            fin = is_dev(r.I.ghost('this', 'syncState', r.st))
            s.holds(q.replace('::', '.') + '.state', r.loc, fin if to else T.vnot(fin), 'the new state is not recorded')
            s.holds(q.replace('::', '.') + '.copy', r.loc, r.I.ghost('this', '#dev' if to else '#host', r.st),
                    'the requested side is not current afterwards')


@rule('C24', 'device-storage', need=6)
def storage(ctx, s):
    """Device storage exists for the whole quantity from construction to destruction."""
    P = ctx.gpu
    n = 0
    for m, fn in sorted(P.defs.items()):
        q = P.qname.get(m, m)
        if not m.startswith('_Z') or not q.startswith('DualView'):
            continue
        if fn.get('kind') not in ('CXXConstructorDecl', 'CXXDestructorDecl'):
            continue
        r = DRun(ctx, fn, ('obj', 'this'))
        ctor = fn.get('kind') == 'CXXConstructorDecl'
        sub = q.replace('::', '.') + '(' + ','.join(base_type(qual(p)) + ('*' if is_ptr(qual(p)) else '') for p in params_of(fn)) + ')'
        size = r.I.load_field(('obj', 'this'), 'size', 'size_t', r.st)
        data = r.I.load_field(('obj', 'this'), 'data', 'double *', r.st)
        hit = False
        for e in r.I.events:
            if e['kind'] != ('enter' if ctor else 'exit') or e['guard'] is not True:
                continue
            for mt, nm, b, lo, ln in e['maps']:
                if T.veq(b, data) and isinstance(lo, R) and not lo.num and ln is not None and T.veq(ln, size):
                    if mt in (('alloc', 'to') if ctor else ('release', 'delete', 'from')):
                        hit = True
        s.check(hit, sub + '.mapped', r.loc, 'data[0:size] is not %s on every path' % ('allocated' if ctor else 'released'))
        if ctor:
            ps = params_of(fn)
            ptr = [p for p in ps if is_ptr(qual(p))]
            st = r.I.ghost('this', 'syncState', r.st)
            if ptr:
                s.check(st == HOST, sub + '.state', r.loc, 'existing host data is not recorded as the current copy')
                s.check(T.veq(data, r.st.env[r.params[ptr[0]['name']]]), sub + '.data', r.loc, 'another buffer is kept')
            sz = [p for p in ps if 'size_t' in qual(p) or 'long' in qual(p)]
            if len(sz) == 1:
                s.check(T.veq(size, r.st.env[r.params[sz[0]['name']]]), sub + '.size', r.loc, 'another size is kept')


# ---------------------------------------------------------------- regions
def regions(r):
    out = []
    for e in r.I.events:
        g = e.get('region')
        if g is not None and not any(g is x for x in out):
            out.append(g)
    return out


def find_map(g, base, off=None):
    return [m for m in g['maps'] if isinstance(m[2], tuple) and m[2][0] == 'ptr' and m[2][1] == base]


@rule('C24', 'mapped', need=15)
def mapped(ctx, s0):
    """Storage used on the device is either ray storage or mapped by the construct, in the direction it is used."""
    for q, fn in entries(ctx):
        r = drun(ctx, q, fn)
        s = fair(s0, r)
        use = {}
        for e in r.I.events:
            g = e.get('region')
            if g is None or e['kind'] not in ('load', 'store') or 'dv' in e or result_of_assignment(e):
                continue
            b = e['base']
            use.setdefault((id(g), b if not isinstance(b, list) else tuple(b)), (g, [], []))[1 if e['kind'] == 'load' else 2].append(e)
        names = {}
        for (gid, b), (g, ld, stv) in use.items():
            nm = b[1] if isinstance(b, tuple) and b[0] in ('param', 'obj') and isinstance(b[1], str) else T.clip(T.show(b), 40)
            sub = '%s.%s' % (q.replace('::', '.'), nm)
            names[sub] = names.get(sub, 0) + 1
            if names[sub] > 1:
                sub += '#%d' % names[sub]
            if not g['ok']:
                s.und(sub, r.loc, 'clauses not understood')
                continue
            ms = find_map(g, b)
            if not ms:
                # made inside the region?
                if isinstance(b, tuple) and b[0] in ('new', 'lv'):
                    s.ok(sub)
                elif isinstance(b, tuple) and b[0] == 'obj' and isinstance(b[1], tuple) and b[1][0] == 'dev':
                    s.ok(sub)
                elif isinstance(b, tuple) and b[0] == 'param' or isinstance(b, tuple) and b[0] == 'obj':
                    s.bad(sub, where((ld + stv)[0]), 'host storage is used on the device without being mapped')
                else:
                    s.und(sub, where((ld + stv)[0]), 'storage not understood')
                continue
            mts = {m[0] for m in ms}
            good = True
            if stv and not mts & {'from', 'tofrom'}:
                s.bad(sub, where(stv[0]), 'results written on the device are not copied back')
                good = False
            elif ld and not mts & {'to', 'tofrom'}:
                # a read of what the same iteration wrote is fine
                if any(not any(T.veq(w['idx'], e['idx']) and w['loops'] == e['loops'] for w in stv if r.I.events.index(w) < r.I.events.index(e))
                       for e in ld):
                    s.bad(sub, where(ld[0]), 'host values read on the device are not copied there')
                    good = False
            if not good:
                continue
            # extents
            bad = None
            for e in ld + stv:
                inside = False
                for m in ms:
                    if extent(r, e, m):
                        inside = True
                if not inside:
                    bad = e
            if bad is None:
                s.ok(sub)
            elif any(outside(r, e, m) for e in ld + stv for m in ms) and len(ms) == 1:
                s.bad(sub, where(bad), 'an element beyond the mapped section is used on the device')
            else:
                s.und(sub, where(bad), 'element %s not shown inside the mapped section' % T.clip(T.show(bad['idx']), 60))


def outside(r, e, m):
    """Some element used lies beyond the section for every positive trip count."""
    lo, ln = m[3], m[4]
    idx = e['idx']
    if e['guard'] is not True or not (isinstance(lo, R) and isinstance(ln, R) and isinstance(idx, R)):
        return False
    off = T.rsub(T.rsub(idx, m[2][2]), lo)
    if T.is_const(off) and T.is_const(ln):
        return not 0 <= T.cval(off) < T.cval(ln)
    for i in e['loops']:
        l = r.I.loops[i]
        if not isinstance(l['n'], R):
            continue
        a = r.I.linear(off, T.single_atom(l['k']))
        if a is None:
            continue
        c, rest = a
        if T.is_const(c) and T.cval(c) > 0:
            over = T.rsub(T.radd(T.rmul(c, T.rsub(l['n'], ONE)), T.radd(rest, ONE)), ln)    # last element + 1 - length
            if over.den == T.P1 and over.num and all(v > 0 for v in over.num.values()):
                return True
    return False


def extent(r, e, m):
    lo, ln = m[3], m[4]
    idx = e['idx']
    if not (isinstance(lo, R) and isinstance(ln, R) and isinstance(idx, R)):
        return False
    off = T.rsub(T.rsub(idx, m[2][2]), lo)
    if T.is_const(off) and T.is_const(ln):
        return 0 <= T.cval(off) < T.cval(ln)
    for i in e['loops']:
        l = r.I.loops[i]
        if l['n'] is None or not isinstance(l['n'], R):
            continue
        a = r.I.linear(off, T.single_atom(l['k']))
        if a is None:
            continue
        c, rest = a
        if T.is_const(c) and T.is_const(rest) and T.cval(c) > 0 and 0 <= T.cval(rest) < T.cval(c) and T.veq(T.rmul(c, l['n']), ln):
            return True
    return False


@rule('C24', 'device-objects', need=8)
def device_objects(ctx, s0):
    """Objects used on the device are device clones, handed to the construct as device pointers."""
    for q, fn in entries(ctx):
        r = drun(ctx, q, fn)
        s = fair(s0, r)
        done = {}
        for e in r.I.events:
            g = e.get('region')
            if g is None or e['kind'] != 'call' or e.get('obj') is None:
                continue
            for path, o in T.leaves(e['obj']):
                o = o[1] if isinstance(o, tuple) and o and o[0] == 'ptr' else o
                isdev = isinstance(o, tuple) and o[0] == 'obj' and isinstance(o[1], tuple) and o[1][0] == 'dev'
                base = o[1][1] if isdev else o
                nm = base[1] if isinstance(base, tuple) and isinstance(base[1], str) else T.clip(T.show(base), 40)
                sub = '%s.%s' % (q.replace('::', '.'), nm)
                if nm == 'NULL':
                    continue
                given = any(o == l[1] for _, v in g['dev'] if v is not None for _, l in T.leaves(v)
                            if isinstance(l, tuple) and l and l[0] == 'ptr')
                st = 'ok' if isdev and given else ('host' if not isdev else 'clause')
                if done.get(sub, 'ok') == 'ok':
                    done[sub] = st
                    if st != 'ok':
                        done[sub + '!'] = where(e)
        for sub, st in sorted(done.items()):
            if sub.endswith('!'):
                continue
            loc = done.get(sub + '!', r.loc)
            if st == 'ok':
                s.ok(sub)
            elif st == 'host':
                s.bad(sub, loc, 'a host object is used on the device')
            else:
                s.bad(sub, loc, 'a device object is not passed to the construct with is_device_ptr')


# ---------------------------------------------------------------- clones
# extent of the arrays a constructor receives, by position of the parameters
EXTENT = {
    'Asphere': {2: lambda p: p[3]},
    'PolynomialSurface': {0: lambda p: T.rmul(p[5], p[6]),
                          1: lambda p: T.rmul(T.rsub(p[5], ONE), T.rsub(p[6], ONE)),
                          2: lambda p: T.rmul(T.rsub(p[5], ONE), T.rsub(p[6], ONE))},
    'Table': {i: (lambda p: T.rmul(p[8], p[9])) for i in (4, 5, 6, 7)},
    'TableMedium': {0: lambda p: p[2], 1: lambda p: p[2]},
    'ObscPolygon': {0: lambda p: p[2], 1: lambda p: p[2]},
    'Sum': {0: lambda p: p[1]},
    'ObscUnion': {0: lambda p: p[1]},
    'ObscIntersection': {0: lambda p: p[1]},
}


def clone_classes(ctx):
    P = ctx.gpu
    out = []
    for m, fn in sorted(P.defs.items()):
        q = P.qname.get(m, m)
        if q.endswith('::getDevPtr') and m.startswith('_Z'):
            out.append((q.split('::')[-2], fn))
    return out


class Clone:
    def __init__(self, ctx, cls, fn):
        P = ctx.gpu
        self.cls, self.fn = cls, fn
        self.loc = line_of(fn)
        I = self.I = DevInterp(P, dyn={'this': cls})
        cs = [c for c in P.ctor(cls) if params_of(c)] or P.ctor(cls)
        if not cs:
            raise AnalysisBroken('no constructor of ' + cls)
        self.ctor = cs[0]
        st = State()
        _, _, ps = I.run(self.ctor, None, ('obj', 'this'), st)
        self.pvals = [st.env[ps[p['name']]] for p in params_of(self.ctor)]
        st.ret, st.retval = False, None
        self.orig = {k[1]: v for k, v in st.fields.items() if k[0] == 'this'}
        self.null0 = self.orig.get('_devPtr')
        self.omem = {b: list(v) for b, v in st.mem.items()}
        n, u = len(I.events), len(I.unknowns)
        ctx.analysed.add('%s::getDevPtr [BATOID_GPU]' % cls)
        self.ret, self.st, _ = I.run(fn, None, ('obj', 'this'), st)
        self.events = I.events[n:]
        self.unknown = len(I.unknowns) > u
        self.news = [e for e in self.events if e['kind'] == 'new' and e['region'] is not None]


@rule('C24', 'clones', need=17)
def clones(ctx, s0):
    """The device clone of an object is built from all the constructor parameters of the original."""
    for cls, fn in clone_classes(ctx):
        c = ctx.memo(('clone', cls), lambda: Clone(ctx, cls, fn))
        s = Quiet(s0) if c.unknown else s0
        if c.null0 is not None:
            tv = T.truthv(c.null0)
            s.check(tv is False, cls + '.initial', c.loc, 'a new object does not start without a device clone')
        news = [e for e in c.news if e['cls'] == cls]
        if not c.news:
            s.bad(cls + '.built', c.loc, 'no object is created on the device')
            continue
        if len(c.news) != 1 or not news:
            if not news:
                s.bad(cls + '.class', c.loc, 'the device object is a %s' % c.news[0]['cls'])
            else:
                s.und(cls + '.class', c.loc, 'several device objects are created')
            continue
        e = news[0]
        s.check(e['guard'] is True, cls + '.built', where(e), 'not created on every path') if e['guard'] in (True, False) else \
            s.und(cls + '.built', where(e), 'created conditionally')
        ps = params_of(c.ctor)
        ctors = [k for k in ctx.gpu.ctor(cls) if len(params_of(k)) == len(e['args'])]
        if not ctors:
            s.und(cls + '.arguments', where(e), 'constructor not found')
            continue
        I2 = DevInterp(ctx.gpu, dyn={'clone': cls})
        st2 = State()
        args = {i: v for i, v in enumerate(e['args'])}
        I2.run(ctors[0], args, ('obj', 'clone'), st2)
        new = {k[1]: v for k, v in st2.fields.items() if k[0] == 'clone'}
        for f in sorted(set(c.orig) | set(new)):
            if f == '_devPtr':
                continue
            a, b = c.orig.get(f), new.get(f)
            sub = '%s.%s' % (cls, f)
            if a is None or b is None:
                s.und(sub, where(e), 'field not set by the constructor')
                continue
            same_field(ctx, s, c, e, sub, a, b)
        # result and cache
        r = c.ret
        obj = e['obj']
        s.check(T.veq(r, obj), cls + '.returned', c.loc, 'the device clone is not what is returned') if not has_unknown(r) else \
            s.und(cls + '.returned', c.loc, 'result not understood')
        cached = c.st.fields.get(('this', '_devPtr'))
        s.check(cached is not None and T.veq(cached, obj), cls + '.kept', c.loc, 'the device clone is not remembered')
        for m in e['region']['plain']:
            if m[0] in ('to', 'alloc'):
                s.bad(cls + '.pointer', where(e), 'the device pointer is not copied back (map(%s: %s))' % m)


def has_unknown(v):
    return isinstance(v, (V, R)) and any('unk' in T._FLAGS[a] for a in T.all_atoms(v))


def same_field(ctx, s, c, e, sub, a, b):
    isp = lambda v: isinstance(v, tuple) and v and v[0] == 'ptr'
    if not isp(a) and not isp(b):
        s.same(sub, where(e), b, a)
        return
    if not isp(a) or not isp(b):
        s.bad(sub, where(e), 'the clone holds %s where the original holds %s' % (T.clip(T.show(b), 60), T.clip(T.show(a), 60)))
        return
    # owned array computed by the constructor from its arguments
    if isinstance(a[1], tuple) and a[1][0] == 'new' and isinstance(b[1], tuple) and b[1][0] == 'new' and a[1] == b[1]:
        s.ok(sub)
        return
    pos = next((i for i, p in enumerate(c.pvals) if T.veq(p, a)), None)
    if isinstance(a[1], tuple) and a[1][0] == 'obj':
        # another native object
        want = ('ptr', ('obj', ('dev', a[1])), ZERO)
        if not T.veq(b, want):
            pt = pos is not None and qual(params_of(c.ctor)[pos]).count('*') == 2
            if not pt:
                s.bad(sub, where(e), 'the clone refers to %s and not to the device clone of %s' %
                      (T.clip(T.show(b), 60), T.clip(T.show(a), 60)))
                return
        else:
            given = any(T.veq(v, want) for _, v in e['region']['dev'] if v is not None)
            s.check(given, sub, where(e), 'the device clone is not passed to the construct with is_device_ptr')
            return
    ext = EXTENT.get(c.cls, {}).get(pos)
    if ext is None:
        s.und(sub, where(e), 'array of unknown extent')
        return
    n = ext(c.pvals)
    pointers = qual(params_of(c.ctor)[pos]).count('*') == 2
    if not pointers and not T.veq(a, b):
        s.bad(sub, where(e), 'the clone uses another array than the original (%s, not %s)' % (T.clip(T.show(b), 60), T.clip(T.show(a), 60)))
        return
    evs = c.events
    ent = [(x, m) for x in evs if x['kind'] == 'enter' and evs.index(x) < evs.index(e) for m in x['maps']
           if isp(m[2]) and m[2][1] == b[1]]
    if not ent:
        s.bad(sub, where(e), 'the array is not copied to the device before the clone is built')
        return
    x, m = ent[-1]
    if m[0] not in ('to', 'tofrom'):
        s.bad(sub, where(x), 'the array is %s on the device, not copied' % m[0])
        return
    if not (isinstance(m[3], R) and not m[3].num and T.veq(m[2], b)):
        s.bad(sub, where(x), 'only a part of the array is copied')
        return
    if m[4] is None or not T.veq(m[4], n):
        if m[4] is not None and isinstance(m[4], R) and not has_unknown(m[4]):
            s.bad(sub, where(x), '%s elements are copied, not %s' % (T.clip(T.show(m[4]), 60), T.clip(T.show(n), 60)))
        else:
            s.und(sub, where(x), 'extent not understood')
        return
    if pointers:
        mem = x['mem'].get(b[1], [])
        al = [w for w in mem if w[0] == 'all']
        if not mem:
            s.bad(sub, where(x), 'the array copied to the device does not hold device pointers')
            return
        if len(mem) != 1 or not al:
            s.und(sub, where(x), 'contents of the pointer array not understood')
            return
        _, k, trip, f, val = al[0]
        want = ('ptr', ('obj', ('dev', ('obj', ('elem', a[1], k)))), ZERO)
        if not T.veq(trip, n) or not T.req(f, k):
            s.bad(sub, where(x), 'not every element of the pointer array is set')
            return
        s.check(T.veq(val, want), sub, where(x), 'element k of the array is %s, not the device clone of element k' % T.clip(T.show(val), 80))
        return
    s.ok(sub)


# ---------------------------------------------------------------- Python access
from .pyvals import Arr, Tup, Ref, MISSING   # noqa: E402
from .py import interp, done, loc, vec, coordsys   # noqa: E402
from .rules_frames import thing   # noqa: E402
from .rules_trace import FIELDS   # noqa: E402

META = ('shape', 'size', 'dtype', 'ndim', 'ctypes', 'flags', 'nbytes', 'itemsize', 'strides')
BLANK = ('numpy.empty_like', 'numpy.zeros_like', 'numpy.ones_like', 'len')


def stale_atoms(ip, v, depth=0, seen=None):
    """names of ray quantities whose possibly outdated host copy the value is made from"""
    seen = seen if seen is not None else set()
    out = set()

    def term(x):
        for _, l in T.leaves(x):
            go(l)
        if isinstance(x, V):
            for path, _ in T.leaves(x):
                for a, _ in path:
                    atoms(a)

    def atoms(a):
        if ('a', a) in seen:
            return
        seen.add(('a', a))
        n, args = T.ATOMS[a][0], T.ATOMS[a][1]
        if n == 'var':
            m = re.match(r'stale\.(\w+)$', str(args[0]))
            if m:
                out.add(m.group(1))
            return
        if n == 'attr' and len(args) == 2 and args[1] in META:
            return
        if n in BLANK or n == 'numpy.full_like':
            for x in args[1:]:
                go(x)
            return
        for x in args:
            go(x)

    def go(x):
        if isinstance(x, V):
            return term(x)
        if isinstance(x, R):
            for a in own_atoms(x):
                atoms(a)
            return
        if isinstance(x, Ref):
            if ('o', x.id) in seen:
                return
            seen.add(('o', x.id))
            o = ip.obj(x)
            for f in list(getattr(o, 'fields', {}).values()):
                go(f)
            for f in list(getattr(o, 'items', None) or ()):
                go(f)
            return
        if isinstance(x, Arr):
            for y in x.sub_values():
                go(y)
            return
        if isinstance(x, (tuple, list)):
            for y in x:
                go(y)
            return
        if hasattr(x, 'sub_values'):
            for y in x.sub_values():
                go(y)
        elif hasattr(x, 'items') and not callable(x.items):
            for y in x.items:
                go(y)
    go(v)
    return out


def own_atoms(x):
    out = set()
    for p in (x.num, x.den):
        for mono in p:
            for a in mono:
                out.add(a[0] if isinstance(a, tuple) else a)
    return out


def synced_rays(ip, nm):
    r = ip.instance('RayVector', {'_' + q: thing('stale.' + q) for q in FIELDS}, False)
    f = ip.wr(r).fields
    f['coordSys'] = coordsys(ip, 'a')
    f['_rv'] = thing(nm + '._rv')

    def sync(ip_, recv, a, k):
        i = T.single_atom(recv) if isinstance(recv, R) else None
        if i is not None and T.ATOMS[i][0] == 'attr' and T.veq(T.ATOMS[i][1][0], thing(nm + '._rv')):
            q = T.ATOMS[i][1][1]
            if q in FIELDS:
                ip_.wr(r).fields['_' + q] = thing('now.' + q)
        return None
    ip.hooks['*.syncToHost'] = sync
    ip.hooks['*.syncToDevice'] = lambda ip_, recv, a, k: None
    return r


def unchanged(ctx):
    """Quantities native code never changes: their host copy cannot be outdated."""
    out = set(FIELDS)
    for q, fn in entries(ctx):
        r = drun(ctx, q, fn)
        for e in r.I.events:
            if e['kind'] != 'store':
                continue
            dv = e.get('dv')
            if dv is None:
                continue
            # a value of the same quantity at the same ray (of the bundle the new one was copied from) changes nothing
            keep = {T.atom('load', (('f', ('f', o, short(dv)), 'data'), e['idx'])) for o in {owner(d) for d in r.I.touched}} if isinstance(e['idx'], R) else ()
            if not any(T.veq(e['value'], x) for x in keep):
                out.discard(short(dv))
    return out


@rule('C24', 'python-access', need=20)
def python_access(ctx, s):
    """Whatever Python code is given of a bundle is made from the values native code left."""
    const = unchanged(ctx)
    ci = ctx.py.cls('RayVector')
    props = ['r', 'v', 'k', 'kx', 'ky', 'kz', 'omega'] + list(FIELDS)
    for q in props:
        ip = interp(ctx)
        r = synced_rays(ip, 'rv')
        where = loc(ctx, 'RayVector', q)
        v = ip.toplevel(lambda: ip.getattr(r, q))
        report(s, ip, const, 'RayVector.' + q, where, v)
        done(ctx, ip)
    calls = {'__len__': [], 'copy': [], '__repr__': [], '__hash__': [], '_hash': [], '__getstate__': [],
             'positionAtTime': [T.var('t')], 'propagate': [T.var('t')], 'phase': [vec('r'), T.var('t')], 'amplitude': [vec('r'), T.var('t')],
             'sumAmplitude': [vec('r'), T.var('t')], 'toCoordSys': None, '__getitem__': [thing('idx')]}
    for m in sorted(calls):
        if ci.find(m) is None:
            continue
        ip = interp(ctx)
        r = synced_rays(ip, 'rv')
        a = calls[m]
        if a is None:
            a = [coordsys(ip, 'b')]
        v = ip.toplevel(lambda: ip.call_method(r, m, *a))
        if v is r:
            v = None
        report(s, ip, const, 'RayVector.' + m, loc(ctx, 'RayVector', m), v)
        done(ctx, ip)
    # joining and pickling
    ip = interp(ctx)
    r = synced_rays(ip, 'rv')
    f = ip.function('rayVector', 'concatenateRayVectors')
    v = ip.toplevel(lambda: ip.call(f, [ip.mklist([r]) if hasattr(ip, 'mklist') else Tup([r])], {}))
    report(s, ip, const, 'concatenateRayVectors', loc(ctx, 'concatenateRayVectors'), v)
    # a bundle whose native object was never made has nothing to fetch
    for m in ('copy',):
        ip = interp(ctx)
        r = synced_rays(ip, 'rv')
        del ip.wr(r).fields['_rv']
        v = ip.toplevel(lambda: ip.call_method(r, m))
        n = [q for q in FIELDS if isinstance(v, Ref) and ip.obj(v).fields.get('_' + q, MISSING) is not MISSING]
        if len(n) == len(FIELDS):
            s.ok('RayVector.%s unused' % m)
        else:
            s.und('RayVector.%s unused' % m, loc(ctx, 'RayVector', m), 'result not understood')


def report(s, ip, const, subj, where, v):
    bad = stale_atoms(ip, v) - const if v is not None else set()
    if bad:
        s.bad(subj, where, 'made from the host copy of %s without bringing it up to date' % ', '.join(sorted(bad)))
    elif isinstance(v, (R, V)) and any('unk' in T._FLAGS[a] for a in T.all_atoms(v)):
        s.und(subj, where, 'result not understood')
    else:
        s.ok(subj, where)


@rule('C24', 'columns-to-device', need=2)
def columns_to_device(ctx, s):
    """Synchronising a bundle with the device, in either direction, covers each of its quantities."""
    ci = ctx.py.cls('RayVector')
    for m, nm in (('_syncToDevice', 'syncToDevice'), ('_syncToHost', 'syncToHost')):
        if ci.find(m) is None:
            continue
        ip = interp(ctx)
        r = synced_rays(ip, 'rv')
        seen = set()
        other = []

        def sync(ip_, recv, a, k):
            i = T.single_atom(recv) if isinstance(recv, R) else None
            q = T.ATOMS[i][1][1] if i is not None and T.ATOMS[i][0] == 'attr' and T.veq(T.ATOMS[i][1][0], thing('rv._rv')) else None
            if q in FIELDS:
                seen.add(q)
            else:
                other.append(q)
            return None
        ip.hooks['*.' + nm] = sync
        ip.toplevel(lambda: ip.call_method(r, m))
        done(ctx, ip)
        left = sorted(set(FIELDS) - seen)
        if not left:
            s.ok('RayVector.' + m, loc(ctx, 'RayVector', m))
        elif other or not seen:
            s.und('RayVector.' + m, loc(ctx, 'RayVector', m))
        else:
            s.bad('RayVector.' + m, loc(ctx, 'RayVector', m), 'does not synchronise ' + ', '.join(left))
