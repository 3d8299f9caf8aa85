"""Rules over the per-ray C++ kernels (src/batoid.cpp, src/rayVector.cpp)."""
from fractions import Fraction
from . import terms as T
from .terms import V, R, ZERO, ONE
from .core import rule
from .cpp import kernel, Kernel, Run, FIELDS, BOOL, buf
from .cfront import AnalysisBroken, line_of, params_of
from .cinterp import qual

add, sub, mul, div, neg = T.vadd, T.vsub, T.vmul, T.vdiv, T.vneg
c = T.const
SURFACE_KERNELS = ['intersect', 'reflect', 'refract', 'rSplit', 'refractScreen']
ALL_KERNELS = SURFACE_KERNELS + ['applyForwardTransform', 'applyReverseTransform', 'obscure']


def el(name, i):
    return T.atom('load', (('obj', name), c(i)))


def idx(K):
    """an arbitrary ray index"""
    if not hasattr(K, '_k'):
        K._k = T.fresh_idx('ray')
    return K._k


def local_in(K, rv):
    """Ray position / velocity expressed in the surface frame."""
    k = idx(K)
    p = [sub(K.inp(rv, f, k), el('dr', i)) for i, f in enumerate('xyz')]
    v = [K.inp(rv, f, k) for f in ('vx', 'vy', 'vz')]
    m = [el('drot', i) for i in range(9)]
    rot = lambda a: [add(add(mul(a[0], m[j]), mul(a[1], m[3 + j])), mul(a[2], m[6 + j])) for j in range(3)]
    return rot(p), rot(v)


def tti(K):
    """The timeToIntersect atoms queried by the kernel (bool atom id, out atom)."""
    rv = K.rvs[0]
    found = {}
    for f in FIELDS:
        for r in K.rvs:
            v = K.final(r, f, idx(K))
            for a in T.all_atoms(v):
                if T.ATOMS[a][0] == 'Surface::timeToIntersect':
                    found[a] = T.ATOMS[a][1]
    return found


def spec_tti(K, rv):
    P, Vv = local_in(K, rv)
    surf = K.param('surface')
    args = (surf, *P, *Vv, ZERO, K.param('niter'))
    ok = T.bool_atom('Surface::timeToIntersect', *args)
    dt = T.atom('Surface::timeToIntersect#6', args)
    return P, Vv, ok, dt


def dot(a, b):
    return add(add(mul(a[0], b[0]), mul(a[1], b[1])), mul(a[2], b[2]))


def normal_at(surf, x, y):
    u = ('undef',)
    return [T.atom('Surface::normal#%d' % i, (surf, x, y, u, u, u)) for i in (2, 3, 4)]


def unit_normal_second(got, want, path=()):
    """Compare again using n.n == 1 for the queried normals."""
    subm = {}
    for v in (got, want):
        for a in T.all_atoms(v):
            n, ar = T.ATOMS[a]
            if n == 'Surface::normal#4':
                nx = T.atom('Surface::normal#2', ar)
                ny = T.atom('Surface::normal#3', ar)
                subm[a] = T.sqrt(T.rsub(T.rsub(ONE, T.rmul(nx, nx)), T.rmul(ny, ny)))
    if not subm:
        return 'no'
    if path:
        g = cond_of(path)
        got, want = T.ite(g, got, False), T.ite(g, want, False)
    return T.compare(T.vsubst(got, subm), T.vsubst(want, subm))


def cond_of(path):
    g = True
    for a, b in path:
        x = T.bool_atom_v(a)
        g = T.vand(g, x if b else T.vnot(x))
    return g


def point(K, rv):
    P, Vv, ok, dt = spec_tti(K, rv)
    Q = [add(P[i], mul(Vv[i], dt)) for i in range(3)]
    t = add(K.inp(rv, 't', idx(K)), dt)
    return P, Vv, ok, dt, Q, t


def alive_success(K, rv):
    P, Vv, ok, dt, Q, t = point(K, rv)
    return T.vand(T.vnot(K.inp(rv, 'failed', idx(K))), ok)


# --------------------------------------------------------------- C01 failed rays
@rule('C01', 'failed-untouched', need=57)
def failed_untouched(ctx, s):
    """A ray that enters a surface interaction already failed leaves it bit for bit unchanged."""
    for name in SURFACE_KERNELS:
        K = kernel(ctx, name)
        k = idx(K)
        fin = K.inp('rv', 'failed', k)
        for f in FIELDS:
            s.same('%s.%s' % (name, f), K.loc, K.final('rv', f, k), K.inp('rv', f, k), assume=fin)


@rule('C01', 'failed-implies-vignetted', need=9)
def failed_vig(ctx, s):
    for name in ALL_KERNELS:
        K = kernel(ctx, name)
        k = idx(K)
        inv = T.vor(T.vnot(K.inp('rv', 'failed', k)), K.inp('rv', 'vignetted', k))
        for rv in K.rvs:
            out = T.vor(T.vnot(K.final(rv, 'failed', k)), K.final(rv, 'vignetted', k))
            # the split copy starts as a copy of rv
            if rv != K.rvs[0]:
                subm = {}
                for f in FIELDS:
                    a, b = K.inp(rv, f, k), K.inp(K.rvs[0], f, k)
                    subm[a.c if isinstance(a, V) else T.single_atom(a)] = b
                out = T.vsubst(out, subm)
            s.holds('%s[%s]' % (name, rv), K.loc, T.vor(T.vnot(inv), out), 'a failed ray is not marked vignetted')


@rule('C01', 'failed-sticky', need=9)
def failed_sticky(ctx, s):
    for name in ALL_KERNELS:
        K = kernel(ctx, name)
        k = idx(K)
        for rv in K.rvs:
            inp = K.inp(rv, 'failed', k)
            src = K.inp(K.rvs[0], 'failed', k)
            fin = K.final(rv, 'failed', k)
            if rv != K.rvs[0]:          # the split copy starts as a copy of rv
                fin, inp = T.vsubst(fin, {inp.c: src}), src
            s.holds('%s[%s]' % (name, rv), K.loc, T.vor(T.vnot(inp), fin),
                    'a failed flag is cleared')


@rule('C01', 'miss-marks-failed', need=6)
def miss_fails(ctx, s):
    """A ray that does not intersect the surface is marked failed and vignetted."""
    for name in SURFACE_KERNELS:
        K = kernel(ctx, name)
        k = idx(K)
        P, Vv, ok, dt = spec_tti(K, 'rv')
        for rv in K.rvs:
            out = T.vand(K.final(rv, 'failed', k), K.final(rv, 'vignetted', k))
            miss = T.vand(T.vnot(ok), T.vnot(K.inp('rv', 'failed', k)))
            s.holds('%s[%s]' % (name, rv), K.loc, T.vor(T.vnot(miss), out), 'a ray that misses is not marked failed+vignetted')


@rule('C01', 'hit-not-failed', need=6)
def hit_ok(ctx, s):
    """A ray is not failed by an interaction that succeeded (refraction: unless totally reflected)."""
    for name in SURFACE_KERNELS:
        K = kernel(ctx, name)
        k = idx(K)
        for rv in K.rvs:
            if name in ('refract', 'rSplit') and rv == 'rv':
                tir = spec_refract(K)[2]
                want = T.vor(K.inp('rv', 'failed', k), tir)
                wantv = T.vor(K.inp('rv', 'vignetted', k), tir)
            elif rv == 'rv':
                want, wantv = K.inp('rv', 'failed', k), K.inp('rv', 'vignetted', k)
            else:
                want, wantv = K.inp('rv', 'failed', k), K.inp('rv', 'vignetted', k)
            a = alive_success(K, 'rv')
            s.same('%s[%s].failed' % (name, rv), K.loc, K.final(rv, 'failed', k), want, assume=a, second=refine(a))
            s.same('%s[%s].vignetted' % (name, rv), K.loc, K.final(rv, 'vignetted', k), wantv, assume=a, second=refine(a))


def refine(assume):
    return lambda g, w: unit_normal_second(T.ite(assume, g, False), T.ite(assume, w, False))


# ------------------------------------------------------------- C02 ray independence
@rule('C02', 'per-ray-access', need=20)
def per_ray(ctx, s):
    """Inside a parallel loop every access to a per-ray buffer is at that iteration's own element."""
    for K in all_parallel(ctx):
        for l in K.loops:
            if not l['omp'] or l['events'] is None:
                continue
            ki = T.single_atom(l['k'])
            nm = K.qname
            stores = [e for e in l['events'] if e['kind'] == 'store']
            bad = l.get('carried')
            if any(e['kind'] == 'wildstore' for e in l['events']):
                s.und(nm + '.stores', line_of(l['node']), 'store through an untracked pointer')
            bases = set(map(_hash, (e['base'] for e in stores)))
            if bad:
                for b in bad:
                    own = K.I.__class__ and b and b[0] == 'local'
                    if own and declared_inside(K, l, b):
                        continue
                    s.bad('%s.%s' % (nm, T.show(b)), line_of(l['node']),
                          'an iteration touches elements of %s that another iteration writes' % T.show(b))
            else:
                s.ok(nm + '.buffers', line_of(l['node']))
            for e in stores:
                if isinstance(e['idx'], R) and ki not in T.all_atoms(e['idx']) and not \
                        (isinstance(e['base'], tuple) and e['base'][0] in ('local', 'new')):
                    s.bad('%s.%s' % (nm, T.show(e['base'])), line_of(e['node']),
                          'every iteration writes the same element %s' % T.show(e['idx']))


def _hash(b):
    return str(b)


def declared_inside(K, l, b):
    did = b[-1]
    from .cinterp import walk
    return any(x.get('id') == did for x in walk(l['node']))


@rule('C02', 'no-shared-scalars', need=20)
def no_shared(ctx, s):
    """No variable that outlives an iteration is written inside a parallel loop unless it is a reduction."""
    import re
    for K in all_parallel(ctx):
        for l in K.loops:
            if not l['omp'] or l['events'] is None:
                continue
            red = set()
            for m in re.finditer(r'(reduction|private|firstprivate|lastprivate)\s*\(([^)]*)\)', l['omp']):
                txt = m.group(2).split(':')[-1]
                red |= {x.strip() for x in txt.split(',')}
            names = {}
            bad = False
            iv = loop_var(l['node'])
            for p in l['shared']:
                if p[0] != 'e':
                    if p[0] == 'f':
                        s.bad('%s.%s' % (K.qname, p[1][1]), line_of(l['node']), 'object state written inside a parallel loop')
                        bad = True
                    continue
                did = p[1][1]
                if did == iv:
                    continue
                nm = var_name(K, did)
                if nm in red:
                    continue
                s.bad('%s.%s' % (K.qname, nm), line_of(l['node']),
                      'variable %s is written by every iteration of the parallel loop and is not a reduction' % nm)
                bad = True
            if not bad:
                s.ok(K.qname, line_of(l['node']))


def loop_var(n):
    f = n
    init = (f.get('inner') or [None])[0]
    if init and init.get('kind') == 'DeclStmt':
        return init['inner'][0].get('id')
    if init and init.get('inner'):
        r = init['inner'][0]
        if r.get('kind') == 'DeclRefExpr':
            return r['referencedDecl']['id']
    return None


def var_name(K, did):
    for u in K.P.units:
        d = u.by_id.get(did)
        if d is not None:
            return d.get('name')
    return '?'


@rule('C02', 'covers-every-ray', need=15)
def covers(ctx, s):
    """Each parallel loop visits every element exactly once."""
    for K in all_parallel(ctx):
        for l in K.loops:
            if not l['omp'] or l['events'] is None:
                continue
            n = l['n']
            if n is None:
                s.und(K.qname, line_of(l['node']), 'trip count not derived')
                continue
            sizes = [K.params_value('size'), K.params_value('n')] + [T.atom('field', (('obj', r), 'size')) for r in
                                                                     ['this', 'rv', 'lhs'] + list(getattr(K, 'rvs', []))]
            sizes = [x for x in sizes if isinstance(x, R)]
            if not any(T.req(n, x) for x in sizes):
                # a grid loop may run over a product or one dimension
                if is_grid(K, n):
                    s.ok(K.qname, line_of(l['node']))
                else:
                    s.bad(K.qname, line_of(l['node']), 'the loop runs %s times, not once per element' % T.show(n))
                continue
            ki = T.single_atom(l['k'])
            okk = True
            for e in l['events']:
                if e['kind'] != 'store' or (isinstance(e['base'], tuple) and e['base'][0] in ('local', 'new')):
                    continue
                if len(e['loops']) > 1 and e['loops'][0] != l['id']:
                    continue
                i = e['idx']
                k = l['k']
                alts = [k, T.rsub(T.rsub(n, ONE), k), T.rmul(c(2), k), T.radd(T.rmul(c(2), k), ONE)]
                if not isinstance(i, R) or not any(T.req(i, a) for a in alts):
                    okk = False
                    s.bad('%s.%s' % (K.qname, T.show(e['base'])), line_of(e['node']),
                          'iteration k writes element %s' % T.show(i))
                    break
            if okk:
                s.ok(K.qname, line_of(l['node']))


def is_grid(K, n):
    ints = [v for k2 in K.params for v in [K.param(k2)] if isinstance(v, R)]
    return any(T.req(n, a) for a in ints) or any(T.req(n, T.rmul(a, b)) for a in ints for b in ints)


@rule('C02', 'no-other-parallel-state', need=1)
def no_state(ctx, s):
    """No function uses mutable static or global storage."""
    from .cinterp import walk
    n = 0
    bad = False
    for m, fn in list(ctx.src.defs.items()):
        for x in walk(fn):
            if x.get('kind') == 'VarDecl':
                n += 1
                if x.get('storageClass') == 'static' and 'const' not in qual(x) and not x.get('constexpr') and not x.get('tls'):
                    bad = True
                    s.bad('%s.%s' % (ctx.src.qname.get(m), x.get('name')), line_of(x),
                          'mutable function-local static: results depend on call history and thread interleaving')
    for u in ctx.src.units:
        for d in u.docs:
            for x in namespace_vars(d):
                n += 1
                if 'const' not in qual(x) and not x.get('constexpr'):
                    bad = True
                    s.bad('global %s' % x.get('name'), line_of(x), 'mutable global variable')
    if not bad:
        s.ok('static and global variables (%d declarations)' % n)


def namespace_vars(d):
    k = d.get('kind')
    if k == 'VarDecl':
        yield d
    elif k in ('NamespaceDecl', 'LinkageSpecDecl'):
        for x in d.get('inner', ()):
            yield from namespace_vars(x)


@rule('C02', 'const-methods-pure', need=30)
def const_pure(ctx, s):
    """The per-ray virtuals (sag, normal, getN, contains, ...) write nothing but their out-parameters."""
    for base in ('Surface', 'Medium', 'Obscuration', 'Coating'):
        for cls in [base] + ctx.src.subclasses(base):
            for m, fn in list(ctx.src.defs.items()):
                if fn.get('_clsname') != cls or fn['kind'] != 'CXXMethodDecl' or fn.get('name') in (
                        'getDevPtr', 'freeDevPtr') or fn.get('name', '').startswith('operator'):
                    continue
                q = '%s::%s' % (cls, fn['name'])
                r = ctx.memo(('method', m), lambda: Run(ctx, q, fn=fn, this=('obj', 'this')))
                bad = [e for e in r.events if e['kind'] == 'setfield' and e['obj'] == ('obj', 'this')]
                bad += [e for e in r.events if e['kind'] == 'store' and isinstance(e['base'], tuple) and
                        e['base'][0] == 'f' and e['base'][1] == 'this']
                if bad and fn.get('name') != 'containsGrid':
                    s.bad(q, line_of(bad[0]['node']), 'writes shared object state')
                else:
                    s.ok(q, r.loc)


class PK(Run):
    def __init__(self, ctx, q):
        if '::' in q:
            Run.__init__(self, ctx, q, this=('obj', 'this'))
        else:
            Run.__init__(self, ctx, q)

    def is_ray(self, b):
        return False


def all_parallel(ctx):
    def build():
        out = []
        from .cinterp import walk
        for m, fn in list(ctx.src.defs.items()):
            if any(x.get('kind', '').startswith('OMP') and x['kind'].endswith('Directive') for x in walk(fn)):
                q = ctx.src.qname[m]
                if q.startswith('DualView') or q.endswith(('getDevPtr', 'freeDevPtr')):
                    continue
                K = kernel(ctx, q) if q in ALL_KERNELS else PK(ctx, q)
                K.qname = q
                K.params_value = lambda nm, K=K: K.param(nm) if nm in K.params else None
                out.append(K)
        if len(out) < 10:
            raise AnalysisBroken('only %d functions with parallel loops found' % len(out))
        return out
    return ctx.memo('parallel', build)


# ---------------------------------------------------------- C03 vignetting monotone
@rule('C03', 'vignetted-monotone', need=9)
def vig_mono(ctx, s):
    for name in ALL_KERNELS:
        K = kernel(ctx, name)
        k = idx(K)
        for rv in K.rvs:
            if rv != K.rvs[0]:
                inp = K.inp(K.rvs[0], 'vignetted', k)
                fin = K.final(rv, 'vignetted', k)
                sub_ = {K.inp(rv, 'vignetted', k).c: inp}
                fin = T.vsubst(fin, sub_)
            else:
                inp, fin = K.inp(rv, 'vignetted', k), K.final(rv, 'vignetted', k)
            s.holds('%s[%s]' % (name, rv), K.loc, T.vor(T.vnot(inp), fin), 'a vignetted ray becomes unvignetted')


@rule('C03', 'obscure-exact', need=11)
def obscure_exact(ctx, s):
    """Obscuring vignettes exactly the rays inside the obscuration and changes nothing else."""
    K = kernel(ctx, 'obscure')
    k = idx(K)
    inside = T.bool_atom('Obscuration::contains', K.param('obsc'), K.inp('rv', 'x', k), K.inp('rv', 'y', k))
    for f in FIELDS:
        want = K.inp('rv', f, k)
        if f == 'vignetted':
            want = T.vor(want, inside)
        s.same('obscure.' + f, K.loc, K.final('rv', f, k), want)


# --------------------------------------------------------- C04 coordinate transforms
@rule('C04', 'kernel-frame', need=5)
def kernel_frame(ctx, s):
    """Each surface interaction works on the ray expressed in the surface's frame."""
    for name in SURFACE_KERNELS:
        K = kernel(ctx, name)
        P, Vv = local_in(K, 'rv')
        found = tti(K)
        if not found:
            s.und(name, K.loc, 'no intersection query found')
            continue
        for a, args in found.items():
            good = True
            for i, w in enumerate(P + Vv):
                if not T.leaf_eq(args[1 + i], w):
                    good = False
                    und = T.has_unknown(args[1 + i])
                    (s.und if und else s.bad)('%s.%s' % (name, ('x', 'y', 'z', 'vx', 'vy', 'vz')[i]), K.loc,
                          'surface is queried at %s, expected %s' % (T.clip(T.show(args[1 + i])), T.clip(T.show(w))))
            if good:
                s.ok(name, K.loc)


def mat(i, j):
    return el('drot', 3 * i + j)


@rule('C04', 'transform-arrays', need=12)
def transform_arrays(ctx, s):
    k = T.fresh_idx('ray')
    for name, fwd in (('applyForwardTransformArrays', True), ('applyReverseTransformArrays', False)):
        r = ctx.memo(('run', name), lambda: Run(ctx, name))
        p = [T.atom('load', (('param', f), k)) for f in 'xyz']
        want = xform(p, fwd, True)
        for f, w in zip('xyz', want):
            s.same('%s.%s' % (name, f), r.loc, r.I.mem_get(('param', f), k, 'double', r.st, None), w)
    for name, fwd in (('applyForwardTransform', True), ('applyReverseTransform', False)):
        K = kernel(ctx, name)
        k = idx(K)
        p = [K.inp('rv', f, k) for f in 'xyz']
        v = [K.inp('rv', f, k) for f in ('vx', 'vy', 'vz')]
        want = dict(zip(('x', 'y', 'z', 'vx', 'vy', 'vz'), xform(p, fwd, True) + xform(v, fwd, False)))
        for f in FIELDS:
            s.same('%s.%s' % (name, f), K.loc, K.final('rv', f, k), want.get(f, K.inp('rv', f, k)))


def xform(p, fwd, shift):
    """forward: R^T (p - dr);  reverse: R p + dr, R stored row by row."""
    d = [el('dr', i) for i in range(3)]
    if fwd:
        q = [sub(a, b) for a, b in zip(p, d)] if shift else p
        return [add(add(mul(q[0], mat(0, j)), mul(q[1], mat(1, j))), mul(q[2], mat(2, j))) for j in range(3)]
    out = [add(add(mul(p[0], mat(j, 0)), mul(p[1], mat(j, 1))), mul(p[2], mat(j, 2))) for j in range(3)]
    return [add(a, b) for a, b in zip(out, d)] if shift else out


# ------------------------------------------------------------------ C05 optics laws
def spec_refract(K):
    """(velocity after refraction, n1-normalised incidence cosine (<=0), total reflection)."""
    P, Vv, ok, dt, Q, t = point(K, 'rv')
    n = normal_at(K.param('surface'), Q[0], Q[1])
    n1 = div(ONE, T.sqrt(dot(Vv, Vv)))
    nv = [mul(a, n1) for a in Vv]
    al = dot(nv, n)
    flip = T.gt0(al)
    N = [T.ite(flip, neg(a), a) for a in n]
    al2 = T.ite(flip, neg(al), al)
    w = K.inp('rv', 'wavelength', idx(K))
    n2 = T.atom('Medium::getN', (K.param('m2'), w))
    eta = div(n1, n2)
    ss = mul(mul(eta, eta), sub(ONE, mul(al2, al2)))
    tir = T.vlt(ONE, ss)
    nf = add(mul(eta, al2), T.vfn('sqrt', sub(ONE, ss)))
    out = [div(sub(mul(eta, nv[i]), mul(nf, N[i])), n2) for i in range(3)]
    return out, al2, tir


def spec_reflect(K):
    P, Vv, ok, dt, Q, t = point(K, 'rv')
    n = normal_at(K.param('surface'), Q[0], Q[1])
    a = dot(Vv, n)
    out = [sub(Vv[i], mul(mul(c(2), a), n[i])) for i in range(3)]
    n1 = div(ONE, T.sqrt(dot(Vv, Vv)))
    return out, mul(a, n1)


@rule('C05', 'snell', need=6)
def snell(ctx, s):
    """Refraction: eta v + (cos) n with speed 1/n2 on the transmitted side."""
    for name in ('refract', 'rSplit'):
        K = kernel(ctx, name)
        k = idx(K)
        out, al, tir = spec_refract(K)
        a = alive_success(K, 'rv')
        b = T.vand(a, T.vnot(tir))
        for f, w in zip(('vx', 'vy', 'vz'), out):
            s.same('%s.%s' % (name, f), K.loc, K.final('rv', f, k), w, assume=b, second=refine(b))


@rule('C05', 'total-reflection', need=2)
def tir_rule(ctx, s):
    """Beyond the critical angle the refracted ray is failed and carries no velocity."""
    for name in ('refract', 'rSplit'):
        K = kernel(ctx, name)
        k = idx(K)
        out, al, tir = spec_refract(K)
        a = T.vand(alive_success(K, 'rv'), tir)
        got = T.vand(K.final('rv', 'failed', k), K.final('rv', 'vignetted', k))
        s.same(name, K.loc, got, True, assume=a, second=refine(a))


@rule('C05', 'reflection', need=6)
def reflection(ctx, s):
    for name, rv in (('reflect', 'rv'), ('rSplit', 'rvSplit')):
        K = kernel(ctx, name)
        k = idx(K)
        out, al = spec_reflect(K)
        a = alive_success(K, 'rv')
        for f, w in zip(('vx', 'vy', 'vz'), out):
            s.same('%s[%s].%s' % (name, rv, f), K.loc, K.final(rv, f, k), w, assume=a, second=refine(a))


@rule('C05', 'intersect-keeps-direction', need=3)
def int_dir(ctx, s):
    K = kernel(ctx, 'intersect')
    k = idx(K)
    P, Vv, ok, dt, Q, t = point(K, 'rv')
    a = alive_success(K, 'rv')
    for f, w in zip(('vx', 'vy', 'vz'), Vv):
        s.same('intersect.' + f, K.loc, K.final('rv', f, k), w, assume=a)


@rule('C05', 'screen', need=4)
def screen(ctx, s):
    """A phase screen preserves the speed, adds the tangential gradient to the direction cosines and the OPD to t."""
    K = kernel(ctx, 'refractScreen')
    k = idx(K)
    P, Vv, ok, dt, Q, t = point(K, 'rv')
    a = alive_success(K, 'rv')
    scr = K.param('screen')
    s.same('refractScreen.t', K.loc, K.final('rv', 't', k), add(t, T.atom('Surface::sag', (scr, Q[0], Q[1]))), assume=a)
    n = normal_at(K.param('surface'), Q[0], Q[1])
    nrm = T.sqrt(dot(Vv, Vv))
    u = [div(a_, nrm) for a_ in Vv]
    # the gradient of the screen, as the kernel asked for it: grad() or normal()
    ud = ('undef',)
    g = [T.atom('Surface::grad#%d' % i, (scr, Q[0], Q[1], ud, ud)) for i in (2, 3)]
    gids = {T.single_atom(x) for x in g}
    isn = False
    if not any(gids & T.all_atoms(K.final('rv', f, k)) for f in ('vx', 'vy', 'vz')):
        sn = normal_at(scr, Q[0], Q[1])
        isn = T.bool_atom('isnan', sn[0])
        g = [T.ite(isn, T.atom('nan'), neg(div(sn[i], sn[2]))) for i in (0, 1)]
    cos3 = dot(u, n)
    # tangential part of the direction and of the gradient
    ut = [sub(u[i], mul(cos3, n[i])) for i in range(3)]
    G = [g[0], g[1], ZERO]
    Gn = dot(G, n)
    Gt = [sub(G[i], mul(Gn, n[i])) for i in range(3)]
    back = T.vlt(cos3, ZERO)
    tang = [add(ut[i], Gt[i]) for i in range(3)]
    root = T.vfn('sqrt', sub(ONE, dot(tang, tang)))
    c3 = T.ite(back, neg(root), root)
    want = [mul(nrm, add(tang[i], mul(c3, n[i]))) for i in range(3)]
    b = T.vand(a, T.vnot(isn))
    for f, w in zip(('vx', 'vy', 'vz'), want):
        s.same('refractScreen.' + f, K.loc, K.final('rv', f, k), w, assume=b, second=refine(b))


# -------------------------------------------------------------------- C06 flux
@rule('C06', 'flux', need=6)
def flux(ctx, s):
    for name, meth, mult in (('intersect', 'getTransmit', True), ('reflect', 'getReflect', True),
                             ('refract', 'getTransmit', True)):
        K = kernel(ctx, name)
        k = idx(K)
        a = alive_success(K, 'rv')
        fin = K.inp('rv', 'flux', k)
        coat = K.param('coating')
        has = T.truthv(coat)
        if name == 'reflect':
            al = spec_reflect(K)[1]
            alts = [al, neg(al)]
        elif name == 'refract':
            al = spec_refract(K)[1]
            alts = [al, neg(al)]
        else:
            P, Vv, ok, dt, Q, t = point(K, 'rv')
            n = normal_at(K.param('surface'), Q[0], Q[1])
            n1 = div(ONE, T.sqrt(dot(Vv, Vv)))
            al = mul(dot(Vv, n), n1)
            alts = [al, neg(al)]
        co = ('obj', 'coating')
        w = K.inp('rv', 'wavelength', k)
        got = K.final('rv', 'flux', k)
        # exactly one factor, the right coefficient, any incidence-angle convention of the coating
        fac = {}
        for x in T.all_atoms(got):
            if T.ATOMS[x][0].startswith('Coating::'):
                fac[x] = T.ATOMS[x]
        none = T.vand(a, T.vnot(has))
        s.same(name + '.uncoated', K.loc, got, fin, assume=none)
        coated = T.vand(a, has)
        bad = None
        for path, l in T.leaves(T.ite(coated, got, ('skip',))):
            if l == ('skip',):
                continue
            q = T.rdiv(l, fin) if isinstance(l, R) else None
            i = T.single_atom(q) if q is not None else None
            okk = i is not None and T.ATOMS[i][0] == 'Coating::' + meth and T.leaf_eq(T.ATOMS[i][1][1], w)
            if okk:
                th = T.ATOMS[i][1][2]
                okk = any(T.compare(th, x, path) is None or unit_normal_second(th, x, path) is None for x in alts)
            if not okk:
                bad = (path, l)
                break
        if bad is None:
            s.ok(name + '.coated', K.loc)
        elif T.has_unknown(bad[1]):
            s.und(name + '.coated', K.loc, T.show(bad[1]))
        else:
            s.bad(name + '.coated', K.loc, 'flux becomes %s, expected flux * %s(wavelength, cos incidence)' % (
                T.clip(T.show(bad[1])), meth))


@rule('C06', 'split-flux', need=3)
def split_flux(ctx, s):
    """Splitting sends flux*reflectance one way and flux*transmittance the other, from the same coefficients."""
    K = kernel(ctx, 'rSplit')
    k = idx(K)
    a = alive_success(K, 'rv')
    f0 = K.inp('rv', 'flux', k)
    w = K.inp('rv', 'wavelength', k)
    al = spec_refract(K)[1]
    args = {}
    for rv, i, nm in (('rv', 3, 'getTransmit'), ('rvSplit', 2, 'getReflect')):
        got = K.final(rv, 'flux', k)
        bad = None
        for path, l in T.leaves(T.ite(a, got, ('skip',))):
            if l == ('skip',):
                continue
            q = T.rdiv(l, f0) if isinstance(l, R) else None
            at = T.single_atom(q) if q is not None else None
            okk = at is not None and (T.ATOMS[at][0] == 'Coating::getCoefs#%d' % i or T.ATOMS[at][0] == 'Coating::' + nm)
            if okk:
                ar = T.ATOMS[at][1]
                okk = T.leaf_eq(ar[1], w)
                args.setdefault(rv, []).append((path, ar[2]))
            if not okk:
                bad = l
                break
        if bad is None:
            s.ok('rSplit[%s].flux' % rv, K.loc)
        elif T.has_unknown(bad):
            s.und('rSplit[%s].flux' % rv, K.loc, T.show(bad))
        else:
            s.bad('rSplit[%s].flux' % rv, K.loc, 'flux becomes %s, expected flux times the coating %s coefficient' % (
                T.clip(T.show(bad)), {'rv': 'transmission', 'rvSplit': 'reflection'}[rv]))
    s.same('rSplit[rvSplit].wavelength', K.loc, K.final('rvSplit', 'wavelength', k), w, assume=a)
    for f in ('vignetted', 'failed'):
        s.same('rSplit[rvSplit].' + f, K.loc, K.final('rvSplit', f, k), K.inp('rv', f, k), assume=a)


@rule('C06', 'wavelength-invariant', need=8)
def wave_inv(ctx, s):
    """No interaction changes a wavelength; interactions without a coating never touch the flux."""
    for name in ALL_KERNELS:
        K = kernel(ctx, name)
        k = idx(K)
        s.same(name + '.wavelength', K.loc, K.final('rv', 'wavelength', k), K.inp('rv', 'wavelength', k))
        if name in ('refractScreen', 'applyForwardTransform', 'applyReverseTransform', 'obscure'):
            s.same(name + '.flux', K.loc, K.final('rv', 'flux', k), K.inp('rv', 'flux', k))


@rule('C06', 'simple-coating', need=4)
def simple_coating(ctx, s):
    for cls in ctx.src.subclasses('Coating'):
        r = Run(ctx, cls + '::getCoefs', ctor=cls)
        a, b = r.param(list(r.params)[2]), r.param(list(r.params)[3])
        rr = Run(ctx, cls + '::getReflect', ctor=cls)
        tt = Run(ctx, cls + '::getTransmit', ctor=cls)
        s.same(cls + '.reflect', rr.loc, rr.ret, a)
        s.same(cls + '.transmit', tt.loc, tt.ret, b)
        if cls == 'SimpleCoating':
            s.same(cls + '.reflectivity', r.loc, a, T.var('reflectivity'))
            s.same(cls + '.transmissivity', r.loc, b, T.var('transmissivity'))


# --------------------------------------------------------- C08 propagation to the surface
@rule('C08', 'propagate-to-hit', need=24)
def propagate(ctx, s):
    """After a successful interaction the ray sits at r + v*dt, at time t + dt, for the dt the surface reported."""
    for name in SURFACE_KERNELS:
        K = kernel(ctx, name)
        k = idx(K)
        P, Vv, ok, dt, Q, t = point(K, 'rv')
        a = alive_success(K, 'rv')
        for rv in K.rvs:
            for f, w in zip('xyz', Q):
                s.same('%s[%s].%s' % (name, rv, f), K.loc, K.final(rv, f, k), w, assume=a)
            if name != 'refractScreen':
                s.same('%s[%s].t' % (name, rv), K.loc, K.final(rv, 't', k), t, assume=a)


# ----------------------------------------------------------------- C25 phase etc.
def member(ctx, name):
    return ctx.memo(('rvm', name), lambda: Run(ctx, 'RayVector::' + name, this=('obj', 'this')))


def rin(f, k):
    base = ('f', ('f', 'this', f), 'data')
    return T.bool_atom('load', base, k) if f in BOOL else T.atom('load', (base, k))


@rule('C25', 'position-at-time', need=3)
def pos_at_time(ctx, s):
    r = member(ctx, 'positionAtTime')
    k = T.fresh_idx('ray')
    ps = list(r.params)
    t0 = r.param(ps[0])
    for f, o in zip('xyz', ps[1:4]):
        want = add(rin(f, k), mul(rin('v' + f, k), sub(t0, rin('t', k))))
        s.same('positionAtTime.' + f, r.loc, r.I.mem_get(r.param(o)[1], k, 'double', r.st, None), want)
    for f in FIELDS:
        got = r.I.mem_get(('f', ('f', 'this', f), 'data'), k, 'bool' if f in BOOL else 'double', r.st, None)
        s.same('positionAtTime.unchanged.' + f, r.loc, got, rin(f, k))


@rule('C25', 'propagate', need=11)
def prop_rule(ctx, s):
    r = member(ctx, 'propagateInPlace')
    k = T.fresh_idx('ray')
    t0 = r.param(list(r.params)[0])
    for f in FIELDS:
        want = rin(f, k)
        if f in 'xyz':
            want = add(want, mul(rin('v' + f, k), sub(t0, rin('t', k))))
        if f == 't':
            want = t0
        got = r.I.mem_get(('f', ('f', 'this', f), 'data'), k, 'bool' if f in BOOL else 'double', r.st, None)
        s.same('propagateInPlace.' + f, r.loc, got, want)


def spec_phase(r, k):
    ps = list(r.params)
    q = [r.param(p) for p in ps[:4]]
    v = [rin(f, k) for f in ('vx', 'vy', 'vz')]
    d = [sub(q[i], rin(f, k)) for i, f in enumerate('xyz')]
    ph = sub(div(dot(d, v), dot(v, v)), sub(q[3], rin('t', k)))
    return mul(div(mul(c(2), T.atom('pi', (), ('pos',))), rin('wavelength', k)), ph)


@rule('C25', 'phase', need=1)
def phase(ctx, s):
    r = member(ctx, 'phase')
    k = T.fresh_idx('ray')
    out = r.param(list(r.params)[4])
    s.same('phase', r.loc, r.I.mem_get(out[1], k, 'double', r.st, None), spec_phase(r, k))


@rule('C25', 'amplitude', need=2)
def amplitude(ctx, s):
    r = member(ctx, 'amplitude')
    k = T.fresh_idx('ray')
    out = r.param(list(r.params)[4])
    ph = spec_phase(r, k)
    two = T.rmul(c(2), k)
    s.same('amplitude.real', r.loc, r.I.mem_get(out[1], two, 'double', r.st, None), T.vfn('cos', ph))
    s.same('amplitude.imag', r.loc, r.I.mem_get(out[1], T.radd(two, ONE), 'double', r.st, None), T.vfn('sin', ph))


@rule('C25', 'sum-amplitude', need=2)
def sum_amplitude(ctx, s):
    r = member(ctx, 'sumAmplitude')
    k = T.fresh_idx('ray')
    ph = spec_phase(r, k)
    ign = r.param(list(r.params)[4])
    use = T.vand(T.vnot(rin('failed', k)), T.vnot(T.vand(ign, rin('vignetted', k))))
    n = T.atom('field', (('obj', 'this'), 'size'))
    from .cinterp import Rec
    if not isinstance(r.ret, Rec):
        s.und('sumAmplitude', r.loc, 'return value not understood')
        return
    for part, fnn in (('real', 'cos'), ('imag', 'sin')):
        want = T.mksum(k, n, T.ite(use, mul(T.vfn(fnn, ph), rin('flux', k)), ZERO))
        s.same('sumAmplitude.' + part, r.loc, r.ret.get(part), want)
