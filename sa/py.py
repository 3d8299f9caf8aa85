"""Helpers shared by the rules over the Python sources."""
import re
from fractions import Fraction
from . import terms as T
from .terms import R, V, ZERO, ONE, const, atom, var
from .pyvals import Arr, Tup, Ref, Str, Sym, mkstr, MISSING, Cls, Fn, Ext, Bound
from .pyinterp import Interp, Dead, Budget, NoVerdict
from .cfront import AnalysisBroken
from . import npcalls


def interp(ctx, **kw):
    ip = Interp(ctx.py, **kw)
    ip.frame = ip.alloc('frame')
    ip.mod = ctx.py.mods['__init__']
    return ip


def done(ctx, ip):
    ctx.analysed |= {'batoid.' + q for q in ip.analysed}


def loc(ctx, cls, meth=None):
    """file:line of a class member or module function."""
    try:
        if meth is None:
            for m in ctx.py.mods.values():
                v = m.names.get(cls)
                if v and v[0] == 'func':
                    return 'batoid/%s.py:%d' % (m.name, v[1].lineno)
            return ''
        ci = ctx.py.cls(cls)
        r = ci.find(meth)
        return 'batoid/%s.py:%d' % (r[0].mod.name, r[1].lineno) if r else 'batoid/%s.py:%d' % (ci.mod.name, ci.node.lineno)
    except AnalysisBroken:
        return ''


def vec(name, n=3):
    return Arr((n,), {(i,): var('%s.%d' % (name, i)) for i in range(n)})


def pts(name, n=3):
    """A batch of n-vectors: one generic row of a length-N array."""
    return Arr(('N', n), {(i,): var('%s.%d' % (name, i)) for i in range(n)})


def col(name):
    """A length-N array, by its generic element."""
    return Arr(('N',), {(): var(name)})


def rotm(name):
    return Arr((3, 3), {(i, j): var('%s.r%d%d' % (name, i, j)) for i in range(3) for j in range(3)})


def mm(a, b):
    n = a.dims[1]
    if len(b.dims) == 1:
        out = {}
        for i in range(a.dims[0]):
            s = ZERO
            for k in range(n):
                s = T.vadd(s, T.vmul(a.items[(i, k)], b.items[(k,)]))
            out[(i,)] = s
        return Arr((a.dims[0],), out)
    out = {}
    for i in range(a.dims[0]):
        for j in range(b.dims[1]):
            s = ZERO
            for k in range(n):
                s = T.vadd(s, T.vmul(a.items[(i, k)], b.items[(k, j)]))
            out[(i, j)] = s
    return Arr((a.dims[0], b.dims[1]), out)


def tr(a):
    return Arr(a.dims[::-1], {k[::-1]: v for k, v in a.items.items()})


def vadd(a, b):
    return Arr(a.dims, {k: T.vadd(a.items[k], b.items[k]) for k in a.items})


def vsub(a, b):
    return Arr(a.dims, {k: T.vsub(a.items[k], b.items[k]) for k in a.items})


def like(a, dims):
    """The same generic items under other (batch) dims."""
    return Arr(dims, dict(a.items))


def cayley(a, b, c):
    """A rational rotation matrix."""
    w = 1
    n = w * w + a * a + b * b + c * c
    q = [[w * w + a * a - b * b - c * c, 2 * (a * b - w * c), 2 * (a * c + w * b)],
         [2 * (a * b + w * c), w * w - a * a + b * b - c * c, 2 * (b * c - w * a)],
         [2 * (a * c - w * b), 2 * (b * c + w * a), w * w - a * a - b * b + c * c]]
    return [[Fraction(x, n) for x in r] for r in q]


ROT = re.compile(r'^(.*)\.r([0-2])([0-2])$')


def rotation_samples(*vals):
    """Substitutions giving every symbolic rotation a concrete rational value."""
    ids = {}
    for v in vals:
        for a in T.val_atoms(v) if not hasattr(v, 'sub_values') else [x for q in v.sub_values() for x in T.all_atoms(q)]:
            for d in T.deep_atoms(a):
                n, args = T.ATOMS[d]
                if n == 'var':
                    m = ROT.match(args[0])
                    if m:
                        ids.setdefault(m.group(1), {})[(int(m.group(2)), int(m.group(3)))] = d
    if not ids:
        return
    for s in range(3):
        sub = {}
        for i, n in enumerate(sorted(ids)):
            h = Fraction(2 + 3 * i + 5 * s, 7 + i + s)
            m = cayley(h, Fraction(-3 + i + 2 * s, 4 + s), Fraction(5 - 2 * i + s, 6 + i))
            for (p, q), d in ids[n].items():
                sub[d] = const(m[p][q])
        yield sub
    if not any(gated(v) for v in vals):
        return
    # the guards may single out special frames: identity, rotation about one axis, coinciding rotations
    names = sorted(ids)
    gen = {n: cayley(Fraction(2 + 3 * i, 7 + i), Fraction(-3 + i, 4), Fraction(5 - 2 * i, 6 + i)) for i, n in enumerate(names)}
    one = cayley(0, 0, 0)
    cases = [{n: one for n in names}]
    for n in names:
        cases.append({**gen, n: one})
        cases.append({**gen, n: cayley(0, 0, Fraction(3, 5))})
        cases.append({**gen, n: cayley(Fraction(2, 7), 0, 0)})
        cases.append({**gen, n: cayley(1, 0, 0)})
        cases += [{**gen, n: gen[m]} for m in names if m < n]
        cases += [{**gen, n: [list(r) for r in zip(*gen[m])]} for m in names if m < n]
    if len(names) > 2:
        cases.append({n: gen[names[0]] for n in names})
    for c in cases:
        yield {d: const(c[n][p][q]) for n in names for (p, q), d in ids[n].items()}


def gated(v):
    return isinstance(v, V) or hasattr(v, 'sub_values') and any(gated(q) for q in v.sub_values())


def rot_equal(a, b):
    """Equality modulo orthogonality of the symbolic rotations (identity testing on rational rotations)."""
    n = 0
    for sub in rotation_samples(a, b):
        n += 1
        m = T.compare(T.vsubst(a, sub), T.vsubst(b, sub))
        if m is not None:
            return m
    return None if n else T.Mismatch((), a, b)


# value-preserving wrappers of arrays
SAMEV = {'numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.copy', 'numpy.asfarray', 'numpy.float64', 'numpy.asanyarray',
         '.copy', '.astype', 'numpy.require', 'numpy.broadcast_to'}
PLAIN = {'var', 'let', 'attr', 'glob', 'glob@import', 'glob@def', 'gt0', 'eq0', 'eq', 'sqrt', 'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'exp', 'log', 'hypot',
         'abs', 'pow', 'atan2', 'dim', 'len', 'truthy', 'hasattr', 'isinstance', 'none', 'isnone', 'index', 'floor', 'pi', 'cbrt',
         'startswith', 'strlen', 'floordiv', 'mod', 'array_equal', 'in', 'haskey'}


def same_values(v, memo=None):
    """Strip value-preserving array wrappers (copies, dtype and layout conversions)."""
    memo = {} if memo is None else memo
    if isinstance(v, R):
        i = T.single_atom(v)
        while i is not None and T.ATOMS[i][0] in SAMEV and T.ATOMS[i][1]:
            x = T.ATOMS[i][1][0]
            if isinstance(x, bool):
                return x
            i = T.single_atom(x) if isinstance(x, R) else None
        sub = {}
        for i in T.all_atoms(v):
            r = strip_atom(i, memo)
            if r is not None:
                sub[i] = r
        return T.rsubst(v, sub) if sub else v
    if isinstance(v, V):
        return T.vsubst(v, {i: r for i in T.val_atoms(v) for r in [strip_atom(i, memo)] if r is not None})
    if hasattr(v, 'rebuild'):
        return v.rebuild([same_values(x, memo) for x in v.sub_values()])
    return v


def strip_atom(i, memo):
    if i in memo:
        return memo[i]
    memo[i] = None
    name, args = T.ATOMS[i]
    r = None
    if name in SAMEV and args:
        r = same_values(args[0], memo)
        if isinstance(r, Tup) or r is None or isinstance(r, (str, bool)):
            r = None
    elif isinstance(name, str) and args and name not in ('var',):
        na = tuple(same_values(x, memo) if isinstance(x, (R, V)) or hasattr(x, 'rebuild') else x for x in args)
        if any(x is not y and not T.veq(x, y) for x, y in zip(na, args)):
            if name == 'gt0' and isinstance(na[0], R):
                r = T.gt0(na[0])
            elif name == 'eq0' and isinstance(na[0], R):
                r = T.eq0(na[0])
            else:
                r = T.atom(name, na, tuple(T._FLAGS[i]))
    memo[i] = r
    return r


def unclear(v, known=()):
    """An atom in v whose meaning the domain does not know, if any."""
    for a in (T.all_atoms(v) if not hasattr(v, 'sub_values') else [x for q in v.sub_values() for x in (T.all_atoms(q) if isinstance(q, (R, V)) or hasattr(q, 'sub_values') else ())]):
        n = T.ATOMS[a][0]
        if not isinstance(n, str) or n in PLAIN or n in known or n.startswith(('native:', 'py:')) or any(n.startswith(k[:-1]) for k in known if k.endswith('*')):
            continue
        return n
    return None


def judge(s, subject, where, got, want, second=None, known=(), guard=True, norm=True, msg=''):
    """got == want wherever guard holds; only differences between understood values are violations."""
    if got is None and want is not None and got is not want:
        pass
    if norm:
        got, want = same_values(got), same_values(want)
    if guard is not True:
        if guard is False:
            s.und(subject, where, 'unreachable')
            return
        got, want = T.ite(guard, got, False), T.ite(guard, want, False)
    m = T.compare(got, want)
    if m is None:
        s.ok(subject, where)
        return
    if second is not None and not m.undecided:
        m2 = second(got, want)
        if m2 is None:
            s.ok(subject, where)
            return
    u = None
    if not m.undecided:
        for q in (m.a, m.b) + tuple(T.bool_atom_v(c) for c, _ in m.path):
            if isinstance(q, (R, V)) or hasattr(q, 'sub_values'):
                u = u or unclear(q, known)
    if m.undecided or u:
        s.und(subject, where, ('meaning of %s unknown: ' % u if u else '') + m.text())
    else:
        s.bad(subject, where, (msg + ': ' if msg else '') + m.text())


def coordsys(ip, name, rot=True):
    ci = ip.prog.cls('CoordSys')
    return ip.construct(ci, [vec(name + '.o'), rotm(name)], {})


def field(ip, ref, name):
    return ip.getattr(ref, name)


class CS:
    """The mathematical coordinate system behind an abstract one."""

    def __init__(self, name):
        self.o, self.r = vec(name + '.o'), rotm(name)
