"""Value-number domain of the analyser.

A value is a gated term: a decision diagram over interned boolean atoms whose
leaves are
  * R      - a rational function (numerator / denominator polynomials with exact
             rational coefficients) over interned numeric atoms,
  * bool   - True / False,
  * any other hashable (strings, pointers, tuples, None) compared with ==.

Numeric atoms are uninterpreted applications of a function to values; two
applications get the same number exactly when name and arguments are equal in
this domain (congruence closure), so the domain is a global value numbering
with the ring axioms, sqrt(a)^2 = a and a few other built-in laws.
"""
import cmath
import math
import random
import zlib
from fractions import Fraction
from math import isqrt

ATOMS = []          # id -> (name, args)
_BUCKET = {}        # (name, nargs) -> [ids]
_FLAGS = {}         # id -> set of flags: 'unk', 'pos', 'nonneg', 'int'
_INTERN = {}        # structural key -> id


def reset():
    ATOMS.clear(); _BUCKET.clear(); _FLAGS.clear(); _INTERN.clear(); _FP.clear(); _AMP.clear(); _BAD.clear(); _DEEP.clear()


# ---------------------------------------------------------------- polynomials
# mono: tuple of (atom, exp) sorted by atom; poly: dict mono -> Fraction
P0 = {}
P1 = {(): 1}


def qd(a, b):
    """exact quotient, an int when possible"""
    r = Fraction(a) / b
    return r.numerator if r.denominator == 1 else r


def pconst(c):
    c = Fraction(c)
    if c.denominator == 1:
        c = c.numerator
    return {(): c} if c else {}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def mdiv(a, b):
    """a / b as monomials or None."""
    d = dict(a)
    for k, e in b:
        x = d.get(k, 0) - e
        if x < 0:
            return None
        if x:
            d[k] = x
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


def _key(m):
    # a monomial order compatible with multiplication: graded lex
    return (sum(e for _, e in m), tuple((-a, e) for a, e in m))


def plead(p):
    # graded lex with explicit comparison (needs to be multiplicative)
    best = None
    for m in p:
        if best is None or _mless(best, m):
            best = m
    return best


def _mless(a, b):
    da = sum(e for _, e in a); db = sum(e for _, e in b)
    if da != db:
        return da < db
    A = dict(a); B = dict(b)
    for k in sorted(set(A) | set(B)):
        ea, eb = A.get(k, 0), B.get(k, 0)
        if ea != eb:
            return ea < eb
    return False


def pdivexact(p, q):
    """p / q if exact, else None."""
    if not q:
        return None
    if len(q) > 1 and (len(q) > len(p) or len(p) > 60):
        return None
    lm = plead(q); lc = q[lm]
    r = dict(p); out = {}
    steps = 0
    while r:
        steps += 1
        if steps > 400:
            return None
        m = plead(r)
        d = mdiv(m, lm)
        if d is None:
            return None
        c = qd(r[m], lc)
        out[d] = out.get(d, 0) + c
        r = padd(r, {mmul(d, k): c * v for k, v in q.items()}, -1)
    return out


def pcontent(p):
    """(positive rational content, common monomial)"""
    if not p:
        return 1, ()
    from math import gcd
    num = 0; den = 1
    for c in p.values():
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {k: min(e, d[k]) for k, e in common.items() if k in d}
        if not common:
            break
    return qd(num, den), tuple(sorted((common or {}).items()))


class R:
    """A rational function num/den."""
    __slots__ = ('num', 'den', '_fp', '_key')

    def __init__(self, num, den=P1):
        self.num, self.den = num, den
        self._fp = self._key = None

    def __repr__(self):
        return show(self)


def _needs_reduce(p):
    for m in p:
        for a, e in m:
            if e >= 2 and ATOMS[a][0] in ('sqrt', 'abs', 'cos'):
                return True
    return False


def _reduce(p):
    """Replace sqrt(a)^2 by a etc.  Returns R."""
    plain = {}
    acc = None
    for m, c in p.items():
        hit = None
        for a, e in m:
            if e >= 2 and ATOMS[a][0] in ('sqrt', 'abs', 'cos'):
                hit = (a, e)
                break
        if not hit:
            plain[m] = plain.get(m, 0) + c
            if not plain[m]:
                del plain[m]
            continue
        a, e = hit
        rest = tuple((k, x) for k, x in m if k != a)
        if e % 2:
            rest = mmul(rest, ((a, 1),))
        arg = ATOMS[a][1][0]
        if ATOMS[a][0] == 'sqrt':
            sq = arg
        elif ATOMS[a][0] == 'abs':
            sq = rmul(arg, arg)
        else:
            s = fn('sin', arg)
            sq = rsub(ONE, rmul(s, s))
        t = mk({rest: c}, P1)
        for _ in range(e // 2):
            t = rmul(t, sq)
        acc = t if acc is None else radd(acc, t)
    base = mk(plain, P1) if not _needs_reduce(plain) else _reduce(plain)
    return base if acc is None else radd(base, acc)


def mk(num, den=P1):
    if not num:
        return R({}, P1)
    if _needs_reduce(num) or _needs_reduce(den):
        a = _reduce(num) if _needs_reduce(num) else R(num, P1)
        b = _reduce(den) if _needs_reduce(den) else R(den, P1)
        return mk(pmul(a.num, b.den), pmul(a.den, b.num))
    if den == P1:
        return R(num, P1)
    if not den:
        return R(atom('div0', (R(num, P1),)).num, P1)
    cd, md = pcontent(den)
    # cancel common monomial
    cn, mn = pcontent(num)
    A = dict(mn); common = tuple(sorted((k, min(e, A[k])) for k, e in md if k in A))
    if common:
        num = {mdiv(m, common): c for m, c in num.items()}
        den = {mdiv(m, common): c for m, c in den.items()}
    if len(den) > 1:
        q = pdivexact(num, den)
        if q is not None:
            return R(q, P1)
        if len(num) > 1:
            q = pdivexact(den, num)
            if q is not None:
                num, den = P1, q
        # rationalise a single linear sqrt denominator? (left alone)
    lc = den[plead(den)]
    if lc != 1:
        num = {m: qd(c, lc) for m, c in num.items()}
        den = {m: qd(c, lc) for m, c in den.items()}
    if den == P1:
        return R(num, P1)
    # move a lone sqrt in a monomial denominator to canonical place
    if len(den) == 1:
        m = next(iter(den))
        for a, e in m:
            if ATOMS[a][0] == 'sqrt' and e == 1:
                arg = ATOMS[a][1][0]
                # 1/sqrt(p) = sqrt(p)/p
                rest = tuple((k, x) for k, x in m if k != a)
                return rdiv(mk(pmul(num, {((a, 1),): 1}), {rest: 1}), arg)
    return R(num, den)


def const(c):
    return R(pconst(c), P1)


ZERO = R({}, P1)
ONE = R(P1, P1)


def radd(a, b):
    if not a.num:
        return b
    if not b.num:
        return a
    if a.den == b.den:
        return mk(padd(a.num, b.num), a.den)
    # common denominators
    if len(a.num) * len(b.den) + len(b.num) * len(a.den) > 2 * CAP:
        return radd(named(a), named(b)) if min(len(a.num) + len(a.den), len(b.num) + len(b.den)) >= 8 else \
            radd(named(a), b) if len(a.num) + len(a.den) >= 8 else radd(a, named(b))
    if a.den == P1:
        return mk(padd(pmul(a.num, b.den), b.num), b.den)
    if b.den == P1:
        return mk(padd(a.num, pmul(b.num, a.den)), a.den)
    if len(a.num) * len(b.den) + len(b.num) * len(a.den) > CAP or len(a.den) * len(b.den) > CAP:
        a, b = named(a), named(b)
        return radd(a, b)
    q = pdivexact(b.den, a.den)
    if q is not None:
        return mk(padd(pmul(a.num, q), b.num), b.den)
    q = pdivexact(a.den, b.den)
    if q is not None:
        return mk(padd(a.num, pmul(b.num, q)), a.den)
    return mk(padd(pmul(a.num, b.den), pmul(b.num, a.den)), pmul(a.den, b.den))


def rneg(a):
    return R({m: -c for m, c in a.num.items()}, a.den)


def rsub(a, b):
    return radd(a, rneg(b))


def _fit(a, b):
    if len(a.num) * len(b.num) > CAP or len(a.den) * len(b.den) > CAP:
        if len(a.num) + len(a.den) >= len(b.num) + len(b.den):
            a = named(a)
        else:
            b = named(b)
        if len(a.num) * len(b.num) > CAP or len(a.den) * len(b.den) > CAP:
            a, b = named(a), named(b)
    return a, b


def rmul(a, b):
    if not a.num or not b.num:
        return ZERO
    a, b = _fit(a, b)
    return mk(pmul(a.num, b.num), pmul(a.den, b.den))


def rdiv(a, b):
    if not b.num:
        return R(atom('div0', (a,)).num, P1)
    if not a.num:
        return ZERO
    if len(a.num) * len(b.den) > CAP or len(a.den) * len(b.num) > CAP:
        a, b = named(a), named(b)
    return mk(pmul(a.num, b.den), pmul(a.den, b.num))


def rpow(a, n):
    if n < 0:
        return rdiv(ONE, rpow(a, -n))
    r = ONE
    for _ in range(n):
        r = rmul(r, a)
    return r


def is_const(r):
    return isinstance(r, R) and r.den == P1 and all(m == () for m in r.num)


def cval(r):
    return Fraction(r.num.get((), 0))


def req(a, b):
    if a is b:
        return True
    if a.num == b.num and a.den == b.den:
        return True
    sp = a.den != P1 or b.den != P1 or special(a.num) or special(b.num)
    if not sp:
        return False
    return fp_equal(a, b)



# ------------------------------------------------- fingerprints (hash values)
# Each atom has a value in a NPT-point sample algebra (complex numbers); it is a
# hash for the value numbering: different fingerprints => different values.
# Polynomials over free atoms are compared structurally (exact); terms that use
# sqrt / abs / trigonometric laws or capped products, whose normal form is not
# unique, are compared by fingerprint.
NPT = 20
_FP = {}
_AMP = {}           # atom id -> condition number of its sample values (None: 1)
_BAD = {}           # atom id -> bitmask of sample points outside the real domain
SEED = 0
SPECIAL = ('sqrt', 'abs', 'cos', 'sin', 'let', 'exp', 'ipow', 'arctan', 'arcsin', 'arccos', 'pow', 'arctan2', 'tan')


def _seed(x):
    """Identity of an atom's arguments that does not depend on the order of interning (None: no such)."""
    if isinstance(x, R):
        try:
            return 'R' + ','.join('%.5g' % z.real for z in rfp(x)[:4])
        except (OverflowError, ValueError):
            return None
    if x is None or isinstance(x, (str, int, float)):
        return repr(x)
    if isinstance(x, (tuple, list)):
        ys = [_seed(y) for y in x]
        return None if None in ys else '(%s)' % ','.join(ys)
    return None


def atom_fp(i):
    v = _FP.get(i)
    if v is not None:
        return v
    name, args = ATOMS[i]
    v = None
    bad = 0
    amp = None
    try:
        if args and all(isinstance(a, R) for a in args):
            fs = [rfp(a) for a in args]
            for a in args:
                bad |= rbad(a)
            if name == 'sqrt':
                v = [cmath.sqrt(z) for z in fs[0]]
                for j, z in enumerate(fs[0]):
                    if z.real < 0 or abs(z.imag) > 1e-9 * abs(z):
                        bad |= 1 << j
            elif name == 'abs':
                v = [cmath.sqrt(z * z) for z in fs[0]]
            elif name == 'let':
                v = list(fs[0])
            elif name == 'sin':
                v = [cmath.sin(z) for z in fs[0]]
            elif name == 'cos':
                v = [cmath.cos(z) for z in fs[0]]
            elif name == 'exp':
                v = [cmath.exp(z) for z in fs[0]]
            elif name == 'arctan':
                v = [cmath.atan(z) for z in fs[0]]
            elif name in ('arcsin', 'arccos'):
                v = [(cmath.asin if name == 'arcsin' else cmath.acos)(z) for z in fs[0]]
                for j, z in enumerate(fs[0]):
                    if abs(z.imag) > 1e-9 or abs(z.real) > 1:
                        bad |= 1 << j
            elif name == 'tan':
                v = [cmath.tan(z) for z in fs[0]]
            elif name == 'arctan2':
                v = [complex(math.atan2(y.real, x.real)) for y, x in zip(*fs)]
            elif name in ('ipow', 'pow'):
                v = [a ** b for a, b in zip(*fs)]
            if v is not None and any(len(a.num) > 1 or a.den is not P1 and a.den != P1 for a in args):
                amp = [1.0] * NPT
                for a in args:
                    for z, sc in rfp2(a):
                        for j in range(NPT):
                            if z[j]:
                                amp[j] += sc[j] / abs(z[j]) - 1
        elif name == 'pi':
            v = [complex(math.pi)] * NPT
    except (OverflowError, ZeroDivisionError, ValueError):
        v = None
    if v is None or not all(abs(z) < 1e100 for z in v):
        amp = None
        key = _seed((name,) + tuple(args))
        rng = random.Random((7919 * i + 17 if key is None else zlib.crc32(key.encode())) + 1000003 * SEED)
        fl = _FLAGS[i]
        small = name.endswith(('normal#2', 'normal#3'))    # lateral components of unit normals
        v = []
        for j in range(NPT):
            x = math.exp(rng.uniform(-2.2, 0.5)) if not small else rng.uniform(0.02, 0.3)
            if name.endswith('#small'):
                x = rng.uniform(0.03, 0.4)
            if name.endswith('#wide'):
                x = rng.uniform(1.05, 1.35)
            if not (fl & {'pos', 'nonneg'}) and rng.random() < 0.5:
                x = -x
            v.append(complex(x))
    _FP[i] = v
    _AMP[i] = amp
    _BAD[i] = bad
    return v


def pfp(p):
    """(values, scales) of a polynomial at the sample points."""
    out = [0j] * NPT
    sc = [0.0] * NPT
    for m, c in p.items():
        t = [complex(c)] * NPT
        w = None
        for a, e in m:
            f = atom_fp(a)
            g = _AMP[a]
            if g is not None:
                w = [x - 1 + (1 if w is None else w[j]) for j, x in enumerate(g)]
            if e == 1:
                t = [x * y for x, y in zip(t, f)]
            else:
                t = [x * y ** e for x, y in zip(t, f)]
        for j in range(NPT):
            out[j] += t[j]
            sc[j] += abs(t[j]) if w is None else abs(t[j]) * w[j]
    return out, sc


def rfp2(r):
    if r._fp is None:
        r._fp = pfp(r.num), pfp(r.den)
    return r._fp


def rbad(r):
    rfp2(r)
    bad = 0
    for p in (r.num, r.den):
        for m in p:
            for a, _ in m:
                bad |= _BAD.get(a, 0)
    return bad


def rfp(r):
    (n, _), (d, _) = rfp2(r)
    return [a / b if b else complex(float('inf')) for a, b in zip(n, d)]


FULL = (1 << NPT) - 1


def fp_equal(a, b, mask=FULL, strict=False):
    """Equal at the sample points of `mask` lying in the real domain."""
    (na, sna), (da, sda) = rfp2(a)
    (nb, snb), (db, sdb) = rfp2(b)
    good = mask & ~(rbad(a) | rbad(b))
    if bin(good).count('1') < 3:
        if strict:
            return None
        good = FULL
    for j in range(NPT):
        if not (good >> j) & 1:
            continue
        x, y = na[j] * db[j], nb[j] * da[j]
        s = sna[j] * sdb[j] + snb[j] * sda[j]
        if not (abs(x - y) <= 1e-11 * s):
            return False
    return True


def fp_zero(a):
    (n, sn), _ = rfp2(a)
    good = FULL & ~rbad(a)
    if bin(good).count('1') < 3:
        good = FULL
    return all(abs(n[j]) <= 1e-11 * sn[j] for j in range(NPT) if (good >> j) & 1)


def path_mask(path):
    """Sample points at which every decidable literal of the path holds."""
    mask = FULL
    for c, b in path:
        n, a = ATOMS[c]
        if n == 'gt0' and isinstance(a[0], R):
            f = rfp(a[0])
            m = 0
            for j, z in enumerate(f):
                if (z.real > 0) == b:
                    m |= 1 << j
            mask &= m
    return mask


def special(p):
    for m in p:
        for a, _ in m:
            if ATOMS[a][0] in SPECIAL:
                return True
    return False


CAP = 40


def named(r):
    """r as a single named value (keeps products small)."""
    if len(r.num) + len(r.den) < 8:
        return r
    return atom('let', (r,))


def unlet(r):
    i = single_atom(r)
    while i is not None and ATOMS[i][0] == 'let':
        r = ATOMS[i][1][0]
        i = single_atom(r)
    return r


def skey(x):
    if isinstance(x, R):
        if x._key is None:
            x._key = (frozenset(x.num.items()), frozenset(x.den.items()))
        return x._key
    if isinstance(x, V):
        return ('V', x.c, skey(x.hi), skey(x.lo))
    if isinstance(x, (tuple, list)):
        return tuple(skey(y) for y in x)
    if hasattr(x, 'sub_values'):
        return (type(x).__name__, getattr(x, 'dims', None), getattr(x, 'meta', None)) + tuple(skey(y) for y in x.sub_values())
    if isinstance(x, bool):
        return ('b', x)
    return x


# ---------------------------------------------------------------------- atoms
def leaf_eq(a, b):
    if a is b:
        return True
    if isinstance(a, R) or isinstance(b, R):
        return isinstance(a, R) and isinstance(b, R) and req(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, V) or isinstance(b, V):
        return veq(a, b)
    if type(a) is not type(b):
        return False
    return a == b


def _canon(x):
    """Structural equality decides equality for this argument."""
    if isinstance(x, R):
        return x.den == P1 and not special(x.num)
    if isinstance(x, V):
        return _canon(x.hi) and _canon(x.lo)
    if isinstance(x, (tuple, list)):
        return all(_canon(y) for y in x)
    if hasattr(x, 'sub_values'):
        return all(_canon(y) for y in x.sub_values())
    return True


def atom_id(name, args=(), flags=()):
    args = tuple(args)
    k = (name, skey(args))
    try:
        i = _INTERN.get(k)
    except TypeError:
        i = None
        k = None
    if i is not None:
        return i
    lst = _BUCKET.setdefault((name, len(args)), [])
    canon = k is not None and _canon(args)
    if not canon:
        for i in lst:
            if all(leaf_eq(x, y) for x, y in zip(ATOMS[i][1], args)):
                if k is not None:
                    _INTERN[k] = i
                return i
    i = len(ATOMS)
    ATOMS.append((name, args))
    if not canon:
        lst.append(i)
    _FLAGS[i] = set(flags)
    if k is not None:
        _INTERN[k] = i
    return i


def atom(name, args=(), flags=()):
    return R({((atom_id(name, args, flags), 1),): 1}, P1)


_unk = [0]


def unknown(why, sort='num'):
    _unk[0] += 1
    return atom('unknown', (why, _unk[0]), ('unk',))


def flag(r, *fl):
    a = single_atom(r)
    _FLAGS[a].update(fl)
    return r


def single_atom(r):
    if isinstance(r, R) and r.den == P1 and len(r.num) == 1:
        (m, c), = r.num.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def poly_sign_known(p):
    """+1 / -1 if sign certainly positive / negative, else 0 (zero ignored)."""
    s = None
    for m, c in p.items():
        for a, e in m:
            if e % 2 and not (_FLAGS[a] & {'pos', 'nonneg'} or ATOMS[a][0] in ('sqrt', 'abs', 'exp')):
                return 0
        t = 1 if c > 0 else -1
        if s is None:
            s = t
        elif s != t:
            return 0
    return s or 0


def sqrt(r):
    r = unlet(r)
    if is_const(r):
        c = cval(r)
        if c >= 0:
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
        return atom('sqrt', (r,))
    # pull out even monomial content and known-sign denominators
    num, den = r.num, r.den
    out = ONE
    if den != P1:
        s = poly_sign_known(den)
        if s > 0:
            # sqrt(n/d) = sqrt(n d)/d
            return rdiv(sqrt(mk(pmul(num, den))), R(den, P1))
        # even powers in a monomial denominator: |.|
        cd, md = pcontent(den)
        ev = tuple((a, e - e % 2) for a, e in md if e - e % 2)
        if ev:
            den = {mdiv(m, ev): c for m, c in den.items()}
            for a, e in ev:
                out = rdiv(out, rpow(rabs(R({((a, 1),): 1}, P1)), e // 2))
    cn, mn = pcontent(num)
    ev = tuple((a, e - e % 2) for a, e in mn if e - e % 2)
    if ev:
        num = {mdiv(m, ev): c for m, c in num.items()}
        for a, e in ev:
            out = rmul(out, rpow(rabs(R({((a, 1),): 1}, P1)), e // 2))
    n, d = isqrt(cn.numerator), isqrt(cn.denominator)
    # split the rational content off: cn = k^2 * rest
    k = Fraction(1)
    if n * n == cn.numerator and d * d == cn.denominator:
        k = Fraction(n, d)
    elif d * d == cn.denominator:
        k = Fraction(1, d)
    elif n * n == cn.numerator:
        k = Fraction(n, 1)
    if k != 1:
        num = {m: qd(c, k * k) for m, c in num.items()}
        out = rmul(out, const(k))
    rr = mk(num, den)
    if is_const(rr):
        return rmul(out, sqrt(rr)) if not req(rr, r) else atom('sqrt', (rr,))
    pr = perfect_square(rr)
    if pr is not None:
        return rmul(out, rabs(pr))
    return rmul(out, atom('sqrt', (rr,)))


def perfect_square(r):
    """q with q^2 == r for small polynomials (a+b)^2, or None."""
    if r.den != P1 or not (2 <= len(r.num) <= 6):
        return None
    # candidate: square roots of pure-square terms with signs
    roots = []
    for m, c in r.num.items():
        if all(e % 2 == 0 for _, e in m) and c > 0:
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                roots.append((tuple((a, e // 2) for a, e in m), Fraction(n, d)))
    if not 2 <= len(roots) <= 3:
        return None
    for bits in range(1 << (len(roots) - 1)):
        p = {}
        for i, (m, c) in enumerate(roots):
            s = -1 if i and (bits >> (i - 1)) & 1 else 1
            p[m] = s * c
        q = R(p, P1)
        if pmul(p, p) == r.num or req(rmul(q, q), r):
            return q
    return None


def rabs(r):
    if is_const(r):
        return const(abs(cval(r)))
    if r.den == P1:
        s = poly_sign_known(r.num)
        if s:
            return r if s > 0 else rneg(r)
        if len(r.num) == 1:
            (m, c), = r.num.items()
            out = const(abs(c))
            for a, e in m:
                x = R({((a, 1),): 1}, P1)
                if e % 2 == 0:
                    out = rmul(out, rpow(x, e))
                elif _FLAGS[a] & {'pos', 'nonneg'} or ATOMS[a][0] in ('sqrt', 'abs', 'exp'):
                    out = rmul(out, rpow(x, e))
                else:
                    out = rmul(out, rmul(rpow(x, e - 1), atom('abs', (x,))))
            return out
        if r.num[plead(r.num)] < 0:
            r = rneg(r)
        return atom('abs', (r,))
    return rdiv(rabs(R(r.num, P1)), rabs(R(r.den, P1)))


def ipow(base, e):
    """base ** e with symbolic integer exponent e (R)."""
    if is_const(e) and cval(e).denominator == 1:
        return rpow(base, int(cval(e)))
    if e.den == P1:
        k = e.num.get((), Fraction(0))
        if k and k.denominator == 1:
            rest = R({m: c for m, c in e.num.items() if m != ()}, P1)
            return rmul(ipow(base, rest), rpow(base, int(k)))
        # integer multiplier: b^(2i) = (b^2)^i
        c, _ = pcontent(e.num)
        if c != 1 and c.denominator == 1:
            return ipow(rpow(base, int(c)), R({m: qd(v, c) for m, v in e.num.items()}, P1))
    if is_const(base) and cval(base) in (0, 1):
        return base
    # (a*b)^i = a^i b^i for monomials
    if base.den == P1 and len(base.num) == 1:
        (m, c), = base.num.items()
        if len(m) + (c != 1) > 1 or (m and m[0][1] > 1):
            out = ONE
            if c != 1:
                out = rmul(out, atom('ipow', (const(c), e)))
            for a, x in m:
                t = atom('ipow', (R({((a, 1),): 1}, P1), e))
                out = rmul(out, rpow(t, x))
            return out
    return atom('ipow', (base, e))


def _neg_lead(r):
    return bool(r.num) and r.num[plead(r.num)] < 0


def fn(name, *args):
    """Interpreted/uninterpreted function application on leaves."""
    a = args[0] if args else None
    if name == 'let':
        return a
    if name == 'sqrt':
        return sqrt(a)
    if name in ('abs', 'fabs'):
        return rabs(a)
    if name == 'hypot':
        return sqrt(radd(rmul(a, a), rmul(args[1], args[1])))
    if name in ('sin', 'cos', 'tan', 'arctan', 'arcsin', 'sinc', 'arcsinh') and isinstance(a, R):
        if not a.num:
            return ONE if name in ('cos', 'sinc') else ZERO
        if name == 'tan':
            return rdiv(fn('sin', a), fn('cos', a))
        if name in ('sin', 'cos'):
            t = _trig_of_inverse(name, a)
            if t is not None:
                return t
        if _neg_lead(a):
            v = fn(name, rneg(a))
            return v if name in ('cos', 'sinc') else rneg(v)
        return atom(name, (a,))
    if name == 'pow' and len(args) == 2 and isinstance(a, R):
        e = args[1]
        if is_const(e):
            c = cval(e)
            if c.denominator == 1 and abs(c) <= 12:
                return rpow(a, int(c))
            if c == Fraction(1, 2):
                return sqrt(a)
            if c == Fraction(-1, 2):
                return rdiv(ONE, sqrt(a))
        return atom('pow', (a, e))
    if name == 'exp' and isinstance(a, R) and not a.num:
        return ONE
    if name == 'mod' and len(args) == 2 and isinstance(a, R) and isinstance(args[1], R):
        if is_const(a) and is_const(args[1]) and cval(args[1]):
            return const(cval(a) % cval(args[1]))
        if not a.num or req(a, args[1]):
            return ZERO
    if name in ('floor', 'int', 'trunc', 'ceil', 'round') and len(args) == 1 and isinstance(a, R) and is_const(a):
        c = cval(a)
        if isinstance(c, Fraction):
            return const({'floor': c.__floor__, 'int': c.__trunc__, 'trunc': c.__trunc__, 'ceil': c.__ceil__, 'round': c.__round__}[name]())
    if name in ('floor', 'int', 'trunc', 'ceil', 'round') and isinstance(a, R) and a.den == P1 and all(
            Fraction(c).denominator == 1 and all('int' in _FLAGS[x] for x, _ in m) for m, c in a.num.items()):
        return a
    return atom(name, args)


def _trig_of_inverse(name, a):
    i = single_atom(a)
    if i is None:
        return None
    n, ar = ATOMS[i]
    if n == 'arctan2':
        y, x = ar
        h = fn('hypot', x, y)
        return rdiv(y if name == 'sin' else x, h)
    if n == 'arctan':
        h = sqrt(radd(ONE, rmul(ar[0], ar[0])))
        return rdiv(ar[0] if name == 'sin' else ONE, h)
    if n == 'arcsin':
        if name == 'sin':
            return ar[0]
        return sqrt(rsub(ONE, rmul(ar[0], ar[0])))
    if n == 'arccos':
        if name == 'cos':
            return ar[0]
        return sqrt(rsub(ONE, rmul(ar[0], ar[0])))
    return None


# ------------------------------------------------------------ gated values
class V:
    """Decision node: if bool-atom `c` then hi else lo (never a leaf)."""
    __slots__ = ('c', 'hi', 'lo')

    def __init__(self, c, hi, lo):
        self.c, self.hi, self.lo = c, hi, lo

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return id(self)


def veq(a, b):
    if a is b:
        return True
    if isinstance(a, V) and isinstance(b, V):
        return a.c == b.c and veq(a.hi, b.hi) and veq(a.lo, b.lo)
    if isinstance(a, V) or isinstance(b, V):
        return False
    return leaf_eq(a, b)


def node(c, hi, lo):
    if veq(hi, lo):
        return hi
    return V(c, hi, lo)


def top(*vs):
    return min(v.c for v in vs if isinstance(v, V))


def cof(v, c, b):
    if isinstance(v, V) and v.c == c:
        return v.hi if b else v.lo
    return v


def vmap(f, *vs):
    """Apply f to leaves, distributing over decisions."""
    memo = {}

    def go(vs):
        if not any(isinstance(v, V) for v in vs):
            return f(*vs)
        k = tuple(id(v) for v in vs)
        if k in memo:
            return memo[k][0]
        c = top(*vs)
        r = node(c, go(tuple(cof(v, c, True) for v in vs)), go(tuple(cof(v, c, False) for v in vs)))
        memo[k] = (r, vs)
        return r
    r = go(tuple(vs))
    # leaves computed by f may themselves be V: normalise ordering
    return renorm(r)


def renorm(v):
    if not isinstance(v, V):
        return v
    if _ordered(v, -1):
        return v
    return ite(bool_atom_v(v.c), renorm(v.hi), renorm(v.lo))


def _ordered(v, c):
    if not isinstance(v, V):
        return True
    return v.c > c and _ordered(v.hi, v.c) and _ordered(v.lo, v.c)


def bool_atom_v(i):
    return V(i, True, False)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if not isinstance(c, V):
        c = truth(c)
        return ite(c, a, b)

    memo = {}

    def go(c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        k = (id(c), id(a), id(b))
        if k in memo:
            return memo[k][0]
        t = top(*[x for x in (c, a, b) if isinstance(x, V)])
        r = node(t, go(cof(c, t, True), cof(a, t, True), cof(b, t, True)),
                 go(cof(c, t, False), cof(a, t, False), cof(b, t, False)))
        memo[k] = (r, (c, a, b))
        return r
    return go(c, a, b)


def vnot(a):
    return ite(truthv(a), False, True)


def vand(a, b):
    return ite(truthv(a), truthv(b), False)


def vor(a, b):
    return ite(truthv(a), True, truthv(b))


def truth(x):
    """leaf -> bool value"""
    if isinstance(x, bool):
        return x
    if x is None:
        return False
    if isinstance(x, R):
        return vnot(eq0(x))
    if isinstance(x, str):
        return bool(x)
    if isinstance(x, tuple) and x and x[0] == 'ptr':
        return bool_atom('nonnull', x)
    if hasattr(x, 'truth'):
        return x.truth()
    return bool_atom('truthy', x)


def truthv(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, V):
        if _is_boolean(v):
            return v
        return vmap(truth, v)
    return truth(v)


def _is_boolean(v):
    if isinstance(v, V):
        return _is_boolean(v.hi) and _is_boolean(v.lo)
    return isinstance(v, bool)


def bool_atom(name, *args, flags=()):
    return V(atom_id(name, args, flags), True, False)


def bool_atom_flag(v, f):
    _FLAGS[v.c].add(f)


def _pos_atom(a):
    return bool(_FLAGS[a] & {'pos'})


def gt0(r):
    """Boolean value of r > 0 (real-number semantics, NaN ignored)."""
    if not isinstance(r, R):
        return bool_atom('gt0?', r)
    r = unlet(r)
    if is_const(r):
        return cval(r) > 0
    if (r.den != P1 or special(r.num)) and fp_zero(r):
        return False
    if len(r.num) * len(r.den) > CAP:
        r = rmul(named(R(r.num)), named(R(r.den)))
    p = pmul(r.num, r.den) if r.den != P1 else r.num
    if _needs_reduce(p):
        q = _reduce(p)
        if q.den != P1:
            p = pmul(q.num, q.den)
        else:
            p = q.num
    c, m = pcontent(p)
    drop = tuple((a, e - e % 2 if not _pos_atom(a) else e) for a, e in m
                 if (e - e % 2) or _pos_atom(a))
    if drop:
        p = {mdiv(k, drop): v for k, v in p.items()}
    if c != 1:
        p = {k: qd(v, c) for k, v in p.items()}
    if len(p) == 1 and () in p:
        return p[()] > 0
    if all(c > 0 and all(e % 2 == 0 or _pos_atom(a) for a, e in k) for k, c in p.items()) and any(
            all(_pos_atom(a) for a, _ in k) for k in p):
        return True
    if all(c < 0 and all(e % 2 == 0 or (_FLAGS[a] & {'pos', 'nonneg'}) or ATOMS[a][0] in ('sqrt', 'abs')
                         for a, e in k) for k, c in p.items()):
        return False
    # r - sqrt(q) > 0 with r known positive   <=>  r^2 - q > 0
    sq = [k for k in p if len(k) == 1 and k[0][1] == 1 and ATOMS[k[0][0]][0] == 'sqrt']
    if len(sq) == 1 and all(a != sq[0][0][0] for k in p if k != sq[0] for a, _ in k):
        k0 = sq[0]
        rest = {k: v for k, v in p.items() if k != k0}
        if rest and poly_sign_known(rest) == 1 and p[k0] < 0 or rest and poly_sign_known(rest) == -1 and p[k0] > 0:
            s = 1 if p[k0] < 0 else -1
            rr = R(rest, P1)
            q = rmul(ATOMS[k0[0][0]][1][0], const(p[k0] ** 2))
            d = rsub(rmul(rr, rr), q)
            return gt0(d if s > 0 else rneg(d))
    # rest - c|u| > 0  <=>  rest - cu > 0 and rest + cu > 0 (or, for c < 0)
    ab = [k for k in p if any(ATOMS[a][0] == 'abs' for a, _ in k)]
    if len(ab) == 1 and len(ab[0]) == 1 and ab[0][0][1] == 1 and isinstance(ATOMS[ab[0][0][0]][1][0], R):
        k0 = ab[0]
        rest = R({k: v for k, v in p.items() if k != k0}, P1)
        cu = rmul(ATOMS[k0[0][0]][1][0], const(p[k0]))
        if rest.num:
            return (vand if p[k0] < 0 else vor)(gt0(radd(rest, cu)), gt0(rsub(rest, cu)))
    return bool_atom('gt0', R(p, P1))


def eq0(r):
    if not isinstance(r, R):
        return bool_atom('eq0?', r)
    r = unlet(r)
    if is_const(r):
        return cval(r) == 0
    if (r.den != P1 or special(r.num)) and fp_zero(r):
        return True
    p = r.num
    c, m = pcontent(p)
    res = False
    if m:
        p = {mdiv(k, m): v for k, v in p.items()}
        for a, _ in m:
            if _pos_atom(a):
                continue
            if ATOMS[a][0] in ('sqrt', 'abs'):
                res = vor(res, eq0(ATOMS[a][1][0]))
            else:
                res = vor(res, bool_atom('eq0', R({((a, 1),): 1}, P1)))
    c, _ = pcontent(p)
    if p[plead(p)] < 0:
        c = -c
    if c != 1:
        p = {k: qd(v, c) for k, v in p.items()}
    if not (len(p) == 1 and () in p):
        res = vor(res, bool_atom('eq0', R(p, P1)))
    return res


def lt(a, b):
    return gt0(rsub(b, a))


def le(a, b):
    return vnot(gt0(rsub(a, b)))


# arithmetic on gated values -------------------------------------------------
def _num(x):
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, Fraction)):
        return const(x)
    return x


def lift(f, name):
    def g(*vs):
        def leaf(*ls):
            ls = tuple(_num(l) for l in ls)
            if all(isinstance(l, R) for l in ls):
                return f(*ls)
            return atom('?' + name, ls)
        return vmap(leaf, *vs)
    return g


vadd = lift(radd, 'add')
vsub = lift(rsub, 'sub')
vmul = lift(rmul, 'mul')
vdiv = lift(rdiv, 'div')
vneg = lift(rneg, 'neg')


def vlt(a, b):
    return lift(lt, 'lt')(a, b)


def vle(a, b):
    return lift(le, 'le')(a, b)


def leaf_cmp_eq(a, b):
    a, b = _num(a) if not isinstance(b, bool) else a, _num(b) if not isinstance(a, bool) else b
    if isinstance(a, R) and isinstance(b, R):
        return eq0(rsub(a, b))
    if leaf_eq(a, b):
        return True
    if isinstance(a, (str, bool, type(None))) and isinstance(b, (str, bool, type(None))):
        return a == b
    ka, kb = sorted((a, b), key=lambda z: (str(type(z)), show(z)))
    return bool_atom('eq', ka, kb)


def veqv(a, b):
    return vmap(leaf_cmp_eq, a, b)


def vfn(name, *vs):
    return vmap(lambda *ls: fn(name, *[_num(l) for l in ls]), *vs)


# ------------------------------------------------------------- substitution
def rsubst(r, sub, memo=None):
    """Substitute atoms (id -> R or V) in an R; result may be gated."""
    if memo is None:
        memo = {}

    def atom_val(a):
        if a in sub:
            return sub[a]
        if a in memo:
            return memo[a]
        name, args = ATOMS[a]
        nargs = tuple(vsubst(x, sub, memo) for x in args)
        if all(leaf_eq(x, y) if not (isinstance(x, V) or isinstance(y, V)) else veq(x, y)
               for x, y in zip(nargs, args)):
            out = R({((a, 1),): 1}, P1)
        else:
            fl = _FLAGS[a]

            def build(*ls):
                if name == 'ipow':
                    return ipow(*ls)
                v = fn(name, *ls)
                i = single_atom(v) if isinstance(v, R) else None
                if i is not None and ATOMS[i][0] == name:
                    _FLAGS[i] |= fl
                return v
            out = vmap(build, *nargs)
        memo[a] = out
        return out

    def poly(p):
        acc = ZERO
        for m, c in p.items():
            t = const(c)
            for a, e in m:
                av = atom_val(a)
                for _ in range(e):
                    t = vmul(t, av)
            acc = vadd(acc, t)
        return acc
    used = atoms_of_poly(r.num) | atoms_of_poly(r.den)
    hit = [a for a in used if _touches(a, sub)]
    if not hit:
        return r
    ren = {}
    for a in hit:
        v = atom_val(a)
        i = single_atom(v) if isinstance(v, R) else None
        if i is None:
            ren = None
            break
        ren[a] = i
    if ren is not None:
        def rp(p):
            out = {}
            for m, c in p.items():
                d = {}
                for a, e in m:
                    a = ren.get(a, a)
                    d[a] = d.get(a, 0) + e
                k = tuple(sorted(d.items()))
                x = out.get(k, 0) + c
                if x:
                    out[k] = x
                else:
                    out.pop(k, None)
            return out
        nn, dd = rp(r.num), rp(r.den) if r.den != P1 else P1
        if dd and len(nn) == len(r.num) and len(dd) == len(r.den) and not _needs_reduce(nn) and not _needs_reduce(dd):
            return R(nn, dd)
    n = poly(r.num)
    if r.den == P1:
        return n
    return vdiv(n, poly(r.den))


_touch_memo = {}


def atoms_of_poly(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


def _touches(a, sub):
    if a in sub:
        return True
    d = deep_atoms(a)
    return any(i in d for i in sub)


_DEEP = {}


def deep_atoms(a):
    """All atom ids reachable below atom a (including a)."""
    r = _DEEP.get(a)
    if r is None:
        out = {a}
        for arg in ATOMS[a][1]:
            for x in val_atoms(arg):
                out |= deep_atoms(x)
        r = _DEEP[a] = frozenset(out)
    return r


def val_atoms(v):
    if isinstance(v, R):
        return atoms_of_poly(v.num) | atoms_of_poly(v.den)
    if isinstance(v, V):
        return {v.c} | val_atoms(v.hi) | val_atoms(v.lo)
    if isinstance(v, (tuple, list)):
        s = set()
        for x in v:
            s |= val_atoms(x)
        return s
    if hasattr(v, 'sub_values'):
        s = set()
        for x in v.sub_values():
            s |= val_atoms(x)
        return s
    return set()


def all_atoms(v):
    s = set()
    for a in val_atoms(v):
        s |= deep_atoms(a)
    return s


def vsubst(v, sub, memo=None):
    if memo is None:
        memo = {}
    if isinstance(v, R):
        return rsubst(v, sub, memo)
    if isinstance(v, V):
        if not any(_touches(a, sub) for a in val_atoms(v)):
            return v
        if v.c in sub:
            c = truthv(sub[v.c])
        else:
            name, args = ATOMS[v.c]
            nargs = tuple(vsubst(x, sub, memo) for x in args)
            if all(veq(x, y) for x, y in zip(nargs, args)):
                c = bool_atom_v(v.c)
            else:
                fl = _FLAGS[v.c]

                def build(*ls):
                    if name == 'gt0' and isinstance(ls[0], R):
                        return gt0(ls[0])
                    if name == 'eq0' and isinstance(ls[0], R):
                        return eq0(ls[0])
                    if name == 'eq':
                        return leaf_cmp_eq(*ls)
                    b = bool_atom(name, *ls)
                    _FLAGS[b.c] |= fl
                    return b
                c = vmap(build, *nargs)
        return ite(c, vsubst(v.hi, sub, memo), vsubst(v.lo, sub, memo))
    if isinstance(v, tuple):
        return tuple(vsubst(x, sub, memo) for x in v)
    if hasattr(v, 'rebuild'):
        return v.rebuild([vsubst(x, sub, memo) for x in v.sub_values()])
    return v


# ------------------------------------------------------------ differentiation
def rdiff(r, x, rules):
    """d r / d x, x an atom id; rules(name,args,atom)-> list of (arg index, dvalue) or None."""
    def datom(a):
        if a == x:
            return ONE
        if x not in deep_atoms(a):
            return ZERO
        name, args = ATOMS[a]
        me = R({((a, 1),): 1}, P1)
        if name == 'let':
            return rdiff(args[0], x, rules)
        if name == 'sqrt':
            return rdiv(rdiff(args[0], x, rules), rmul(const(2), me))
        if name == 'ipow':
            b, e = args
            return rmul(rdiv(rmul(e, me), b), rdiff(b, x, rules))
        if name == 'sin':
            return rmul(fn('cos', args[0]), rdiff(args[0], x, rules))
        if name == 'cos':
            return rneg(rmul(fn('sin', args[0]), rdiff(args[0], x, rules)))
        if name == 'sum':
            d, n, body = args
            k = fresh_idx()
            b = open_(d, body, k)
            if not isinstance(b, R):
                return unknown('derivative of gated sum')
            return mksum(k, n, rdiff(b, x, rules))
        if name in ('floor', 'int', 'trunc'):
            return ZERO
        v = rules(name, args, a) if rules else None
        if v is None:
            return unknown('derivative of ' + name)
        acc = ZERO
        for i, dv in v:
            acc = radd(acc, rmul(dv, rdiff(args[i], x, rules)))
        return acc

    def poly(p):
        acc = ZERO
        for m, c in p.items():
            for k, (a, e) in enumerate(m):
                da = datom(a)
                if not da.num:
                    continue
                rest = list(m)
                if e == 1:
                    rest.pop(k)
                else:
                    rest[k] = (a, e - 1)
                acc = radd(acc, rmul(mk({tuple(rest): c * e}), da))
        return acc
    dn = poly(r.num)
    if r.den == P1:
        return dn
    dd = poly(r.den)
    N, D = R(r.num, P1), R(r.den, P1)
    return rdiv(rsub(rmul(dn, D), rmul(N, dd)), rmul(D, D))


# ------------------------------------------------------------- finite sums
_fresh = [0]


def fresh_idx(tag='k'):
    _fresh[0] += 1
    return atom('idx', (tag, _fresh[0]), ('int', 'nonneg'))


def bound_idx(depth=0):
    return atom('bound', (depth,), ('int', 'nonneg'))


def _height(v):
    h = -1
    for a in all_atoms(v):
        if ATOMS[a][0] == 'bound':
            h = max(h, ATOMS[a][1][0])
    return h + 1


def close(k, v):
    """Replace the free index k (R) by a canonical bound index; returns (depth, v')."""
    d = _height(v)
    return d, vsubst(v, {single_atom(k): bound_idx(d)})


def open_(depth, v, k):
    return vsubst(v, {single_atom(bound_idx(depth)): k})


def addsum(init, k, n, body):
    """init + sum_{k=0}^{n-1} body; a first term handled ahead of the loop joins the sum."""
    ki = single_atom(k)
    if isinstance(init, R) and init.num and isinstance(body, (R, V)) and not has_unknown(body):
        first = vsubst(body, {ki: const(-1)})
        if isinstance(first, R) and leaf_eq(first, init) and ki in deep_all(body):
            return mksum(k, radd(n, ONE), vsubst(body, {ki: rsub(k, ONE)}))
    return vadd(init, mksum(k, n, body))


def deep_all(v):
    return {b for a in all_atoms(v) for b in deep_atoms(a)} | set(all_atoms(v))


def mksum(k, n, body):
    """sum_{k=0}^{n-1} body, k a free index atom (as R)."""
    ki = single_atom(k)
    body = vmap(_num, body)
    if isinstance(body, V):
        if ki in all_atoms(body):
            d, b = close(k, body)
            return atom('sum', (d, n, b))
        return vmap(lambda b: mksum(k, n, b), body)
    if not isinstance(body, R):
        return unknown('sum')
    if not body.num:
        return ZERO
    if any(ki in deep_atoms(a) for a in atoms_of_poly(body.den)):
        # sum (A + B) / d = sum A / d + sum B / d, factors free of k pulled out
        cd, md = pcontent(body.den)
        fd = tuple((a, e) for a, e in md if ki not in deep_atoms(a))
        den = {mdiv(m, fd): qd(c, cd) for m, c in body.den.items()}
        acc = ZERO
        groups = {}
        for m, c in body.num.items():
            dep = tuple((a, e) for a, e in m if ki in deep_atoms(a))
            free = tuple((a, e) for a, e in m if ki not in deep_atoms(a))
            groups[dep] = radd(groups.get(dep, ZERO), R({free: c}, P1))
        for dep, coef in groups.items():
            q = R({dep: 1}, den)
            d, b = close(k, q)
            acc = radd(acc, rmul(coef, atom('sum', (d, n, b))))
        return rdiv(acc, R({fd: cd}, P1))
    acc = ZERO
    groups = {}
    for m, c in body.num.items():
        dep = tuple((a, e) for a, e in m if ki in deep_atoms(a))
        free = tuple((a, e) for a, e in m if ki not in deep_atoms(a))
        t = R({free: c}, P1)
        groups[dep] = radd(groups.get(dep, ZERO), t)
    for dep, coef in groups.items():
        if not dep:
            acc = radd(acc, rmul(coef, n))
        else:
            d, b = close(k, R({dep: 1}, P1))
            acc = radd(acc, rmul(coef, atom('sum', (d, n, b))))
    if body.den != P1:
        acc = rdiv(acc, R(body.den, P1))
    return acc


def mkany(k, n, cond):
    """exists k in [0,n): cond"""
    cond = truthv(cond)
    if cond is False:
        return False
    if isinstance(cond, V) and single_atom(k) not in all_atoms(cond):
        return vand(gt0(n), cond)
    d, c = close(k, cond)
    return bool_atom('any', d, n, c)


def mkall(k, n, cond):
    return vnot(mkany(k, n, vnot(cond)))


# ------------------------------------------------------------------ comparing
class Mismatch:
    def __init__(self, path, a, b, undecided=False):
        self.path, self.a, self.b, self.undecided = path, a, b, undecided

    def text(self):
        cond = ' and '.join(('' if b else 'not ') + show(V(c, True, False)) for c, b in self.path) or 'always'
        return 'when %s: got %s, expected %s' % (cond, clip(show(self.a)), clip(show(self.b)))


def clip(s, n=240):
    return s if len(s) <= n else s[:n] + '...'


def has_unknown(v):
    return any('unk' in _FLAGS[a] for a in all_atoms(v))


def feasible(path):
    """Cheap consistency of a set of (boolean atom, truth) literals."""
    gts = []
    eqs = []
    for c, b in path:
        n, a = ATOMS[c]
        if n == 'gt0' and isinstance(a[0], R):
            gts.append((a[0], b))
        elif n == 'eq0' and isinstance(a[0], R):
            eqs.append((a[0], b))
    for i, (p, b) in enumerate(gts):
        for q, d in gts[i + 1:]:
            if b and d and _opposite(p, q):
                return False
        if b:
            for e, d in eqs:
                if d and (req(e, p) or req(rneg(e), p)):
                    return False
        # p>0 true, q>0 false with q = p + positive constant
        for q, d in gts:
            if b and not d and q is not p:
                diff = rsub(q, p)
                if is_const(diff) and cval(diff) >= 0:
                    return False
            if b and d and q is not p:
                s = radd(p, q)
                if is_const(s) and cval(s) <= 0:
                    return False
    # not p>0 and not -p>0  implies p == 0
    for i, (p, b) in enumerate(gts):
        if b:
            continue
        for q, d in gts[i + 1:]:
            if not d and _opposite(p, q):
                for e, k in eqs:
                    if not k and (req(e, p) or req(rneg(e), p)):
                        return False
    return True


def feasible_eq(path):
    """Like feasible, after substituting the equalities on the path."""
    if not feasible(path):
        return False
    sub = eq_subst(path)
    if not sub:
        return True
    lits = []
    for c, b in path:
        n, a = ATOMS[c]
        if n != 'gt0' or not isinstance(a[0], R):
            continue
        g = vmap(gt0, vsubst(a[0], sub))
        if isinstance(g, bool):
            if g != b:
                return False
        elif isinstance(g, V) and isinstance(g.hi, bool) and isinstance(g.lo, bool):
            lits.append((g.c, b if g.hi else not b))
    d = {}
    for c, b in lits:
        if d.setdefault(c, b) != b:
            return False
    return feasible(tuple(lits))


def prune(v, path=()):
    """Drop branches whose gates contradict each other."""
    if not isinstance(v, V):
        return v
    ok = [feasible_eq(path + ((v.c, bit),)) for bit in (True, False)]
    if not ok[0]:
        return prune(v.lo, path)
    if not ok[1]:
        return prune(v.hi, path)
    return ite(bool_atom_v(v.c), prune(v.hi, path + ((v.c, True),)), prune(v.lo, path + ((v.c, False),)))


def _opposite(p, q):
    return not radd(p, q).num


def compare(a, b, path=(), leafcmp=None, limit=4096):
    """First feasible leaf where gated values a and b differ, or None."""
    count = [0]

    def go(a, b, path):
        count[0] += 1
        if count[0] > limit:
            return Mismatch(path, a, b, undecided=True)
        if isinstance(a, V) or isinstance(b, V):
            if a is b:
                return None
            c = top(*[x for x in (a, b) if isinstance(x, V)])
            known = dict(path).get(c)
            worst = None
            for bit in (True, False):
                if known is not None and known != bit:
                    continue
                np = path if known is not None else path + ((c, bit),)
                if not feasible(np):
                    continue
                m = go(cof(a, c, bit), cof(b, c, bit), np)
                if m is not None:
                    if not m.undecided:
                        return m
                    worst = m
            return worst
        ok = leafcmp(a, b, path) if leafcmp else leaf_eq(a, b)
        if ok is True:
            return None
        if isinstance(ok, Mismatch):
            return ok
        if not leafcmp:
            # use equalities on the path
            sub = eq_subst(path)
            if sub and leaf_eq(vsubst(a, sub), vsubst(b, sub)):
                return None
            if isinstance(a, R) and isinstance(b, R) and path and fp_equal(a, b, path_mask(path), strict=True):
                return None
            # gates buried inside the arguments of an operation, decided by the path
            if path:
                lit = dict(path)
                sa, sb = vsubst(a, lit), vsubst(b, lit)
                if isinstance(sa, V) or isinstance(sb, V):
                    return go(sa, sb, path)
                if leaf_eq(sa, sb):
                    return None
        und = has_unknown(a) or has_unknown(b) or any('unk' in _FLAGS[x] for c, _ in path for x in deep_atoms(c))
        return Mismatch(path, a, b, undecided=und)
    return go(a, b, tuple(path))


def eq_subst(path):
    """Substitution implied by the eq0 literals that hold on the path."""
    sub = {}
    for c, b in path:
        n, a = ATOMS[c]
        if n == 'eq0' and b and isinstance(a[0], R) and a[0].den == P1:
            p = a[0].num
            # sum of squares == 0  =>  every term zero
            if all(cc > 0 and len(m) == 1 and m[0][1] % 2 == 0 for m, cc in p.items()):
                for m in p:
                    sub[m[0][0]] = ZERO
                continue
            for m, cc in p.items():
                if len(m) == 1 and m[0][1] == 1:
                    i = m[0][0]
                    if any(i in deep_atoms(x) for k in p if k != m for x, _ in k):
                        continue
                    rest = R({k: -qd(v, cc) for k, v in p.items() if k != m}, P1)
                    sub[i] = rest
                    break
    return sub


def leaves(v, path=()):
    if isinstance(v, V):
        for bit in (True, False):
            np = path + ((v.c, bit),)
            if feasible(np):
                yield from leaves(v.hi if bit else v.lo, np)
    else:
        yield path, v


# -------------------------------------------------------------------- printing
def show(v, depth=0):
    if depth > 9:
        return '..'
    if isinstance(v, V):
        if v.hi is True and v.lo is False:
            return showatom(v.c, depth + 1)
        if v.hi is False and v.lo is True:
            return 'not(' + showatom(v.c, depth + 1) + ')'
        return '(%s ? %s : %s)' % (showatom(v.c, depth + 1), show(v.hi, depth + 1), show(v.lo, depth + 1))
    if isinstance(v, R):
        n = showpoly(v.num, depth)
        if v.den == P1:
            return n
        return '(%s)/(%s)' % (n, showpoly(v.den, depth))
    if isinstance(v, tuple):
        if v and v[0] == 'ptr':
            off = show(v[2], depth + 1)
            return show(v[1], depth + 1) + ('' if off == '0' else '+' + off)
        return '(' + ', '.join(show(x, depth + 1) for x in v) + ')'
    return str(v)


def showpoly(p, depth):
    if not p:
        return '0'
    out = []
    for m in sorted(p, key=lambda m: (sum(e for _, e in m), m)):
        c = p[m]
        fs = [showatom(a, depth + 1) + ('^%d' % e if e > 1 else '') for a, e in m]
        if not fs:
            s = str(c) if c.denominator < 10 ** 6 else repr(float(c))
        else:
            cs = '' if c == 1 else '-' if c == -1 else (str(c) if c.denominator < 10 ** 6 else repr(float(c))) + '*'
            s = cs + '*'.join(fs)
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')


def showatom(i, depth=0):
    name, args = ATOMS[i]
    if name == 'var' or name == 'field':
        return str(args[-1]) if name == 'var' else show(args[0], depth) + '.' + str(args[1])
    if name == 'gt0':
        return '%s > 0' % show(args[0], depth + 1)
    if name == 'eq0':
        return '%s == 0' % show(args[0], depth + 1)
    if name == 'load':
        return '%s[%s]' % (show(args[0], depth + 1), show(args[1], depth + 1))
    if name == 'unknown':
        return '<unknown: %s>' % args[0]
    if not args:
        return str(name)
    return '%s(%s)' % (name, ', '.join(clip(show(a, depth + 1), 44) for a in args))


def var(name, *flags):
    return atom('var', (name,), flags)
