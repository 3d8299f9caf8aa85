"""More numpy functions, on arrays of known shape (symbolic axes are kept where they are not touched)."""
from fractions import Fraction
from . import terms as T
from .terms import R, V, const
from .pyvals import Arr, MArr, Tup, Ref
from . import pyinterp as P


def ival(x):
    return P.ival(x)


def conc(a):
    return isinstance(a, Arr) and all(isinstance(d, int) for d in a.dims)


def arg(a, kw, i, k, d=None):
    return a[i] if len(a) > i else kw.get(k, d)


class NP:
    def _arr(self, v):
        """An array of at least one axis."""
        x = self.arr_of(v)
        return x if x is not None and x.dims else None

    def _shape(self, v):
        if v is None:
            return None
        k = ival(v) if isinstance(v, R) else None
        if k is not None:
            return (k,)
        l = self.as_list(v)
        if l is None:
            return None
        s = [ival(x) if isinstance(x, R) else None for x in l]
        return None if any(x is None for x in s) else tuple(s)

    def n_arange(self, a, kw):
        if set(kw) - {'dtype', 'start', 'stop', 'step'}:
            return None
        v = list(a)
        if 'start' in kw or 'stop' in kw or 'step' in kw:
            if len(a) > 1 or 'stop' not in kw and not a:
                v = None
            else:
                v = [kw.get('start', a[0] if a and 'stop' in kw else T.ZERO), kw.get('stop', a[0] if a else None)] + ([kw['step']] if 'step' in kw else [])
        if not v or len(v) > 3:
            return None
        if len(v) == 1:
            v = [T.ZERO] + v
        if any(not (isinstance(x, R) and T.is_const(x)) for x in v):
            return None
        v = [T.cval(x) for x in v]
        st = v[2] if len(v) == 3 else Fraction(1)
        if st == 0:
            return None
        n = max(0, -int((v[0] - v[1]) // st))
        if n > 400:
            return None
        return Arr((n,), {(i,): const(v[0] + i * st) for i in range(n)})

    def n_linspace(self, a, kw):
        n = ival(arg(a, kw, 2, 'num', const(50)))
        if n is None or not 0 < n <= 64 or len(a) < 2 or set(kw) - {'num', 'endpoint', 'dtype'}:
            return None
        end = arg(a, kw, 3, 'endpoint', True)
        if not isinstance(end, bool) or not all(isinstance(x, R) for x in a[:2]):
            return None
        m = n - 1 if end else n
        if m == 0:
            return Arr((1,), {(0,): a[0]})
        d = T.rsub(a[1], a[0])
        return Arr((n,), {(i,): T.radd(a[0], T.rmul(const(Fraction(i, m)), d)) for i in range(n)})

    def n_meshgrid(self, a, kw):
        xs = [self.arr_of(x) for x in a]
        if any(x is None or len(x.dims) != 1 or not conc(x) for x in xs) or set(kw) - {'indexing'}:
            return None
        ix = kw.get('indexing', 'xy')
        if ix not in ('xy', 'ij'):
            return None
        order = list(range(len(xs)))
        if ix == 'xy' and len(xs) > 1:
            order[0], order[1] = 1, 0
        d = tuple(xs[j].dims[0] for j in order)
        return self.newlist([Arr(d, {k: x.items[(k[order.index(j)],)] for k in self.idxs(d)}) for j, x in enumerate(xs)])

    def n_indices(self, a, kw):
        s = self._shape(a[0]) if a else None
        if s is None or set(kw) - {'dtype'}:
            return None
        return Arr((len(s),) + s, {(j,) + k: const(k[j]) for j in range(len(s)) for k in self.idxs(s)})

    def _permute(self, x, order):
        """Array whose axis i is x's axis order[i]; symbolic axes allowed."""
        d = tuple(x.dims[o] for o in order)
        src = [o for o in order if isinstance(x.dims[o], int)]
        old = [o for o in range(len(x.dims)) if isinstance(x.dims[o], int)]
        return Arr(d, {tuple(k[old.index(o)] for o in src): v for k, v in x.items.items()})

    def n_moveaxis(self, a, kw):
        x = self._arr(a[0])
        s, t = (self._shape(arg(a, kw, i, n)) for i, n in ((1, 'source'), (2, 'destination')))
        if x is None or s is None or t is None or len(s) != len(t):
            return None
        n = len(x.dims)
        s, t = [i % n for i in s], [i % n for i in t]
        order = [i for i in range(n) if i not in s]
        for dst, src in sorted(zip(t, s)):
            order.insert(dst, src)
        return self._permute(x, order)

    def n_rollaxis(self, a, kw):
        x = self._arr(a[0])
        ax, st = ival(arg(a, kw, 1, 'axis')), ival(arg(a, kw, 2, 'start', T.ZERO))
        if x is None or ax is None or st is None:
            return None
        n = len(x.dims)
        ax %= n
        st += n if st < 0 else 0
        if ax < st:
            st -= 1
        order = [i for i in range(n) if i != ax]
        order.insert(st, ax)
        return self._permute(x, order)

    def n_swapaxes(self, a, kw):
        x = self._arr(a[0])
        p, q = ival(arg(a, kw, 1, 'axis1')), ival(arg(a, kw, 2, 'axis2'))
        if x is None or p is None or q is None:
            return None
        order = list(range(len(x.dims)))
        p, q = p % len(order), q % len(order)
        order[p], order[q] = order[q], order[p]
        return self._permute(x, order)

    def n_transpose(self, a, kw):
        x = a[0] if isinstance(a[0], Arr) else None
        if x is None and self.as_list(a[0]) is not None:
            x = self._arr(a[0])
        if x is None:
            return None
        ax = arg(a, kw, 1, 'axes')
        if ax is None:
            return self.transpose(x)
        ax = self._shape(ax)
        return self._permute(x, [i % len(x.dims) for i in ax]) if ax is not None and len(ax) == len(x.dims) else None

    n_permute_dims = n_transpose

    def n_expand_dims(self, a, kw):
        x, ax = self._arr(a[0]), ival(arg(a, kw, 1, 'axis'))
        if x is None or ax is None:
            return None
        n = len(x.dims) + 1
        ax %= n
        d = x.dims[:ax] + (1,) + x.dims[ax:]
        c = sum(1 for q in x.dims[:ax] if isinstance(q, int))
        return Arr(d, {k[:c] + (0,) + k[c:]: v for k, v in x.items.items()})

    def n_reshape(self, a, kw):
        x = self._arr(a[0])
        s = arg(a, kw, 1, 'shape', kw.get('newshape'))
        return self.arr_method(x, 'reshape', [s], {}) if conc(x) and s is not None and not set(kw) - {'shape', 'newshape'} else None

    def n_ravel(self, a, kw):
        x = self._arr(a[0])
        return self.arr_method(x, 'ravel', [], {}) if conc(x) and not kw and len(a) == 1 else None

    def n_squeeze(self, a, kw):
        x = self._arr(a[0])
        if not isinstance(x, Arr) or len(a) > 1 or kw:
            return None
        keep = [i for i, d in enumerate(x.dims) if d != 1]
        old = [i for i, d in enumerate(x.dims) if isinstance(d, int)]
        r = Arr(tuple(x.dims[i] for i in keep), {tuple(k[old.index(i)] for i in keep if i in old): v for k, v in x.items.items()})
        return r

    def n_broadcast_to(self, a, kw):
        s = self._shape(arg(a, kw, 1, 'shape'))
        x = self._arr(a[0]) if not (isinstance(a[0], R) and s) else Arr((), {(): a[0]})
        if x is None or s is None or self.bdims(x.dims, s) != s:
            return None
        return Arr(s, {k: self.bget(x, s, k) for k in self.idxs(s)})

    def n_broadcast_arrays(self, a, kw):
        if kw:
            return None
        xs = [self.arr_of(x) if not isinstance(x, (bool, V)) else None for x in a]
        if any(x is None for x in xs):
            return None
        d = ()
        for x in xs:
            d = self.bdims(d, x.dims)
            if d is None:
                return None
        return self.newlist([Arr(d, {k: self.bget(x, d, k) for k in self.idxs(d)}) for x in xs])

    def n_fft_fftfreq(self, a, kw):
        n, d = ival(arg(a, kw, 0, 'n')), arg(a, kw, 1, 'd', T.ONE)
        if n is None or not 0 < n <= 64 or not isinstance(d, (R, V)):
            return None
        return Arr((n,), {(i,): T.vdiv(const(Fraction(i if i < (n + 1) // 2 else i - n, n)), d) for i in range(n)})

    def _fshift(sign):
        def h(self, a, kw):
            x = self._arr(a[0])
            ax = arg(a, kw, 1, 'axes')
            if x is None or not conc(x):
                return None
            axes = list(range(len(x.dims)))
            if ax is not None:
                axes = self._shape(ax)
                if axes is None:
                    return None
                axes = [q % len(x.dims) for q in axes]
            out = {}
            for k, v in x.items.items():
                q = list(k)
                for j in axes:
                    q[j] = (q[j] + sign * (x.dims[j] // 2)) % x.dims[j]
                out[tuple(q)] = v
            return Arr(x.dims, out)
        return h
    n_fft_fftshift, n_fft_ifftshift = _fshift(1), _fshift(-1)

    def n_polynomial_legendre_leggauss(self, a, kw):
        n = ival(a[0]) if a and isinstance(a[0], R) else None
        if n is None or not 0 < n <= 12 or kw:
            return None
        col = lambda w: Arr((n,), {(i,): T.atom('leggauss.' + w, (const(n), const(i)), ('real',)) for i in range(n)})
        return Tup([col('x'), col('w')])

    def n_full(self, a, kw):
        s, v = self._shape(arg(a, kw, 0, 'shape')), arg(a, kw, 1, 'fill_value')
        if s is None or not isinstance(v, (R, bool, V)):
            return None
        return Arr(s, {k: v for k in self.idxs(s)})

    def _like(v):
        def h(self, a, kw):
            if not isinstance(a[0], Arr) or set(kw) - {'dtype'}:
                return None
            w = v if v is not None else a[1]
            return Arr(a[0].dims, {k: w for k in a[0].items})
        return h
    n_zeros_like, n_ones_like, n_full_like = _like(T.ZERO), _like(T.ONE), _like(None)

    def _mask(self, v):
        """A constant boolean array, or None."""
        x = self.arr_of(v)
        if x is None or not conc(x) or not x.dims:
            return None
        out = {}
        for k, q in x.items.items():
            if isinstance(q, bool):
                out[k] = q
            elif isinstance(q, R) and T.is_const(q):
                out[k] = T.cval(q) != 0
            else:
                return None
        return Arr(x.dims, out)

    def n_nonzero(self, a, kw):
        m = self._mask(a[0]) if len(a) == 1 and not kw else None
        if m is None:
            return None
        ps = self.positions(m)
        return Tup([Arr((len(ps),), {(j,): const(p[c]) for j, p in enumerate(ps)}) for c in range(len(m.dims))])

    def n_flatnonzero(self, a, kw):
        m = self._mask(a[0])
        if m is None or kw:
            return None
        ks = [i for i, k in enumerate(m.keys()) if m.items[k]]
        return Arr((len(ks),), {(j,): const(k) for j, k in enumerate(ks)})

    def n_where(self, a, kw):
        if kw:
            return None
        if len(a) == 1:
            return self.n_nonzero(a, kw)
        m = self._mask(a[0]) if len(a) == 3 else None
        if m is None:
            return None
        x, y = self.arr_of(a[1]), self.arr_of(a[2])
        if x is None or y is None:
            return None
        d = self.bdims(self.bdims(m.dims, x.dims) or (), y.dims)
        if d is None or self.bdims(d, m.dims) != d:
            return None
        return Arr(d, {k: self.bget(x if self.bget(m, d, k) else y, d, k) for k in self.idxs(d)})

    def n_count_nonzero(self, a, kw):
        m = self._mask(a[0])
        return const(sum(m.items.values())) if m is not None and not kw and len(a) == 1 else None

    def _ufunc(op):
        def h(self, a, kw):
            if len(a) != 2 or set(kw) - {'dtype'}:
                return None
            return self.binop(op, a[0], a[1])
        return h
    n_add, n_subtract, n_multiply, n_divide, n_power = _ufunc('+'), _ufunc('-'), _ufunc('*'), _ufunc('/'), _ufunc('**')
    n_true_divide, n_float_power = n_divide, n_power
    n_logical_and, n_logical_or = n_bitwise_and, n_bitwise_or = _ufunc('&'), _ufunc('|')

    def _pick(kind):
        def h(self, a, kw):
            if len(a) != 2 or kw:
                return None
            x, y = self.arr_of(a[0]), self.arr_of(a[1])
            if x is None or y is None or isinstance(x, MArr) or isinstance(y, MArr):
                return None
            d = self.bdims(x.dims, y.dims)
            if d is None or any(not isinstance(q, int) for q in d):
                return None
            f = lambda p, q: self.call_ext('builtins.' + kind, [p, q], {})
            items = {k: f(self.bget(x, d, k), self.bget(y, d, k)) for k in self.idxs(d)}
            return Arr(d, items) if d else items[()]
        return h
    n_minimum, n_maximum = _pick('min'), _pick('max')
    n_fmin, n_fmax = n_minimum, n_maximum

    def _near(self, x, y, rtol, atol, both=False):
        d = P.cabs(T.vsub(x, y))
        m = P.cabs(y) if not both else self.call_ext('builtins.max', [P.cabs(x), P.cabs(y)], {})
        return P.vnot(T.vlt(T.vadd(atol, T.vmul(rtol, m)), d))

    def n_isclose(self, a, kw):
        if set(kw) - {'rtol', 'atol'} or len(a) > 4:
            return None
        x, y = self.arr_of(a[0]), self.arr_of(a[1])
        rt, at = arg(a, kw, 2, 'rtol', const(Fraction(1, 10**5))), arg(a, kw, 3, 'atol', const(Fraction(1, 10**8)))
        if x is None or y is None or not isinstance(rt, R) or not isinstance(at, R) or isinstance(x, MArr) or isinstance(y, MArr):
            return None
        if self.opaque_array(a[0]) or self.opaque_array(a[1]):
            return None
        d = self.bdims(x.dims, y.dims)
        if d is None or any(not isinstance(q, int) for q in d):
            return None
        items = {k: self._near(self.bget(x, d, k), self.bget(y, d, k), rt, at) for k in self.idxs(d)}
        return Arr(d, items) if d else items[()]

    def n_allclose(self, a, kw):
        r = self.n_isclose(a, kw)
        if not isinstance(r, Arr):
            return r
        out = True
        for v in r.items.values():
            out = P.vand(out, v)
        return out

    def n_tile(self, a, kw):
        x, r = self._arr(a[0]), self._shape(arg(a, kw, 1, 'reps'))
        if not conc(x) or isinstance(x, MArr) or r is None or set(kw) - {'reps'} or any(q < 0 for q in r):
            return None
        n = max(len(r), len(x.dims))
        r = (1,) * (n - len(r)) + r
        d0 = (1,) * (n - len(x.dims)) + x.dims
        d = tuple(p * q for p, q in zip(d0, r))
        drop = n - len(x.dims)
        return Arr(d, {k: x.items[tuple(i % m for i, m in zip(k, d0))[drop:]] for k in self.idxs(d)})

    def n_repeat(self, a, kw):
        x, r = self.arr_of(a[0]), ival(arg(a, kw, 1, 'repeats')) if isinstance(arg(a, kw, 1, 'repeats'), R) else None
        ax = arg(a, kw, 2, 'axis')
        if not conc(x) or isinstance(x, MArr) or r is None or r < 0:
            return None
        if ax is None:
            v = [x.items[k] for k in self.idxs(x.dims)]
            return Arr((len(v) * r,), {(i,): v[i // r] for i in range(len(v) * r)})
        ax = ival(ax)
        if ax is None or not -len(x.dims) <= ax < len(x.dims):
            return None
        ax %= len(x.dims)
        d = x.dims[:ax] + (x.dims[ax] * r,) + x.dims[ax + 1:]
        return Arr(d, {k: x.items[k[:ax] + (k[ax] // r,) + k[ax + 1:]] for k in self.idxs(d)})

    def n_roll(self, a, kw):
        x, sh, ax = self._arr(a[0]), self._shape(arg(a, kw, 1, 'shift')), arg(a, kw, 2, 'axis')
        if not conc(x) or isinstance(x, MArr) or sh is None:
            return None
        if ax is None:
            if len(sh) != 1:
                return None
            ks = self.idxs(x.dims)
            return Arr(x.dims, {k: x.items[ks[(i - sh[0]) % len(ks)]] for i, k in enumerate(ks)})
        ax = self._shape(ax)
        if ax is None or len(ax) != len(sh):
            return None
        m = [0] * len(x.dims)
        for i, q in zip(ax, sh):
            m[i % len(x.dims)] += q
        return Arr(x.dims, {k: x.items[tuple((i - q) % n for i, q, n in zip(k, m, x.dims))] for k in x.items})

    def n_identity(self, a, kw):
        n = ival(a[0]) if a and isinstance(a[0], R) else None
        return None if n is None else Arr((n, n), {(i, j): T.ONE if i == j else T.ZERO for i in range(n) for j in range(n)})

    def n_diag(self, a, kw):
        x = self._arr(a[0])
        if not conc(x) or len(a) > 1 or kw or isinstance(x, MArr):
            return None
        if len(x.dims) == 1:
            n = x.dims[0]
            return Arr((n, n), {(i, j): x.items[(i,)] if i == j else T.ZERO for i in range(n) for j in range(n)})
        if len(x.dims) != 2:
            return None
        n = min(x.dims)
        return Arr((n,), {(i,): x.items[(i, i)] for i in range(n)})

    def n_inner(self, a, kw):
        x, y = self._arr(a[0]), self._arr(a[1])
        return self.n_dot([x, y], {}) if conc(x) and conc(y) and len(x.dims) == len(y.dims) == 1 and not kw else None

    def n_flipud(self, a, kw):
        return self.n_flip([a[0], T.ZERO], {})

    def n_fliplr(self, a, kw):
        return self.n_flip([a[0], T.ONE], {})

    def n_take(self, a, kw):
        x, i, ax = self._arr(a[0]), self.arr_of(arg(a, kw, 1, 'indices')), arg(a, kw, 2, 'axis')
        if not conc(x) or i is None or not (ax is None and len(x.dims) == 1 or ax is not None and isinstance(ax, R) and ival(ax) == 0):
            return None
        return self.fancy_get(x, [i]) if i.dims else self.arr_get(x, [i.items[()]])

    def n_append(self, a, kw):
        x, y = self.arr_of(a[0]), self.arr_of(a[1])
        if not conc(x) or not conc(y) or len(x.dims) > 1 or len(y.dims) > 1 or len(a) > 2 or kw:
            return None
        v = [x.items[k] for k in self.idxs(x.dims)] + [y.items[k] for k in self.idxs(y.dims)]
        return Arr((len(v),), {(i,): q for i, q in enumerate(v)})

    def n_logical_not(self, a, kw):
        return self.invert(a[0]) if isinstance(a[0], Arr) and len(a) == 1 and not kw else None

    def n_mean(self, a, kw):
        x = self.arr_of(a[0])
        if x is None or not conc(x) or not x.dims or set(kw) - {'axis'} or len(a) > 2:
            return None
        ax = arg(a, kw, 1, 'axis')
        if isinstance(x, MArr):
            if len(x.dims) != 1 and ax is not None:
                return None
            x = self.arr_method(x, 'compressed', [], {})
            ax = None
        n = len(x.items) if ax is None else x.dims[ival(ax) % len(x.dims)] if ival(ax) is not None else None
        if not n:
            return T.unknown('mean of nothing') if n == 0 else None
        s = self.n_sum([x] + ([ax] if ax is not None else []), {})
        return self.binop('/', s, const(n)) if s is not None else None

    n_ma_mean = n_mean

    def n_average(self, a, kw):
        if set(kw) - {'axis', 'weights'}:
            return None
        w = arg(a, kw, 2, 'weights')
        if w is None:
            return self.n_mean(a[:2], {k: v for k, v in kw.items() if k == 'axis'})
        x, w = self.arr_of(a[0]), self.arr_of(w)
        ax = arg(a, kw, 1, 'axis')
        if x is None or w is None or len(x.dims) != 1 and not (ax is not None and ival(ax) == 0) or len(w.dims) != 1:
            return None
        ww = w if len(x.dims) == 1 else Arr(w.dims + (1,) * (len(x.dims) - 1), {k + (0,) * (len(x.dims) - 1): v for k, v in w.items.items()})
        return self.binop('/', self.n_sum([self.arr_op('*', x, ww), T.ZERO], {}), self.n_sum([w], {}))

    def n_ndindex(self, a, kw):
        s = self._shape(a[0]) if len(a) == 1 else self._shape(Tup(a))
        return Tup([Tup([const(i) for i in k]) for k in self.idxs(s)]) if s is not None and not kw else None

    def n_fft_fft2(self, a, kw):
        x = self.arr_of(a[0])
        if x is None or not conc(x) or len(x.dims) != 2 or kw or len(a) != 1:
            return None
        flat = Tup([x.items[k] for k in x.keys()])
        return Arr(x.dims, {k: T.vadd(T.atom('re fft2', (flat, k), ('real',)), T.vmul(P.IMAG, T.atom('im fft2', (flat, k), ('real',)))) for k in x.keys()})

    def n_ma_masked_array(self, a, kw):
        x = self.arr_of(a[0])
        m = arg(a, kw, 1, 'mask')
        m = self._mask(m) if m is not None else None
        if x is None or m is None or m.dims != x.dims or set(kw) - {'mask'}:
            return None
        return MArr(x.dims, x.items, m)

    n_ma_array = n_ma_MaskedArray = n_ma_masked_array

    def n_ma_masked_where(self, a, kw):
        return self.n_ma_masked_array([a[1], a[0]], {}) if len(a) == 2 and not kw else None

    def n_conj(self, a, kw):
        def f(x):
            re, im = P.cparts(x)
            return T.vsub(re, T.vmul(P.IMAG, im))
        return self.elementwise(a[0], f) if len(a) == 1 and not kw else None

    n_conjugate = n_conj

    def n_real(self, a, kw):
        return self.elementwise(a[0], lambda x: P.cparts(x)[0])

    def n_imag(self, a, kw):
        return self.elementwise(a[0], lambda x: P.cparts(x)[1])

    def n_empty(self, a, kw):
        s = self._shape(a[0] if a else kw.get('shape'))
        n = 1
        for d in s or ():
            n *= d
        if s is None or n > 1024:
            return None
        self.serial += 1
        return Arr(s, {k: T.atom('uninitialised', (self.serial, k)) for k in self.idxs(s)})

    def n_concatenate(self, a, kw):
        l = self.rows(a[0])
        ax = ival(arg(a, kw, 1, 'axis', T.ZERO))
        xs = [self.arr_of(x) for x in l] if l is not None else [None]
        if ax is None or not xs or any(x is None or not x.dims for x in xs) or set(kw) - {'axis'}:
            return None
        n = len(xs[0].dims)
        if any(len(x.dims) != n for x in xs):
            return None
        ax %= n
        if any(not isinstance(x.dims[ax], int) or x.dims[:ax] + x.dims[ax + 1:] != xs[0].dims[:ax] + xs[0].dims[ax + 1:] for x in xs):
            return None
        c = sum(1 for q in xs[0].dims[:ax] if isinstance(q, int))
        items, off = {}, 0
        for x in xs:
            for k, v in x.items.items():
                items[k[:c] + (k[c] + off,) + k[c + 1:]] = v
            off += x.dims[ax]
        return Arr(xs[0].dims[:ax] + (off,) + xs[0].dims[ax + 1:], items)

    def n_hstack(self, a, kw):
        l = self.rows(a[0])
        xs = [self.arr_of(x) for x in l] if l is not None else [None]
        if not xs or any(x is None or not x.dims for x in xs):
            return None
        return self.n_concatenate([a[0]], {'axis': T.ZERO if len(xs[0].dims) == 1 else T.ONE})

    def n_outer(self, a, kw):
        x, y = self.arr_of(a[0]), self.arr_of(a[1])
        if not conc(x) or not conc(y) or len(x.dims) != 1 or len(y.dims) != 1:
            return None
        return Arr((x.dims[0], y.dims[0]), {(i, j): T.vmul(x.items[(i,)], y.items[(j,)]) for i in range(x.dims[0]) for j in range(y.dims[0])})

    def n_einsum(self, a, kw):
        sp = a[0] if a and isinstance(a[0], str) else None
        if sp is None or kw:
            return None
        sp = sp.replace(' ', '')
        xs = [self.arr_of(x) for x in a[1:]]
        if any(x is None for x in xs):
            return None
        ins, eq, out = sp.partition('->')
        ins = ins.split(',')
        if len(ins) != len(xs):
            return None
        dims, full = {}, []
        ell = 0
        for s, x in zip(ins, xs):
            ell = max(ell, len(x.dims) - len(s.replace('...', '')))
        el = ['.%d' % i for i in range(ell)]
        for s, x in zip(ins, xs):
            p, dots, q = s.partition('...')
            n = len(x.dims) - len(p) - len(q)
            ls = list(p) + (el[ell - n:] if dots else []) + list(q)
            if len(ls) != len(x.dims):
                return None
            for l, d in zip(ls, x.dims):
                o = dims.setdefault(l, d)
                if o != d:
                    if o == 1 or d == 1:
                        return None
                    self.emit('shape-error', 'einsum', list(a), {})
                    return T.unknown('shape mismatch')
            full.append(ls)
        if eq:
            p, dots, q = out.partition('...')
            ol = list(p) + (el if dots else []) + list(q)
        else:
            cnt = [l for ls in full for l in ls]
            ol = el + sorted(l for l in set(cnt) if cnt.count(l) == 1 and not l.startswith('.'))
        con = [l for l in dims if l not in ol]
        if any(l not in dims for l in ol) or any(not isinstance(dims[l], int) for l in con):
            return None
        items = {}
        od = tuple(dims[l] for l in ol)
        for k in self.idxs(od):
            env = dict(zip([l for l in ol if isinstance(dims[l], int)], k))
            s = T.ZERO
            for c in self.idxs([dims[l] for l in con]):
                e = dict(env, **dict(zip(con, c)))
                t = T.ONE
                for ls, x in zip(full, xs):
                    t = T.vmul(t, x.items[tuple(e[l] for l, d in zip(ls, x.dims) if isinstance(d, int))])
                s = T.vadd(s, t)
            items[k] = s
        return Arr(od, items) if od else items[()]

    def n_tensordot(self, a, kw):
        x, y = self.arr_of(a[0]), self.arr_of(a[1])
        ax = arg(a, kw, 2, 'axes', const(2))
        if x is None or y is None:
            return None
        k = ival(ax) if isinstance(ax, R) else None
        if k is not None:
            p, q = list(range(len(x.dims) - k, len(x.dims))), list(range(k))
        else:
            l = self.as_list(ax)
            if l is None or len(l) != 2:
                return None
            p, q = self._shape(l[0]), self._shape(l[1])
            if p is None or q is None:
                return None
            p, q = [i % len(x.dims) for i in p], [i % len(y.dims) for i in q]
        L = 'abcdefghijklmnopqrstuvwxyz'
        xl = list(L[:len(x.dims)])
        yl = list(L[len(x.dims):len(x.dims) + len(y.dims)])
        for i, j in zip(p, q):
            yl[j] = xl[i]
        out = [c for i, c in enumerate(xl) if i not in p] + [c for j, c in enumerate(yl) if j not in q]
        return self.n_einsum(['%s,%s->%s' % (''.join(xl), ''.join(yl), ''.join(out)), x, y], {})

    def n_flip(self, a, kw):
        x = self._arr(a[0])
        ax = arg(a, kw, 1, 'axis')
        if not conc(x):
            return None
        axs = range(len(x.dims)) if ax is None else self._shape(ax)
        if axs is None:
            return None
        axs = {i % len(x.dims) for i in axs}
        return Arr(x.dims, {k: x.items[tuple(x.dims[i] - 1 - j if i in axs else j for i, j in enumerate(k))] for k in x.items})

    def n_prod(self, a, kw):
        x = self._arr(a[0])
        if not conc(x) or len(a) > 1 or kw:
            return None
        s = T.ONE
        for k in x.keys():
            s = T.vmul(s, x.items[k])
        return s

    def n_cumsum(self, a, kw):
        x = self._arr(a[0])
        if not conc(x) or len(x.dims) != 1 or len(a) > 1 or kw:
            return None
        out, s = {}, T.ZERO
        for i in range(x.dims[0]):
            s = T.vadd(s, x.items[(i,)])
            out[(i,)] = s
        return Arr(x.dims, out)

    def n_linalg_det(self, a, kw):
        x = self._arr(a[0])
        if x is None or x.dims[-2:] not in ((2, 2), (3, 3)) or len(x.dims) != 2:
            return None
        m = lambda i, j: x.items[(i, j)]
        if x.dims == (2, 2):
            return T.vsub(T.vmul(m(0, 0), m(1, 1)), T.vmul(m(0, 1), m(1, 0)))
        s = T.ZERO
        for c in range(3):
            i, j = (c + 1) % 3, (c + 2) % 3
            s = T.vadd(s, T.vmul(m(0, c), T.vsub(T.vmul(m(1, i), m(2, j)), T.vmul(m(1, j), m(2, i)))))
        return s


def install():
    for n, f in list(vars(NP).items()):
        if n.startswith(('n_', '_shape', '_permute', '_arr', '_mask', '_near')) and n not in ('_like', '_fshift'):
            setattr(P.Interp, n, f)


install()
