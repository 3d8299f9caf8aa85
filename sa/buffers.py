"""Array provenance: element type, memory layout and ownership of every array value that the interpreter follows.

meta of an array = Meta(dtype, layout, own)
  dtype   'f8' | 'b1' | 'c16' | 'other:<name>' | 'user' (whatever the caller's array happens to be) | None (not known)
  layout  'C' | 'F' | 'CF' (contiguous, C or F order) | 'user' (whatever the caller's array happens to be) | 'view' (may have gaps) | None
  own     frozenset of allocation tokens: integers for allocations of the analysed code, names for arrays of the caller
"""
import collections
from . import terms as T
from .terms import R, V
from .pyvals import Arr, LiveArr, MArr, Tup, Ref, Cls, Ext, Prim, SliceV
from . import pyinterp as P

Meta = collections.namedtuple('Meta', 'dtype layout own')
F8 = {'float', 'float64', 'double', 'f8', '<f8', 'd', 'float_'}
B1 = {'bool', 'bool_', '?', 'b1'}
C16 = {'complex', 'complex128', 'cdouble', 'c16', 'D', 'complex_'}
ONE_D = ('C', 'F', 'CF')
UFUNC = {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctan2', 'sqrt', 'exp', 'log', 'hypot', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'square', 'abs', 'absolute',
         'add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'negative', 'conj', 'minimum', 'maximum', 'floor', 'ceil', 'sign'}
BOOLF = {'isnan', 'isfinite', 'isinf', 'logical_not', 'logical_and', 'logical_or', 'logical_xor', 'less', 'greater', 'equal', 'not_equal', 'less_equal', 'greater_equal', 'isclose'}


def user(name, *dims, dtype='user', layout='user', items=None):
    """An array of the caller: nothing is promised about type or layout unless said."""
    import itertools
    ks = itertools.product(*[range(d) for d in dims])
    return Arr(dims, items or {k: T.var('%s.%s' % (name, '.'.join(map(str, k)))) for k in ks}, Meta(dtype, layout, frozenset({name})))


def contiguous(m, dims):
    """True, False (some caller's array breaks it) or None."""
    if m is None or m.layout is None:
        return None
    if m.layout in ('C',) or len(dims) <= 1 and m.layout in ONE_D:
        return True
    return False


class TInterp(P.Interp):
    token = 0

    def fresh_own(self):
        self.token += 1
        return frozenset({self.token})

    def dt(self, v, d=None):
        """dtype named by an argument value."""
        if v is None:
            return d
        if isinstance(v, str):
            n = v
        elif isinstance(v, Ext):
            n = v.path.split('.')[-1]
        elif isinstance(v, Cls):
            n = v.info.name
        else:
            i = T.single_atom(v) if isinstance(v, R) else None
            if i is not None and T.ATOMS[i][0] == 'dtype of':
                return T.ATOMS[i][1][0]
            return None
        for s, k in ((F8, 'f8'), (B1, 'b1'), (C16, 'c16')):
            if n in s:
                return k
        return 'other:' + n

    def metas(self, v):
        """Metas of all array leaves inside a value; scalars are skipped."""
        out = []
        if isinstance(v, V):
            for _, l in T.leaves(v):
                out += self.metas(l)
        elif isinstance(v, Arr):
            out.append(v.meta)
        elif isinstance(v, Ref):
            l = self.as_list(v)
            for x in l or ():
                out += self.metas(x)
        elif isinstance(v, Tup):
            for x in v.items:
                out += self.metas(x)
        return out

    def promote(self, vals):
        ds = [m.dtype if m is not None else None for v in vals for m in self.metas(v)]
        if not ds or None in ds:
            return None
        if len(set(ds)) == 1:
            return ds[0]
        if 'c16' in ds:
            return 'c16'
        if set(ds) <= {'f8', 'b1'}:
            return 'f8'
        return None

    def korder(self, v):
        lay = {m.layout if m is not None else None for m in self.metas(v)}
        if lay == {'C'} or not lay:
            return 'C'
        return 'F' if lay == {'F'} else 'CF'

    def tag(self, r, dtype, layout, own):
        m = Meta(dtype, layout, own)

        def leaf(l):
            if isinstance(l, Arr) and type(l) is Arr:
                return Arr(l.dims, l.items, m)
            return l
        if isinstance(r, V):
            return T.vmap(leaf, r)
        return leaf(r)

    def one(self, v):
        """The single meta of a value (Meta(None...) when the leaves differ)."""
        ms = self.metas(v)
        if ms and all(m == ms[0] for m in ms):
            return ms[0] or Meta(None, None, frozenset())
        own = frozenset().union(*[m.own for m in ms if m is not None]) if ms else frozenset()
        return Meta(None, None, own)

    def call_ext(self, path, args, kw):
        r = P.Interp.call_ext(self, path, args, kw)
        if path.startswith('numpy.'):
            return self.np_meta(path[len('numpy.'):], args, kw, r)
        if path in ('copy.copy', 'copy.deepcopy') and isinstance(r, Arr):
            m = r.meta
            return self.tag(r, m.dtype if m else None, 'C', self.fresh_own())
        return r

    def n_empty_like(self, a, kw):
        if not isinstance(a[0], Arr) or set(kw) - {'dtype', 'order', 'subok'}:
            return None
        self.serial += 1
        return Arr(a[0].dims, {k: T.atom('uninitialised', (self.serial, k)) for k in a[0].items})

    def n_atleast_1d(self, a, kw):
        if len(a) == 1 and isinstance(a[0], (R, bool)):
            return Arr((1,), {(0,): a[0]})
        return P.Interp.n_atleast_1d(self, a, kw)

    def aliased(self, b, new):
        if not isinstance(b, Arr) or b.meta is None or not b.meta.own:
            return
        for i, o in list(self.heap.items()):
            for k, v in o.fields.items():
                if v is b:
                    self.wr(i).fields[k] = new

    def n_asfortranarray(self, a, kw):
        return self.n_ascontiguousarray(a, kw)

    def getattr(self, v, name, default=None, has_default=False):
        if name == 'shape' and isinstance(v, R) and 'real' in T._FLAGS[T.single_atom(v)] if isinstance(v, R) and T.single_atom(v) is not None else False:
            return Tup(())
        return P.Interp.getattr(self, v, name, default, has_default)

    def n_broadcast(self, a, kw):
        d = ()
        for x in a:
            x = self.arr_of(x)
            d = self.bdims(d, x.dims) if x is not None and d is not None else None
        return Arr(d, {k: T.ZERO for k in self.idxs(d)}) if d is not None else None

    def n_broadcast_shapes(self, a, kw):
        d = ()
        for x in a:
            q = self._shape(x)
            d = self.bdims(d, q) if q is not None and d is not None else None
        return Tup([T.const(x) for x in d]) if d is not None else None

    def n_broadcast_to(self, a, kw):
        s = self._shape(a[1] if len(a) > 1 else kw.get('shape'))
        if s is not None and (isinstance(a[0], (bool, R)) or isinstance(a[0], V) and T._is_boolean(a[0])):
            return Arr(s, {k: a[0] for k in self.idxs(s)})
        return P.Interp.n_broadcast_to(self, a, kw)

    def np_meta(self, f, args, kw, r):
        if isinstance(r, Ref):
            l = self.as_list(r)
            if l is not None and f in ('broadcast_arrays', 'meshgrid', 'atleast_1d', 'split'):
                out = []
                for i, x in enumerate(l):
                    if f == 'meshgrid':
                        out.append(self.tag(x, self.promote([args[i]]) if i < len(args) else None, 'C', self.fresh_own()))
                    else:
                        m = self.one(args[i]) if i < len(args) else Meta(None, None, frozenset())
                        out.append(self.tag(x, m.dtype, 'view' if f == 'broadcast_arrays' else m.layout, m.own or self.fresh_own()))
                return self.newlist(out)
            return r
        if f == 'polynomial.legendre.leggauss' and isinstance(r, Tup):
            return Tup([self.tag(x, 'f8', 'C', self.fresh_own()) for x in r.items])
        if not isinstance(r, (Arr, V)) or isinstance(r, V) and not all(isinstance(l, Arr) for _, l in T.leaves(r)):
            return r
        a0 = args[0] if args else None
        dt = kw.get('dtype')
        if f in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'require', 'copy'):
            if f in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray') and len(args) > 1 and dt is None:
                dt = args[1]
            order = kw.get('order', args[3] if f == 'array' and len(args) > 3 else args[2] if f == 'asarray' and len(args) > 2 else None)
            if f == 'ascontiguousarray':
                order = 'C'
            if f == 'asfortranarray':
                order = 'F'
            return self.conv(a0, r, dt, order, f in ('array', 'copy') and kw.get('copy', True) is not False and kw.get('copy', True) is not None)
        if f in ('empty', 'zeros', 'ones', 'full', 'linspace', 'eye', 'identity'):
            k = {'empty': 1, 'zeros': 1, 'ones': 1, 'full': 2, 'linspace': 99, 'eye': 99, 'identity': 1}[f]
            d = self.dt(dt if dt is not None else args[k] if len(args) > k else None, None if f == 'full' else 'f8')
            o = kw.get('order', args[k + 1] if len(args) > k + 1 else None)
            return self.tag(r, d, 'C' if o in (None, 'C') else 'F' if o == 'F' else None, self.fresh_own())
        if f in ('empty_like', 'zeros_like', 'ones_like', 'full_like'):
            k = 2 if f == 'full_like' else 1
            d = dt if dt is not None else args[k] if len(args) > k else None
            m = self.one(a0)
            o = kw.get('order', args[k + 1] if len(args) > k + 1 else 'K')
            return self.tag(r, self.dt(d) if d is not None else m.dtype, {'C': 'C', 'F': 'F', 'K': self.korder(a0)}.get(o), self.fresh_own())
        if f == 'fft.fftfreq':
            return self.tag(r, 'f8', 'C', self.fresh_own())
        if f in ('fft.fftshift', 'fft.ifftshift', 'roll'):
            return self.tag(r, self.promote([a0]), 'C', self.fresh_own())
        if f == 'arange':
            return self.tag(r, self.dt(dt) if dt is not None else None, 'C', self.fresh_own())
        if f in ('stack', 'hstack', 'vstack', 'concatenate', 'column_stack', 'outer', 'cross', 'dot', 'matmul', 'where', 'einsum', 'tensordot', 'tile', 'repeat', 'cumsum', 'sum'):
            return self.tag(r, self.dt(dt) if dt is not None else self.promote(args[1:] if f in ('where', 'einsum') else [a0] if f in ('stack', 'tile', 'repeat') else args), 'C', self.fresh_own())
        if f in ('nonzero', 'flatnonzero'):
            return r
        if f in UFUNC:
            return self.tag(r, self.promote(args), self.korder(Tup(args)), self.fresh_own())
        if f in BOOLF:
            return self.tag(r, 'b1', self.korder(Tup(args)), self.fresh_own())
        m = self.one(a0)
        if f == 'broadcast_to':
            return self.tag(r, m.dtype if self.metas(a0) else self.scalar_dt(a0), 'view', m.own or self.fresh_own())
        if f in ('ravel', 'reshape'):
            return self.tag(r, m.dtype, 'C' if f == 'ravel' or m.layout == 'C' else None, m.own | (frozenset() if m.layout == 'C' else self.fresh_own()))
        if f in ('transpose', 'moveaxis', 'swapaxes', 'rollaxis', 'squeeze', 'expand_dims', 'flip', 'atleast_1d', 'atleast_2d', 'permute_dims', 'real', 'imag'):
            return self.tag(r, m.dtype if f not in ('real', 'imag') else None, self.flipped(m.layout, r) if f in ('transpose', 'swapaxes', 'permute_dims') else m.layout if f.startswith(('atleast', 'squeeze', 'expand')) else 'view', m.own)
        return self.tag(r, None, None, frozenset())

    def scalar_dt(self, v):
        """Element type numpy gives to a bare scalar: the caller's, unless it is ours."""
        if isinstance(v, bool) or isinstance(v, V) and T._is_boolean(v):
            return 'b1'
        return None

    def flipped(self, lay, r):
        n = len(r.dims) if isinstance(r, Arr) else 2
        if n <= 1:
            return lay
        return {'C': 'F', 'F': 'C'}.get(lay, lay if n != 2 else lay)

    def conv(self, src, r, dt, order, copies):
        m = self.one(src)
        lists = not self.metas(src)
        given = self.dt(dt)
        if dt is not None:
            d = given
        elif lists:
            d = 'user' if not isinstance(src, (R, bool, V)) else self.scalar_dt(src)
        else:
            d = m.dtype if not isinstance(src, (Ref, Tup)) else self.promote([src])
        if isinstance(src, (Ref, Tup)) or lists:
            return self.tag(r, d, 'F' if order == 'F' else 'C', self.fresh_own())
        lay = {'C': 'C', 'F': 'F'}.get(order)
        if lay is None:
            if copies:
                lay = m.layout if m.layout in ONE_D else 'CF' if m.layout in ('user', 'view') else None
                if order == 'A':
                    lay = 'CF'
            else:
                lay = m.layout
        if copies:
            own = self.fresh_own()
        else:
            n = max((len(l.dims) for _, l in T.leaves(src) if isinstance(l, Arr)), default=1) if isinstance(src, V) else len(src.dims)
            same = (d == m.dtype or dt is None) and (lay == m.layout or n <= 1 and m.layout in ONE_D)
            may = d == m.dtype or 'user' in (m.dtype, d) or None in (m.dtype, d)
            own = m.own if same else (m.own | self.fresh_own()) if may else self.fresh_own()
        return self.tag(r, d, lay, own)

    def arr_method(self, a, name, args, kw):
        r = P.Interp.arr_method(self, a, name, args, kw)
        if not isinstance(r, Arr) or a.meta is None:
            return r
        m = a.meta
        if name == 'copy':
            o = kw.get('order', args[0] if args else 'C')
            return self.tag(r, m.dtype, {'C': 'C', 'F': 'F'}.get(o, 'CF'), self.fresh_own())
        if name == 'flatten':
            return self.tag(r, m.dtype, 'C', self.fresh_own())
        if name == 'ravel':
            return self.tag(r, m.dtype, 'C', m.own | (frozenset() if m.layout == 'C' else self.fresh_own()))
        if name == 'reshape':
            return self.tag(r, m.dtype, 'C' if m.layout == 'C' else None, m.own | (frozenset() if m.layout == 'C' else self.fresh_own()))
        if name == 'astype':
            d = self.dt(args[0] if args else kw.get('dtype'))
            o = kw.get('order', args[1] if len(args) > 1 else 'K')
            c = kw.get('copy', True) is True
            return self.tag(r, d, {'C': 'C', 'F': 'F', 'K': self.korder(a)}.get(o) if c or o in ('C', 'F') else m.layout, self.fresh_own() if c else m.own | self.fresh_own())
        if name in ('transpose', 'squeeze'):
            return self.tag(r, m.dtype, self.flipped(m.layout, r) if name == 'transpose' else m.layout, m.own)
        if name in ('dot', 'sum', 'mean', 'max', 'min', 'conj', 'conjugate', 'any', 'all'):
            return self.tag(r, self.promote([a] + list(args)) if name != 'mean' else None, 'C', self.fresh_own())
        return self.tag(r, None, None, m.own)

    def arr_attr(self, a, name):
        if name == 'dtype' and a.meta is not None and a.meta.dtype is not None:
            return T.atom('dtype of', (a.meta.dtype,))
        if name == 'flat':
            return self.tag(P.Interp.arr_method(self, a, 'ravel', [], {}), a.meta.dtype if a.meta else None, 'view', a.meta.own if a.meta else frozenset())
        r = P.Interp.arr_attr(self, a, name)
        if isinstance(r, Arr) and a.meta is not None:
            if name == 'T':
                return self.tag(r, a.meta.dtype, self.flipped(a.meta.layout, r), a.meta.own)
            return self.tag(r, None, 'view', a.meta.own)
        return r

    def arr_op(self, op, a, b):
        r = P.Interp.arr_op(self, op, a, b)
        return self.tag(r, self.promote([a, b]), self.korder(Tup([a, b])), self.fresh_own()) if isinstance(r, Arr) else r

    def arr_compare(self, op, x, y):
        r = P.Interp.arr_compare(self, op, x, y)
        return self.tag(r, 'b1', 'C', self.fresh_own()) if isinstance(r, Arr) else r

    def invert(self, v):
        r = P.Interp.invert(self, v)
        return self.tag(r, v.meta.dtype if v.meta else None, self.korder(v), self.fresh_own()) if isinstance(r, Arr) and isinstance(v, Arr) else r

    def unary(self, v, f):
        r = P.Interp.unary(self, v, f)
        return self.tag(r, self.promote([v]), self.korder(v), self.fresh_own()) if isinstance(r, Arr) else r

    def inplace(self, op, old, val):
        r = P.Interp.inplace(self, op, old, val)
        if isinstance(old, Arr) and isinstance(r, Arr):
            return Arr(r.dims, r.items, old.meta)
        return r

    def arr_get(self, a, ix):
        r = P.Interp.arr_get(self, a, ix)
        if not isinstance(r, Arr) or a.meta is None:
            return r
        m = a.meta
        if any(isinstance(x, (Arr, Ref)) for x in ix):
            return self.tag(r, m.dtype, 'C', self.fresh_own())
        full = lambda x: isinstance(x, SliceV) and all(q is None for q in (x.a, x.b, x.c))
        rest = list(ix[1:])
        if m.layout == 'C' and all(full(x) for x in rest) and (not isinstance(ix[0], SliceV) or ix[0].c is None) or not ix:
            return self.tag(r, m.dtype, 'C', m.own)
        if m.layout == 'user' and all(full(x) for x in ix):
            return self.tag(r, m.dtype, 'user', m.own)
        return self.tag(r, m.dtype, 'view', m.own)

    def arr_set(self, a, i, v):
        r = P.Interp.arr_set(self, a, i, v)
        return Arr(r.dims, r.items, a.meta) if isinstance(r, Arr) and type(r) is Arr else r

    def elementwise(self, v, f):
        r = P.Interp.elementwise(self, v, f)
        return self.tag(r, self.promote([v]), self.korder(v), self.fresh_own()) if isinstance(r, Arr) else r


def tinterp(ctx, **kw):
    ip = TInterp(ctx.py, **kw)
    ip.frame = ip.alloc('frame')
    ip.mod = ctx.py.mods['__init__']
    return ip
