"""Leaf values of the Python side of the analysis (see terms.py for the gated value domain)."""
from . import terms as T


class Ref:
    """Reference to an abstract heap object."""
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))

    def __repr__(self):
        return '&%d' % self.id

    def truth(self):
        return True


class DictView(Ref):
    """obj.__dict__"""
    __slots__ = ()

    def __repr__(self):
        return '&%d.__dict__' % self.id

    def __eq__(self, o):
        return isinstance(o, DictView) and o.id == self.id

    def __hash__(self):
        return hash(('dictview', self.id))


class Tup:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and len(o.items) == len(self.items) and all(T.veq(a, b) for a, b in zip(self.items, o.items))

    def __hash__(self):
        return hash(('tup', len(self.items)))

    def __repr__(self):
        return '(' + ', '.join(T.show(x) for x in self.items) + ')'

    def sub_values(self):
        return self.items

    def rebuild(self, vals):
        return Tup(vals)

    def truth(self):
        return bool(self.items)


class Str:
    """Concatenation of literal text and abstract pieces."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, Str) and len(o.parts) == len(self.parts) and all(T.leaf_eq(a, b) for a, b in zip(self.parts, o.parts))

    def __hash__(self):
        return hash(('str', len(self.parts)))

    def __repr__(self):
        return 's"' + ''.join(p if isinstance(p, str) else '<' + T.show(p) + '>' for p in self.parts) + '"'

    def sub_values(self):
        return self.parts

    def rebuild(self, vals):
        return mkstr(vals)

    def truth(self):
        return True


class Sym:
    """An abstract non-empty piece of text without dots (a name)."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name

    def __hash__(self):
        return hash(('sym', self.name))

    def __repr__(self):
        return self.name


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, Str):
            ps = p.parts
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != '' or not isinstance(q, str):
                out.append(q)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Str(out)


class Arr:
    """Numeric array: dims mixes concrete sizes and symbolic axes ('N'); items
    maps index tuples over the concrete axes to scalar values."""
    __slots__ = ('dims', 'items', 'meta')

    def __init__(self, dims, items, meta=None):
        self.dims, self.items, self.meta = tuple(dims), items, meta

    def keys(self):
        return sorted(self.items)

    def __eq__(self, o):
        return isinstance(o, Arr) and self.dims == o.dims and self.meta == o.meta and all(T.veq(self.items[k], o.items[k]) for k in self.items)

    def __hash__(self):
        return hash(('arr', self.dims))

    def __repr__(self):
        return 'arr%s[%s]' % (self.dims, ', '.join(T.show(self.items[k]) for k in self.keys()))

    def sub_values(self):
        return [self.items[k] for k in self.keys()]

    def rebuild(self, vals):
        return Arr(self.dims, dict(zip(self.keys(), vals)), self.meta)

    def truth(self):
        return T.bool_atom('truthy', self)


class LiveArr(Arr):
    """An array that is the storage of field `name` of object `ref` (not a copy of it)."""
    __slots__ = ('ref', 'name')

    def __init__(self, dims, items, ref, name):
        Arr.__init__(self, dims, items)
        self.ref, self.name = ref, name

    def rebuild(self, vals):
        return LiveArr(self.dims, dict(zip(self.keys(), vals)), self.ref, self.name)


class MArr(Arr):
    """A masked array of known mask."""
    __slots__ = ('mask',)

    def __init__(self, dims, items, mask):
        Arr.__init__(self, dims, items)
        self.mask = mask

    def rebuild(self, vals):
        return MArr(self.dims, dict(zip(self.keys(), vals)), self.mask)


class _Missing:
    def __repr__(self):
        return '<missing>'

    def truth(self):
        return False


MISSING = _Missing()


class SliceV:
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __eq__(self, o):
        return isinstance(o, SliceV) and all(T.veq(x, y) for x, y in zip(self.sub_values(), o.sub_values()))

    def __hash__(self):
        return hash('slice')

    def sub_values(self):
        return (self.a, self.b, self.c)

    def rebuild(self, v):
        return SliceV(*v)

    def __repr__(self):
        return '%s:%s:%s' % tuple(T.show(x) for x in self.sub_values())


class Fn:
    """A function of the analysed program."""

    def __init__(self, node, mod, cls=None, frame=None, defaults=None, kwdefaults=None, kind=None):
        self.node, self.mod, self.cls, self.frame, self.kind = node, mod, cls, frame, kind
        self.defaults, self.kwdefaults = defaults, kwdefaults

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    def _k(self):
        return (id(self.node), self.frame)

    def __eq__(self, o):
        return isinstance(o, Fn) and o._k() == self._k()

    def __hash__(self):
        return hash(self._k())

    def __repr__(self):
        return '%s%s' % (self.cls.name + '.' if self.cls else '', self.name)

    def truth(self):
        return True


class Bound:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj

    def __eq__(self, o):
        return isinstance(o, Bound) and o.fn == self.fn and T.veq(o.obj, self.obj)

    def __hash__(self):
        return hash(('bound', self.fn))

    def __repr__(self):
        return '%r.%r' % (self.obj, self.fn)

    def truth(self):
        return True


class Cls:
    def __init__(self, info):
        self.info = info

    def __eq__(self, o):
        return isinstance(o, Cls) and o.info is self.info

    def __hash__(self):
        return hash(('cls', id(self.info)))

    def __repr__(self):
        return '<class %s>' % self.info.name

    def truth(self):
        return True


class Ext:
    """A name outside the analysed package (module, function or class)."""

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(('ext', self.path))

    def __repr__(self):
        return self.path

    def truth(self):
        return True


class Mod:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Mod) and o.name == self.name

    def __hash__(self):
        return hash(('mod', self.name))

    def __repr__(self):
        return '<module %s>' % self.name

    def truth(self):
        return True


class Prim:
    """Bound primitive method of a list / dict / string / tuple / array value."""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __eq__(self, o):
        return isinstance(o, Prim) and o.name == self.name and T.veq(o.recv, self.recv)

    def __hash__(self):
        return hash(('prim', self.name))

    def __repr__(self):
        return '%s.%s' % (T.show(self.recv), self.name)

    def truth(self):
        return True


def constrain(f, c):
    """Simplify f to a value agreeing with it wherever c holds (c is not False)."""
    if c is True or not isinstance(f, T.V) or not isinstance(c, T.V):
        return f
    memo = {}

    def go(f, c):
        if c is True or not isinstance(f, T.V) or c is False:
            return f
        k = (id(f), id(c))
        if k in memo:
            return memo[k][0]
        t = min(f.c, c.c)
        fh, fl = T.cof(f, t, True), T.cof(f, t, False)
        ch, cl = T.cof(c, t, True), T.cof(c, t, False)
        if ch is False:
            r = go(fl, cl)
        elif cl is False:
            r = go(fh, ch)
        elif f.c != t:
            # t constrains only c: keep f free of t
            r = go(f, T.vor(ch, cl))
        else:
            r = T.node(t, go(fh, ch), go(fl, cl))
        memo[k] = (r, f, c)
        return r
    return go(f, c)
