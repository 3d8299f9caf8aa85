"""Python front end: the syntax trees of batoid/*.py and name lookup over them."""
import ast, os
from .cfront import AnalysisBroken, REPO


class ClassInfo:
    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node
        self.base_exprs = node.bases
        self.methods, self.assigns = {}, {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.assigns[s.target.id] = s.value
        self.bases = []

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def find(self, name):
        """(defining class, node) of an attribute along the MRO."""
        for c in self.mro():
            if name in c.methods:
                return c, c.methods[name]
            if name in c.assigns:
                return c, c.assigns[name]
        return None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return self.name


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        try:
            self.tree = ast.parse(open(path).read(), path)
        except SyntaxError as e:
            raise AnalysisBroken('%s does not parse: %s' % (path, e))
        self.names = {}        # name -> ('func', node) | ('class', ClassInfo) | ('assign', expr) | ('import', ...)
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.names[s.name] = ('func', s)
            elif isinstance(s, ast.ClassDef):
                self.names[s.name] = ('class', ClassInfo(s.name, self, s))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ('assign', s.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.names[e.id] = ('assign_item', s.value, i)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.names[s.target.id] = ('assign', s.value)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.names[a.asname or a.name.split('.')[0]] = ('import', 0, a.name if a.asname else a.name.split('.')[0], None)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.names[a.asname or a.name] = ('import', s.level, s.module or '', a.name)
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                for h in getattr(s, 'handlers', []):
                    self._scan(h.body)
                self._scan(s.orelse)


class PyProgram:
    def __init__(self, root=None):
        root = root or os.path.join(REPO, 'batoid')
        self.root = root
        self.mods = {}
        if not os.path.isdir(root):
            raise AnalysisBroken('no package at ' + root)
        for f in sorted(os.listdir(root)):
            if f.endswith('.py') and f not in ('app.py', '_version.py'):
                n = f[:-3]
                self.mods[n] = Module(n, os.path.join(root, f))
        self.classes = {}
        for m in self.mods.values():
            for k, v in m.names.items():
                if v[0] == 'class':
                    self.classes.setdefault(k, v[1])
        for c in list(self.classes.values()):
            for b in c.base_exprs:
                if isinstance(b, ast.Name):
                    r = self.resolve(c.mod, b.id)
                    if r and r[0] == 'class':
                        c.bases.append(r[1])
                elif isinstance(b, ast.Attribute) and b.attr in self.classes:
                    c.bases.append(self.classes[b.attr])

    def resolve(self, mod, name, depth=0):
        """Follow imports to the definition: ('func', node, mod) etc."""
        if depth > 10:
            return None
        v = mod.names.get(name)
        if v is None:
            return None
        if v[0] != 'import':
            return v + (mod,)
        level, path, attr = v[1], v[2], v[3]
        return self.resolve_import(level, path, attr, depth)

    def resolve_import(self, level, path, attr, depth=0):
        if level == 0 and path.split('.')[0] == 'batoid':
            path = path[len('batoid'):].lstrip('.')
            level = 1
        if level == 0:
            return ('ext', path + ('.' + attr if attr else ''))
        if attr is None:
            if path == '' or path in self.mods:
                return ('mod', path or '__init__')
            return ('ext', 'batoid.' + path)
        if path == '':
            if attr in self.mods:
                return ('mod', attr)
            if attr == '_batoid':
                return ('ext', '_batoid')
            m = self.mods.get('__init__')
            return self.resolve(m, attr, depth + 1) if m else None
        if path == '_batoid':
            return ('ext', '_batoid.' + attr)
        m = self.mods.get(path)
        if m is None:
            return ('ext', 'batoid.%s.%s' % (path, attr))
        return self.resolve(m, attr, depth + 1)

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken('class %s is gone' % name)
        return c

    def func(self, mod, name):
        m = self.mods.get(mod)
        r = self.resolve(m, name) if m else None
        if r is None:
            r = self.resolve(self.mods['__init__'], name) if '__init__' in self.mods else None
        if r is None or r[0] != 'func':
            # moved to another module?
            for m in self.mods.values():
                v = m.names.get(name)
                if v and v[0] == 'func':
                    return v[1], m
            raise AnalysisBroken('function %s.%s is gone' % (mod, name))
        return r[1], r[2]

    def has_func(self, mod, name):
        try:
            self.func(mod, name)
        except AnalysisBroken:
            return False
        return True
