"""C++ front end: clang's type-checked AST (JSON) of the repository's own translation units."""
import json, os, re, subprocess, glob, sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('SA_REPO', '/repo')


class AnalysisBroken(Exception):
    """The analysis cannot see what it must see (vanished anchor, unparsable unit)."""


def clang():
    for c in ('clang++-18', 'clang++'):
        for d in os.environ.get('PATH', '').split(':') + ['/usr/bin', '/usr/local/bin']:
            if os.access(os.path.join(d, c), os.X_OK):
                return os.path.join(d, c)
    raise AnalysisBroken('clang++ not found')


_pyinc = None


def py_includes():
    global _pyinc
    if _pyinc is None:
        inc = []
        for pat in ('/opt/venv/lib/python3*/site-packages/pybind11/include',):
            inc += glob.glob(pat)
        for pat in ('/usr/include/python3.1[0-9]', '/opt/venv/include/python3*'):
            inc += sorted(glob.glob(pat))[-1:]
        _pyinc = inc
    return _pyinc


def dump(path, gpu=False, bindings=False, std='c++14', repo=None):
    repo = repo or REPO
    cmd = [clang(), '-std=' + std, '-fsyntax-only', '-w', '-fopenmp', '-I' + os.path.join(repo, 'include'),
           '-I' + os.path.join(os.path.dirname(__file__), 'stubs')]
    if bindings:
        for i in py_includes():
            cmd += ['-isystem', i]
    if gpu:
        cmd += ['-DBATOID_GPU']
    cmd += ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=batoid', path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=repo)
    if p.returncode:
        raise AnalysisBroken('clang cannot parse %s: %s' % (path, p.stderr.decode(errors='replace')[:2000]))
    s = p.stdout.decode()
    dec = json.JSONDecoder()
    docs = []
    i = 0
    n = len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        d, i = dec.raw_decode(s, i)
        docs.append(d)
    return docs


class Unit:
    def __init__(self, path, docs):
        self.path = path
        self.docs = docs
        self.by_id = {}
        self.parent = {}
        self.text = {}
        cur = {'file': path, 'line': 1}
        for d in docs:
            self._walk(d, None, cur)

    def _loc(self, l, cur):
        if not l:
            return None
        if 'expansionLoc' in l or 'spellingLoc' in l:
            # printed in order spelling, expansion
            self._loc(l.get('spellingLoc'), cur)
            return self._loc(l.get('expansionLoc'), cur)
        if 'file' in l:
            cur['file'] = l['file']
        if 'line' in l:
            cur['line'] = l['line']
        if 'offset' in l:
            return (cur['file'], cur['line'], l['offset'], l.get('tokLen', 0))
        return None

    def _walk(self, n, parent, cur):
        if not isinstance(n, dict):
            return
        if 'loc' in n:
            n['_loc'] = self._loc(n['loc'], cur)
        r = n.get('range')
        if r:
            n['_beg'] = self._loc(r.get('begin'), cur)
            n['_end'] = self._loc(r.get('end'), cur)
        i = n.get('id')
        if i and n.get('kind', '').endswith('Decl'):
            self.by_id.setdefault(i, n)
            n['_parent'] = parent
        n['_unit'] = self
        for c in n.get('inner', ()):
            self._walk(c, n, cur)

    def src(self, file):
        if file not in self.text:
            try:
                self.text[file] = open(file, 'rb').read()
            except OSError:
                self.text[file] = b''
        return self.text[file]

    def snippet(self, n):
        b, e = n.get('_beg'), n.get('_end')
        if not b or not e or b[0] != e[0]:
            return ''
        return self.src(b[0])[b[2]:e[2] + e[3]].decode(errors='replace')


def line_of(n):
    for k in ('_beg', '_loc'):
        if n.get(k):
            f = n[k][0]
            try:
                f = os.path.relpath(f, REPO)
            except ValueError:
                pass
            return '%s:%d' % (f, n[k][1])
    return '?'


def body_of(fn):
    for c in fn.get('inner', ()):
        if c.get('kind') == 'CompoundStmt':
            return c
    return None


def params_of(fn):
    return [c for c in fn.get('inner', ()) if c.get('kind') == 'ParmVarDecl']


FUNCS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


class Program:
    """Whole-program index over the listed units."""

    def __init__(self, paths, gpu=False, bindings=False, repo=None):
        self.repo = repo or REPO
        self.units = []
        self.defs = {}        # mangled name -> function node with a body
        self.decls = {}       # mangled name -> some declaration
        self.records = {}     # class name -> record decl node with a definition
        self.qname = {}       # mangled -> qualified name
        self.access = {}      # mangled name of a member -> access
        self.files = {}       # mangled name -> files with a declaration
        with ThreadPoolExecutor(max_workers=8) as ex:
            docs = list(ex.map(lambda p: dump(p, gpu, bindings, repo=self.repo), paths))
        for p, d in zip(paths, docs):
            u = Unit(p, d)
            self.units.append(u)
            for n in u.docs:
                self._index(n, u, [])

    def _index(self, n, u, ctx):
        k = n.get('kind', '')
        if k in ('NamespaceDecl', 'LinkageSpecDecl', 'ClassTemplateDecl'):
            for c in n.get('inner', ()):
                self._index(c, u, ctx)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            if n.get('completeDefinition') or n.get('inner'):
                name = n.get('name')
                if name and n.get('completeDefinition'):
                    key = name
                    if k == 'ClassTemplateSpecializationDecl':
                        arg = [a.get('type', {}).get('qualType') for a in n.get('inner', ())
                               if a.get('kind') == 'TemplateArgument']
                        key = '%s<%s>' % (name, ','.join(str(a) for a in arg))
                    n['_cls'] = key
                    self.records.setdefault(key, n)
                acc = 'private' if n.get('tagUsed') == 'class' else 'public'
                for c in n.get('inner', ()):
                    if isinstance(c, dict):
                        if c.get('kind') == 'AccessSpecDecl':
                            acc = c.get('access', acc)
                        c['_clsname'] = n.get('_cls') or name
                        if c.get('kind') in FUNCS:
                            self.access.setdefault(c.get('mangledName') or c.get('name'), acc)
                        self._index(c, u, ctx + [name])
            return
        if k == 'FunctionTemplateDecl':
            for c in n.get('inner', ()):
                if c.get('kind') in FUNCS:
                    self._index(c, u, ctx)
            return
        if k in FUNCS:
            m = n.get('mangledName') or n.get('name')
            self.decls.setdefault(m, n)
            b = n.get('_loc') or n.get('_beg')
            if b:
                self.files.setdefault(m, set()).add(b[0])
            cls = n.get('_clsname')
            if not cls and n.get('parentDeclContextId'):
                pd = u.by_id.get(n['parentDeclContextId'])
                if pd:
                    cls = pd.get('_cls') or pd.get('name')
            n['_clsname'] = cls
            if body_of(n) is not None and n['_unit'] is u:
                self.defs.setdefault(m, n)
            self.qname.setdefault(m, (cls + '::' if cls else '') + (n.get('name') or ''))

    def callable_from_outside(self, m):
        """Declared in a header and, for a member, public."""
        return self.access.get(m, 'public') == 'public' and any(f.endswith(('.h', '.hpp')) for f in self.files.get(m, ()))

    # ---- lookups
    def funcs(self, qual):
        """All definitions whose qualified name is `qual`."""
        return [n for m, n in self.defs.items() if self.qname.get(m) == qual]

    def func(self, qual):
        f = self.funcs(qual)
        if len(f) != 1:
            raise AnalysisBroken('expected exactly one definition of %s, found %d' % (qual, len(f)))
        return f[0]

    def ctor(self, cls):
        f = [n for n in self.defs.values() if n['kind'] == 'CXXConstructorDecl' and n.get('_clsname') == cls
             and not n.get('isImplicit') and params_are_value(n)]
        return f

    def bases(self, cls):
        r = self.records.get(cls)
        if not r:
            return []
        out = []
        for b in r.get('bases', ()):
            t = b['type'].get('desugaredQualType') or b['type']['qualType']
            out.append(t.replace('batoid::', ''))
        return out

    def fields(self, cls):
        r = self.records.get(cls)
        return [c for c in (r.get('inner', ()) if r else ()) if c.get('kind') == 'FieldDecl']

    def all_fields(self, cls):
        out = []
        for b in self.bases(cls):
            out += self.all_fields(b)
        return out + self.fields(cls)

    def method(self, cls, name):
        """Definition found by member lookup starting at cls (most derived first)."""
        for m, n in self.defs.items():
            if n.get('_clsname') == cls and n.get('name') == name and n['kind'] == 'CXXMethodDecl':
                return n
        for b in self.bases(cls):
            r = self.method(b, name)
            if r is not None:
                return r
        return None

    def subclasses(self, cls):
        out = []
        for c in self.records:
            todo = self.bases(c)
            while todo:
                b = todo.pop()
                if b == cls:
                    out.append(c)
                    break
                todo += self.bases(b)
        return out


def params_are_value(n):
    # skip implicit copy/move constructors
    ps = params_of(n)
    if len(ps) == 1:
        t = ps[0].get('type', {}).get('qualType', '')
        if t.endswith('&') and n.get('_clsname', '?') in t:
            return False
    return True


def src_units(repo=None):
    repo = repo or REPO
    return sorted(glob.glob(os.path.join(repo, 'src', '*.cpp')))


def binding_units(repo=None):
    repo = repo or REPO
    return sorted(glob.glob(os.path.join(repo, 'pysrc', '*.cpp')))
