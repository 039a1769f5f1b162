"""Parses the package's current sources and resolves modules, classes, methods and imports (nothing is imported or run)."""
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'bayesian_decision_tree'


class AnchorError(Exception):
    """A public anchor of the analysis has vanished: the analysis is broken, not the property."""


class Func:
    def __init__(self, node, module, cls=None, closure=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.closure = closure          # environment of the enclosing function, if any
        self.name = getattr(node, 'name', '<lambda>')
        decs = [ast.unparse(d) for d in getattr(node, 'decorator_list', [])]
        self.is_static = 'staticmethod' in decs
        self.is_class = 'classmethod' in decs
        self.is_property = 'property' in decs or any(d.endswith('cached_property') for d in decs)
        self.is_abstract = any('abstractmethod' in d for d in decs)
        self.decorators = decs
        self.is_generator = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_walk(node))

    @property
    def qualname(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    def __repr__(self):
        return '<Func {}>'.format(self.qualname)


def own_walk(fnode):
    """All nodes of a function body without those of nested functions/classes."""
    stack = list(fnode.body) if isinstance(fnode.body, list) else [fnode.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.classvars = {}
        self.bases = []          # Class or str (external dotted name)
        self._mro = None
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = Func(st, module, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.classvars[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.classvars[st.target.id] = st.value
        # aliases  a = b  of methods in the class body
        for name, v in list(self.classvars.items()):
            if isinstance(v, ast.Name) and v.id in self.methods:
                self.methods[name] = self.methods[v.id]
                del self.classvars[name]

    def mro(self):
        if self._mro is None:
            def merge(seqs):
                out = []
                seqs = [list(s) for s in seqs if s]
                while seqs:
                    for s in seqs:
                        h = s[0]
                        if not any(h in t[1:] for t in seqs):
                            break
                    else:
                        raise AnchorError('inconsistent class hierarchy of ' + self.name)
                    out.append(h)
                    seqs = [[x for x in t if x != h] for t in seqs]
                    seqs = [t for t in seqs if t]
                return out
            self._mro = merge([[self]] + [b.mro() if isinstance(b, Class) else [b] for b in self.bases] + [list(self.bases)])
        return self._mro

    def find(self, name, after=None):
        """(Func or ast expr of class variable, owning class) along the MRO."""
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if isinstance(c, Class):
                if name in c.methods:
                    return c.methods[name], c
                if name in c.classvars:
                    return c.classvars[name], c
        return None, None

    def is_subclass(self, name):
        return any((c.name if isinstance(c, Class) else c.split('.')[-1]) == name for c in self.mro())

    def __repr__(self):
        return '<Class {}>'.format(self.name)


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, path)
        self.imports = {}        # local name -> dotted name
        self.functions = {}
        self.classes = {}
        self.assigns = {}        # module-level name -> list of value expressions
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = Func(st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(st, self)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(st, ast.ImportFrom):
                base = self.resolve_from(st)
                for a in st.names:
                    self.imports[a.asname or a.name] = base + '.' + a.name
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self.assigns.setdefault(n.id, []).append(st.value if isinstance(t, ast.Name) else None)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.assigns.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self.assigns.setdefault(st.target.id, []).append(None)
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    self._collect(getattr(st, f, []) or [])
                for h in getattr(st, 'handlers', []) or []:
                    self._collect(h.body)

    def resolve_from(self, st):
        if st.level:
            parts = self.name.split('.')
            if not self.path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            return '.'.join(parts + ([st.module] if st.module else []))
        return st.module


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnchorError('package directory {} not found'.format(root))
        for d, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.modules[rel] = Module(rel, p)
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)
        for m in self.modules.values():
            for c in m.classes.values():
                c.bases = [self._base(m, b) for b in c.node.bases]

    def _base(self, module, expr):
        r = self.resolve_dotted(module, ast.unparse(expr))
        return r

    def resolve_dotted(self, module, dotted):
        """Name as seen in module -> Class / Func / Module / external dotted string."""
        head, *rest = dotted.split('.')
        if head in module.classes and not rest:
            return module.classes[head]
        if head in module.functions and not rest:
            return module.functions[head]
        if head in module.imports:
            return self.resolve_global('.'.join([module.imports[head]] + rest))
        return dotted

    def resolve_global(self, dotted, _depth=0):
        """Absolute dotted name -> Class / Func / Module, or the dotted string itself if external."""
        if dotted in self.modules:
            return self.modules[dotted]
        parts = dotted.split('.')
        for k in range(len(parts) - 1, 0, -1):
            m = self.modules.get('.'.join(parts[:k]))
            if m is not None:
                rest = parts[k:]
                name = rest[0]
                if len(rest) == 1:
                    if name in m.classes:
                        return m.classes[name]
                    if name in m.functions:
                        return m.functions[name]
                    if name in m.imports and _depth < 10:
                        return self.resolve_global(m.imports[name], _depth + 1)
                    if name in m.assigns:
                        return (m, name)
                elif len(rest) == 2 and name in m.classes:
                    f, _ = m.classes[name].find(rest[1])
                    return f if f is not None else dotted
                elif name in m.imports and _depth < 10:
                    return self.resolve_global('.'.join([m.imports[name]] + rest[1:]), _depth + 1)
                return dotted
        return dotted

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnchorError('class {} not found'.format(name))
        return c
