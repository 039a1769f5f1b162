"""C27: the example programs against the interface of the package: imports, constructor calls, method calls and attribute reads (type flow over the examples' sources)."""
import ast
import os

from .contexts import TREES
from .loader import PKG, AnchorError, Class, Func, Module
from .registry import contexts, guarded, rule

SKLEARN = {'get_params', 'set_params', 'score', 'get_metadata_routing', 'set_fit_request', 'set_predict_request', 'set_score_request', '_get_tags', '_more_tags', '_estimator_type', '_repr_html_'}
OBJECT = {'__class__', '__dict__', '__doc__', '__module__', '__eq__', '__hash__', '__init__', '__repr__', '__str__'}
ANY = 'any'


def sources(P):
    d = os.path.join(P.repo, 'examples')
    out = []
    if os.path.isdir(d):
        for base, dirs, files in sorted(os.walk(d)):
            dirs[:] = sorted(x for x in dirs if not x.startswith(('.', '__')))
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(base, f)
                    rel = os.path.relpath(p, P.repo)[:-3].replace(os.sep, '.')
                    try:
                        out.append(Module(rel[:-9] if rel.endswith('.__init__') else rel, p))
                    except SyntaxError as ex:
                        out.append((os.path.relpath(p, P.repo), ex))
    return out


def bind(f, call, bound):
    """None: accepted; text: why the call does not fit the signature; False: not decidable (star arguments)"""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound and not f.is_static and pos:
        pos = pos[1:]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return False
    if len(call.args) > len(pos) and a.vararg is None:
        return '{} positional arguments, {} accepted'.format(len(call.args), len(pos))
    given = set(pos[:len(call.args)])
    kwonly = [x.arg for x in a.kwonlyargs]
    for k in call.keywords:
        if k.arg in given:
            return 'argument {} given twice'.format(k.arg)
        if k.arg in pos and k.arg not in [x.arg for x in a.posonlyargs] or k.arg in kwonly:
            given.add(k.arg)
        elif a.kwarg is None:
            return 'unknown argument {}'.format(k.arg)
    need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
    need += [x for x, d in zip(kwonly, a.kw_defaults) if d is None]
    miss = [x for x in need if x not in given]
    if miss:
        return 'argument {} missing'.format(miss[0])
    return None


def stored_attrs(P):
    """attribute names that the package stores on objects"""
    out = set()
    for m in P.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                out.add('*')
    return out


def members(P, cls, stored):
    """names that objects of cls have, None: not enumerable"""
    names = set(OBJECT)
    for c in cls.mro():
        if isinstance(c, Class):
            if '__getattr__' in c.methods or '__getattribute__' in c.methods:
                return None
            names |= set(c.methods) | set(c.classvars)
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    names.add(n.attr)
        elif c.split('.')[0] == 'sklearn':
            names |= SKLEARN
        elif c.split('.')[-1] not in ('ABC', 'object', 'Generic', 'Protocol'):
            return None
    if '*' in stored:
        return None
    return names


class Flow:
    """flow-insensitive types of the variables of one example module, function parameters joined over the calls"""
    def __init__(self, R, P, mods):
        self.R, self.P = R, P
        self.mods = {m.name: m for m in mods}
        self.types = {}                                   # (scope id, name) -> set of Class / ANY
        self.stored = stored_attrs(P)
        self.seen = {}
        self.child = {}
        self.changed = True
        self.report = False

    def child_attrs(self, cls):
        if cls.name not in self.child:
            try:
                self.child[cls.name] = set(contexts().child_attrs(cls.name)) if cls.name in TREES else set()
            except Exception:
                self.child[cls.name] = set()
        return self.child[cls.name]

    def run(self):
        rounds = 0
        while self.changed and rounds < 30:
            self.changed = False
            rounds += 1
            for m in self.mods.values():
                self.scope(m, m.tree.body, ())
        self.report = True
        for m in self.mods.values():
            self.scope(m, m.tree.body, ())

    def put(self, key, ts):
        old = self.types.setdefault(key, set())
        if not ts <= old:
            old |= ts
            self.changed = True

    def scope(self, m, body, env):
        sid = (m.name,) + tuple(env)
        for s in body:
            self.stmt(m, s, sid)

    def stmt(self, m, s, sid):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fid = sid + (s.name,)
            for n in s.args.posonlyargs + s.args.args + s.args.kwonlyargs:
                self.types.setdefault((fid, n.arg), set())
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                self.expr(m, d, sid)
            for x in s.body:
                self.stmt(m, x, fid)
            return
        if isinstance(s, ast.ClassDef):
            for x in s.body:
                self.stmt(m, x, sid + (s.name,))
            return
        if isinstance(s, ast.ImportFrom) and self.report:
            base = m.resolve_from(s) if s.level else s.module
            if base and base.split('.')[0] == PKG:
                for a in s.names:
                    self.imported(m, s, base, a.name)
            return
        if isinstance(s, ast.Import) and self.report:
            for a in s.names:
                if a.name.split('.')[0] == PKG:
                    ok = a.name in self.P.modules
                    self.R.fact('{}: import {}'.format(m.name, a.name), ok, (m.rel, s.lineno), '' if ok else 'no such module')
            return
        if isinstance(s, ast.Assign):
            t = self.expr(m, s.value, sid)
            for x in s.targets:
                self.target(m, x, t, sid)
            return
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            self.target(m, s.target, self.expr(m, s.value, sid), sid)
            return
        if isinstance(s, (ast.For, ast.AsyncFor)):
            t = self.expr(m, s.iter, sid)
            self.target(m, s.target, t if isinstance(s.iter, (ast.List, ast.Tuple)) else {ANY}, sid)
            for x in s.body + s.orelse:
                self.stmt(m, x, sid)
            return
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                t = self.expr(m, it.context_expr, sid)
                if it.optional_vars is not None:
                    self.target(m, it.optional_vars, {ANY}, sid)
            for x in s.body:
                self.stmt(m, x, sid)
            return
        for ch in ast.iter_child_nodes(s):
            if isinstance(ch, ast.expr):
                self.expr(m, ch, sid)
            elif isinstance(ch, ast.stmt):
                self.stmt(m, ch, sid)
            elif isinstance(ch, ast.ExceptHandler):
                for x in ch.body:
                    self.stmt(m, x, sid)

    def imported(self, m, s, base, name):
        P = self.P
        what = '{}: from {} import {}'.format(m.name, base, name)
        mod = P.modules.get(base)
        if mod is None:
            return self.R.fact(what, False, (m.rel, s.lineno), 'no module ' + base)
        if name == '*':
            return self.R.fact(what, True, (m.rel, s.lineno))
        ok = name in mod.classes or name in mod.functions or name in mod.assigns or name in mod.imports or base + '.' + name in P.modules
        if not ok and '__getattr__' in mod.functions:
            ok = None
        if ok is False and any(isinstance(x, ast.ImportFrom) and any(a.name == '*' for a in x.names) for x in mod.tree.body):
            ok = None
        self.R.fact(what, ok, (m.rel, s.lineno), '' if ok else 'no such name in ' + base)

    def target(self, m, x, t, sid):
        if isinstance(x, ast.Name):
            self.put((sid, x.id), t)
        elif isinstance(x, (ast.Tuple, ast.List)):
            for y in x.elts:
                self.target(m, y, {ANY}, sid)
        else:
            for ch in ast.iter_child_nodes(x):
                if isinstance(ch, ast.expr):
                    self.expr(m, ch, sid)

    def resolve(self, m, e):
        """Class / Func / Module that a dotted expression names, through imports of the package and of example modules"""
        try:
            d = ast.unparse(e)
        except Exception:
            return None
        if not all(p.isidentifier() for p in d.split('.')):
            return None
        r = self.P.resolve_dotted(m, d)
        if isinstance(r, (Class, Func, Module)):
            return r
        if isinstance(r, str):
            parts = r.split('.')
            for k in range(len(parts), 0, -1):
                x = self.mods.get('.'.join(parts[:k]))
                if x is not None:
                    if k == len(parts):
                        return x
                    if k == len(parts) - 1:
                        return x.functions.get(parts[-1]) or x.classes.get(parts[-1]) or self.P_name(x, parts[-1])
        return None

    def P_name(self, x, name):
        if name in x.imports:
            r = self.P.resolve_global(x.imports[name])
            return r if isinstance(r, (Class, Func, Module)) else None
        return None

    def lookup(self, sid, name):
        while True:
            if (sid, name) in self.types:
                return self.types[(sid, name)]
            if len(sid) <= 1:
                return None
            sid = sid[:-1]

    def expr(self, m, e, sid):
        """types of e"""
        if isinstance(e, ast.Name):
            t = self.lookup(sid, e.id)
            return set(t) if t is not None else {ANY}
        if isinstance(e, ast.IfExp):
            self.expr(m, e.test, sid)
            return self.expr(m, e.body, sid) | self.expr(m, e.orelse, sid)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.expr(m, v, sid)
            return out
        if isinstance(e, ast.Attribute):
            return self.attribute(m, e, sid)
        if isinstance(e, ast.Call):
            return self.call(m, e, sid)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = set()
            for v in e.elts:
                out |= self.expr(m, v, sid)
            return out | ({ANY} if not e.elts else set())
        if isinstance(e, ast.Lambda):
            self.expr(m, e.body, sid)
            return {ANY}
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.expr(m, ch, sid)
            elif isinstance(ch, ast.comprehension):
                t = self.expr(m, ch.iter, sid)
                self.target(m, ch.target, t if isinstance(ch.iter, (ast.List, ast.Tuple)) else {ANY}, sid)
                for c in ch.ifs:
                    self.expr(m, c, sid)
            elif isinstance(ch, ast.keyword):
                self.expr(m, ch.value, sid)
        return {ANY}

    def attribute(self, m, e, sid):
        r = self.resolve(m, e)
        if r is not None:
            return {ANY}
        owner = self.resolve(m, e.value)
        if isinstance(owner, Module) and owner.name in self.P.modules and self.report:
            ok = e.attr in owner.assigns or e.attr in owner.imports
            self.R.fact('{}: {}'.format(m.name, ast.unparse(e)), ok, (m.rel, e.lineno), '' if ok else 'no such name in ' + owner.name)
            return {ANY}
        ts = self.expr(m, e.value, sid)
        out = set()
        for t in ts:
            if not isinstance(t, Class):
                out.add(ANY)
                continue
            names = members(self.P, t, self.stored)
            if self.report and t.module.name in self.P.modules:
                ok = True if names is None or e.attr in names else False
                if ok is False and ANY in ts:
                    ok = None
                self.R.fact('{}:{}: {}.{}'.format(m.name, self.fn(sid), t.name, e.attr), ok, (m.rel, e.lineno), '' if ok else '{} has no attribute {}'.format(t.name, e.attr))
            out.add(t if e.attr in self.child_attrs(t) else ANY)
        return out or {ANY}

    def fn(self, sid):
        return '.'.join(sid[1:]) or 'main'

    def call(self, m, e, sid):
        args = [self.expr(m, a.value if isinstance(a, ast.Starred) else a, sid) for a in e.args]
        kws = {k.arg: self.expr(m, k.value, sid) for k in e.keywords}
        f = e.func
        r = self.resolve(m, f) if isinstance(f, (ast.Name, ast.Attribute)) and (not isinstance(f, ast.Name) or self.lookup(sid, f.id) is None) else None
        if isinstance(r, Class):
            if self.report and r.module.name in self.P.modules:
                self.construct(m, e, r, sid)
            return {r}
        if isinstance(r, Func):
            if r.module.name in self.P.modules:
                if self.report:
                    self.judge('{}:{}: call of {}'.format(m.name, self.fn(sid), r.qualname), bind(r, e, False), (m.rel, e.lineno))
            else:
                self.pass_on(r, args, kws)
            return {ANY}
        if isinstance(f, ast.Name):
            # local function of an enclosing scope
            k = sid
            while True:
                fid = k + (f.id,)
                if any(x[0] == fid for x in self.types):
                    node = self.find_def(m, fid)
                    if node is not None:
                        self.pass_on_node(node, fid, args, kws)
                    break
                if len(k) <= 1:
                    break
                k = k[:-1]
            return {ANY}
        if isinstance(f, ast.Attribute):
            ts = self.expr(m, f.value, sid)
            self.attribute(m, f, sid)
            out = set()
            for t in ts:
                if isinstance(t, Class):
                    g, owner = t.find(f.attr)
                    if isinstance(g, Func) and self.report and g.module.name in self.P.modules and not g.is_property:
                        self.judge('{}:{}: call of {}.{}'.format(m.name, self.fn(sid), t.name, f.attr), bind(g, e, True), (m.rel, e.lineno))
                    if isinstance(g, Func) and f.attr in ('fit', 'set_params'):
                        out.add(t)
                        continue
                out.add(ANY)
            return out or {ANY}
        self.expr(m, f, sid)
        return {ANY}

    def find_def(self, m, fid):
        body = m.tree.body
        node = None
        for name in fid[1:]:
            node = next((x for s in body for x in ast.walk(s) if isinstance(x, ast.FunctionDef) and x.name == name), None)
            if node is None:
                return None
            body = node.body
        return node

    def pass_on(self, f, args, kws):
        self.pass_on_node(f.node, (f.module.name, f.name), args, kws)

    def pass_on_node(self, node, fid, args, kws):
        ps = [a.arg for a in node.args.posonlyargs + node.args.args]
        for p, t in zip(ps, args):
            self.put((fid, p), {x for x in t if isinstance(x, Class)} or set())
        for k, t in kws.items():
            if k in ps:
                self.put((fid, k), {x for x in t if isinstance(x, Class)})

    def judge(self, name, b, where):
        self.R.fact(name, True if b is None else None if b is False else False, where, b or '')

    def construct(self, m, e, cls, sid):
        name = '{}:{}: construction of {}'.format(m.name, self.fn(sid), cls.name)
        w = (m.rel, e.lineno)
        todo = {}
        for c in reversed([x for x in cls.mro() if isinstance(x, Class)]):
            for n, f in c.methods.items():
                todo[n] = f.is_abstract
        left = sorted(n for n, a in todo.items() if a)
        abc = any(not isinstance(c, Class) and c.split('.')[-1] in ('ABC', 'ABCMeta') for c in cls.mro())
        if left and abc:
            return self.R.fact(name, False, w, 'abstract: {}'.format(left[0]))
        f, owner = cls.find('__init__')
        if not isinstance(f, Func):
            ext = [c for c in cls.mro() if not isinstance(c, Class) and c.split('.')[-1] not in ('ABC', 'object')]
            return self.judge(name, None if not e.args and not e.keywords else False if ext else 'no arguments accepted', w)
        self.judge(name, bind(f, e, True), w)


@rule('C27')
def examples(R, tier):
    C = contexts()
    R.rules.append('every import of the package in examples/, every construction, method call and attribute read on objects of its classes (followed through variables and the calls between the examples) resolves in the current sources and fits the signature')
    mods = []
    for m in sources(C.P):
        if isinstance(m, tuple):
            R.fact('{} parses'.format(m[0]), None, None, 'not readable by the analyser: ' + str(m[1]))
        else:
            mods.append(m)
    if not mods:
        raise AnchorError('no example programs')
    Flow(R, C.P, mods).run()
