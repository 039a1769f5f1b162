"""Which exceptions can leave a small string-processing program?

A path-enumerating abstract interpreter over the syntax tree: values are constants, unknown strings / numbers / truth values (named by
terms, so that the same expression is the same unknown), heap objects with known keys, processes and matches.  Every operation yields
all its outcomes: values, and the exceptions it raises for some value of the unknowns.  External commands and files have all outcomes
(no such command, no permission, any exit status, any output, undecodable output).  Nothing of the analysed program is run; only
operations whose operands are all constants are folded."""
import ast
import builtins
import errno as _errno
import re as _re


class Limit(Exception):
    pass


class V:
    __slots__ = ('k', 'a', '_h')

    def __init__(self, k, *a):
        self.k, self.a = k, a
        self._h = hash((k, a))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, V) and self.k == o.k and self.a == o.a and [type(x) for x in self.a] == [type(x) for x in o.a]

    def __repr__(self):
        return '{}{}'.format(self.k, self.a)


def C(x):
    return V('C', x)


NONE = C(None)


def S(t):
    """string term; a concatenation of literals only is a constant"""
    if t[0] == 'cat':
        parts = []
        for p in t[1]:
            for q in (p[1] if isinstance(p, tuple) and p[0] == 'cat' else (p,)):
                if isinstance(q, str) and parts and isinstance(parts[-1], str):
                    parts[-1] += q
                elif q != '':
                    parts.append(q)
        if not parts:
            return C('')
        if len(parts) == 1 and isinstance(parts[0], str):
            return C(parts[0])
        if len(parts) == 1:
            return V('S', parts[0])
        return V('S', ('cat', tuple(parts)))
    return V('S', t)


def term(v):
    if v.k == 'C':
        return ('c', v.a[0])
    return v.a[0] if v.k in ('S', 'I', 'B', 'MO', 'PR', 'COL', 'P') else (v.k,) + v.a


def part(v):
    """string value as part of a concatenation"""
    return v.a[0] if v.k in ('C', 'S') else ('?',)


class St:
    __slots__ = ('heap', 'facts', 'events', 'exc', 'n')

    def __init__(self, heap=None, facts=None, events=(), exc=None):
        self.heap, self.facts, self.events, self.exc = heap or {}, facts or {}, events, exc

    def fork(self):
        return St(dict(self.heap), dict(self.facts), self.events, self.exc)


class Exc:
    """exception in flight"""

    def __init__(self, cls, msg, line, attrs=None, bases=None):
        self.cls, self.msg, self.line, self.attrs, self.bases = cls, msg, line, attrs or {}, bases

    def __repr__(self):
        return '{}({!r}) at line {}'.format(self.cls, self.msg, self.line)


EXTERNAL_BASES = {'subprocess.CalledProcessError': 'subprocess.SubprocessError', 'subprocess.TimeoutExpired': 'subprocess.SubprocessError',
                  'subprocess.SubprocessError': 'Exception', 're.error': 'Exception', 'os.error': 'OSError'}
ALIASES = {'EnvironmentError': 'OSError', 'IOError': 'OSError', 'os.error': 'OSError', 'socket.error': 'OSError'}
STR_STR = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'title', 'capitalize', 'removeprefix', 'removesuffix', 'zfill', 'expandtabs', 'casefold', 'swapcase',
           'ljust', 'rjust', 'center'}
STR_PRED = {'startswith', 'endswith', 'isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isalnum', 'isspace', 'islower', 'isupper', 'isidentifier', 'isascii'}
PATHS = {'dirname', 'basename', 'realpath', 'abspath', 'normpath', 'join', 'normcase', 'expanduser', 'relpath'}
OSERRORS = [('FileNotFoundError', _errno.ENOENT), ('PermissionError', _errno.EACCES), ('NotADirectoryError', _errno.ENOTDIR), ('OSError', _errno.ENOEXEC)]


class Escape:
    def __init__(self, source_of, budget=400000):
        self.source_of = source_of            # module path 'pkg/_version.py' -> source text or None
        self.unknown = {}                     # text -> line: constructs without a model
        self.findings = []                    # (line, text)
        self.funcs = {}
        self.classes = {}
        self.steps = budget
        self.seen = set()
        self.refs = 0
        self.mod = None
        self.depth = 0
        self.commands = []

    # ---------------------------------------------------------------- utilities
    def ref(self, st, kind, content):
        self.refs += 1
        r = V('R', kind, self.refs)
        st.heap[r] = content
        return r

    def unk(self, what, node):
        self.unknown.setdefault(what, getattr(node, 'lineno', 0))
        self.refs += 1
        return V('U', self.refs)

    def tick(self):
        self.steps -= 1
        if self.steps < 0:
            raise Limit('too many paths')

    def x(self, st, cls, msg, node, **attrs):
        return ('x', Exc(cls, msg, getattr(node, 'lineno', 0), attrs), st)

    def seq(self, outs, f):
        res = []
        for k, v, st in outs:
            if k == 'v':
                res += f(v, st)
            else:
                res.append((k, v, st))
        return res

    def evals(self, nodes, st, env):
        """[(list of values, state)] or exceptions"""
        outs = [('v', (), st)]
        for n in nodes:
            outs = self.seq(outs, lambda vs, s, n=n: self.seq(self.ev(n, s, env), lambda v, s2: [('v', vs + (v,), s2)]))
        return outs

    def truth(self, v, st):
        """[(bool, state)]"""
        if v.k == 'C':
            return [(bool(v.a[0]), st)]
        if v.k == 'P':
            return self.decide(v.a[0], v.a[1], st)
        if v.k in ('S', 'COL'):
            if v.k == 'S' and v.a[0][0] == 'cat' and any(isinstance(p, str) for p in v.a[0][1]):
                return [(True, st)]
            return self.decide(('nonempty', v.a[0]), False, st)
        if v.k == 'I':
            return self.decide(('eq', v.a[0], ('c', 0)), True, st)
        if v.k == 'MO':
            return self.decide(('matched', v.a[0]), False, st)
        if v.k == 'T':
            return [(bool(v.a[0]), st)]
        if v.k == 'R' and v.a[0] in ('list', 'dict', 'set'):
            return [(bool(st.heap[v]), st)]
        if v.k == 'B':
            return self.decide(('nonempty', v.a[0]), False, st)
        if v.k == 'U':
            return self.decide(('true', v.a), False, st)
        return [(True, st)]

    def decide(self, p, neg, st):
        f = self.implied(p, st.facts)
        if f is not None:
            return [(f != neg, st)]
        a, b = st.fork(), st
        a.facts[p] = True
        b = st.fork()
        b.facts[p] = False
        return [(True != neg, a), (False != neg, b)]

    @staticmethod
    def implied(p, facts):
        if p in facts:
            return facts[p]
        if p[0] == 'eq' and isinstance(p[2], tuple) and p[2][0] == 'c':
            for q, val in facts.items():
                if val and q[0] == 'eq' and q[1] == p[1] and isinstance(q[2], tuple) and q[2][0] == 'c' and q[2] != p[2]:
                    return False
            if p[2] == ('c', ''):
                f = Escape.implied(('nonempty', p[1]), facts)
                return None if f is None else not f
        if p[0] == 'contains':
            for q, val in facts.items():
                if val and q[0] in ('startswith', 'endswith', 'contains') and q[1] == p[1] and isinstance(q[2], str) and isinstance(p[2], str) and p[2] in q[2]:
                    return True
        if p[0] == 'nonempty':
            for q, val in facts.items():
                if val and q[0] in ('startswith', 'endswith', 'contains') and q[1] == p[1] and q[2]:
                    return True
                if val and q[0] == 'isdigit' and q[1] == p[1]:
                    return True
        return None

    # ---------------------------------------------------------------- modules, functions
    def module(self, path, st):
        src = self.source_of(path)
        if src is None:
            return None
        tree = ast.parse(src)
        env = self.ref(st, 'env', {'__parent__': None, '__name__': C(path), '__module__': path})
        outs = self.block(tree.body, st, env)
        return env, outs

    def lookup(self, name, st, env):
        e = env
        while e is not None:
            c = st.heap[e]
            if name in c:
                return c[name]
            e = c['__parent__']
        return None

    def assign(self, name, v, st, env):
        c = dict(st.heap[env])
        tgt = env
        if name in c.get('__global__', ()):
            while st.heap[tgt]['__parent__'] is not None:
                tgt = st.heap[tgt]['__parent__']
            c = dict(st.heap[tgt])
        elif name in c.get('__nonlocal__', ()):
            tgt = c['__parent__']
            while tgt is not None and name not in st.heap[tgt]:
                tgt = st.heap[tgt]['__parent__']
            c = dict(st.heap[tgt])
        c[name] = v
        st.heap[tgt] = c

    def call_user(self, fn, args, kw, st, node):
        fid, env = fn.a
        d = self.funcs[fid]
        self.seen.add('{}:{}'.format(self.modname(env, st), getattr(d, 'name', '<lambda>')))
        self.depth += 1
        try:
            if self.depth > 40:
                raise Limit('recursion')
            if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(d)):
                return [('v', self.unk('generator function', node), st)]
            a = d.args
            st = st.fork()
            frame = {'__parent__': env}
            outs = [('v', (), st)]
            names = [p.arg for p in a.posonlyargs + a.args]
            bound = dict(zip(names, args))
            if len(args) > len(names):
                if not a.vararg:
                    return [self.x(st, 'TypeError', 'too many arguments', node)]
                bound[a.vararg.arg] = V('T', tuple(args[len(names):]))
            elif a.vararg:
                bound[a.vararg.arg] = V('T', ())
            extra = {}
            for k, v in kw.items():
                if k in bound and k in names:
                    return [self.x(st, 'TypeError', 'argument given twice', node)]
                if k in names or k in [p.arg for p in a.kwonlyargs]:
                    bound[k] = v
                elif a.kwarg:
                    extra[k] = v
                else:
                    return [self.x(st, 'TypeError', 'unexpected argument ' + k, node)]
            if a.kwarg:
                bound[a.kwarg.arg] = self.ref(st, 'dict', tuple((C(k), v) for k, v in extra.items()))
            dflt = st.heap.get(V('D', fid, env), ())
            for nm, v in dflt:
                bound.setdefault(nm, v)
            for nm in names + [p.arg for p in a.kwonlyargs]:
                if nm not in bound:
                    return [self.x(st, 'TypeError', 'missing argument ' + nm, node)]
            frame.update(bound)
            fr = self.ref(st, 'env', frame)
            if isinstance(d, ast.Lambda):
                return self.ev(d.body, st, fr)
            res = []
            for k, v, s in self.block(d.body, st, fr):
                if k == 'next':
                    res.append(('v', NONE, s))
                elif k == 'return':
                    res.append(('v', v, s))
                else:
                    res.append((k, v, s))
            return res
        finally:
            self.depth -= 1

    def modname(self, env, st):
        while st.heap[env]['__parent__'] is not None:
            env = st.heap[env]['__parent__']
        return st.heap[env].get('__module__', '?')

    # ---------------------------------------------------------------- statements
    def block(self, stmts, st, env):
        """[(next | return | x | break | continue, value, state)]"""
        live = [st]
        res = []
        for s in stmts:
            nxt = []
            for t in live:
                for k, v, u in self.stmt(s, t, env):
                    if k == 'next':
                        nxt.append(u)
                    else:
                        res.append((k, v, u))
            live = self.merge(nxt)
            if not live:
                break
        return res + [('next', None, t) for t in live]

    @staticmethod
    def merge(states):
        if len(states) < 2:
            return states
        out = []
        for s in states:
            for t in out:
                if s.heap == t.heap and s.facts == t.facts and s.events == t.events:
                    break
            else:
                out.append(s)
        return out

    def stmt(self, n, st, env):
        self.tick()
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.unk('statement ' + type(n).__name__, n)
            return [('next', None, st)]
        return m(n, st.fork(), env)

    def val(self, outs, f):
        """continue with values, keep exceptions"""
        res = []
        for k, v, st in outs:
            res += f(v, st) if k == 'v' else [(k, v, st)]
        return res

    def s_Expr(self, n, st, env):
        if isinstance(n.value, ast.Constant):
            return [('next', None, st)]
        return self.val(self.ev(n.value, st, env), lambda v, s: [('next', None, s)])

    def s_Pass(self, n, st, env):
        return [('next', None, st)]

    def s_Global(self, n, st, env):
        c = dict(st.heap[env])
        c['__global__'] = tuple(n.names)
        st.heap[env] = c
        return [('next', None, st)]

    def s_Nonlocal(self, n, st, env):
        c = dict(st.heap[env])
        c['__nonlocal__'] = tuple(n.names)
        st.heap[env] = c
        return [('next', None, st)]

    def s_Return(self, n, st, env):
        if n.value is None:
            return [('return', NONE, st)]
        return self.val(self.ev(n.value, st, env), lambda v, s: [('return', v, s)])

    def s_Break(self, n, st, env):
        return [('break', None, st)]

    def s_Continue(self, n, st, env):
        return [('continue', None, st)]

    def s_Import(self, n, st, env):
        for a in n.names:
            self.assign(a.asname or a.name.split('.')[0], V('M', a.name if a.asname else a.name.split('.')[0]), st, env)
        return [('next', None, st)]

    def s_ImportFrom(self, n, st, env):
        if n.level:
            here = self.modname(env, st)
            base = here.rsplit('/', 1)[0]
            for _ in range(n.level - 1):
                base = base.rsplit('/', 1)[0]
            if n.module is None:
                for a in n.names:
                    self.assign(a.asname or a.name, V('PM', base + '/' + a.name + '.py'), st, env)
                return [('next', None, st)]
            return self.import_names(base + '/' + n.module.replace('.', '/') + '.py', n, st, env)
        pth = (n.module or '').replace('.', '/') + '.py'
        if self.source_of(pth) is not None:
            return self.import_names(pth, n, st, env)
        for a in n.names:
            self.assign(a.asname or a.name, self.ext('{}.{}'.format(n.module, a.name)), st, env)
        return [('next', None, st)]

    def import_names(self, path, n, st, env):
        key = V('MOD', path)
        outs = [('next', None, st)]
        if not self.wanted(path):
            for a in n.names:
                self.assign(a.asname or a.name, V('U', path + ':' + a.name), st, env)
            return outs
        if key not in st.heap:
            r = self.module(path, st)
            if r is None:
                return [self.x(st, 'ImportError', path, n)]
            menv, outs = r
            for k, v, s in outs:
                s.heap[key] = menv
        res = []
        for k, v, s in outs:
            if k != 'next':
                res.append((k, v, s))
                continue
            menv = s.heap[key]
            bad = None
            for a in n.names:
                if a.name == '*':
                    for nm, vv in s.heap[menv].items():
                        if not nm.startswith('_'):
                            self.assign(nm, vv, s, env)
                    continue
                v = s.heap[menv].get(a.name)
                if v is None:
                    bad = self.x(s, 'ImportError', 'cannot import ' + a.name, n)
                    break
                self.assign(a.asname or a.name, v, s, env)
            res.append(bad or ('next', None, s))
        return res

    def wanted(self, path):
        return path.endswith('_version.py') or path.endswith('__init__.py')

    def ext(self, path):
        path = ALIASES.get(path, path)
        return V('M', path)

    def s_FunctionDef(self, n, st, env):
        fid = '{}:{}:{}'.format(self.modname(env, st), n.lineno, n.name)
        self.funcs[fid] = n
        f = V('F', fid, env)
        outs = [('v', (), st)]
        a = n.args
        names = [p.arg for p in a.posonlyargs + a.args]
        pairs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]

        def done(vs, s):
            s.heap[V('D', fid, env)] = tuple((nm, v) for (nm, _), v in zip(pairs, vs))
            outs = [('v', f, s)]
            for d in reversed(n.decorator_list):
                outs = self.seq(outs, lambda g, s1, d=d: self.seq(self.ev(d, s1, env), lambda dv, s2: self.call(dv, (g,), {}, s2, d, env)))

            def put(g, s3):
                s3 = s3.fork()
                self.assign(n.name, g, s3, env)
                return [('next', None, s3)]
            return self.val(outs, put)
        return self.val(self.evals([d for _, d in pairs], st, env), done)

    def s_ClassDef(self, n, st, env):
        cid = '{}:{}'.format(n.lineno, n.name)

        def bases(bs, s):
            c = self.ref(s, 'env', {'__parent__': env})
            res = []
            for k, v, t in self.block(n.body, s, c):
                if k != 'next':
                    res.append((k, v, t))
                    continue
                self.classes[cid] = n
                t = t.fork()
                K = V('K', cid, n.name)
                t.heap[K] = (tuple(bs), c)
                self.assign(n.name, K, t, env)
                res.append(('next', None, t))
            return res
        return self.val(self.evals(n.bases, st, env), bases)

    def s_Assign(self, n, st, env):
        def go(v, s):
            outs = [('next', None, s)]
            for t in n.targets:
                outs = [o for k, _, u in outs for o in (self.store(t, v, u, env) if k == 'next' else [(k, _, u)])]
            return outs
        return self.val(self.ev(n.value, st, env), go)

    def s_AnnAssign(self, n, st, env):
        if n.value is None:
            return [('next', None, st)]
        return self.val(self.ev(n.value, st, env), lambda v, s: self.store(n.target, v, s, env))

    def s_AugAssign(self, n, st, env):
        load = ast.copy_location({'Name': lambda: ast.Name(n.target.id, ast.Load()), 'Attribute': lambda: ast.Attribute(n.target.value, n.target.attr, ast.Load()),
                                  'Subscript': lambda: ast.Subscript(n.target.value, n.target.slice, ast.Load())}[type(n.target).__name__](), n)
        e = ast.copy_location(ast.BinOp(load, n.op, n.value), n)
        return self.val(self.ev(e, st, env), lambda v, s: self.store(n.target, v, s, env))

    def store(self, t, v, st, env):
        st = st.fork()
        if isinstance(t, ast.Name):
            self.assign(t.id, v, st, env)
            return [('next', None, st)]
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.items(v, st)
            if items is None:
                if v.k == 'C' and not isinstance(v.a[0], (str, bytes)):
                    return [self.x(st, 'TypeError', 'cannot unpack', t)]
                if v.k in ('S', 'COL', 'C') and not any(isinstance(e, ast.Starred) for e in t.elts):
                    res = [self.x(st, 'ValueError', 'number of values to unpack', t)]
                else:
                    res = []
                outs = [('next', None, st)]
                for i, e in enumerate(t.elts):
                    w = S(('item', term(v), i)) if v.k in ('S', 'COL') else V('U', 'item', v, i)
                    e = e.value if isinstance(e, ast.Starred) else e
                    outs = [o for k, x, u in outs for o in (self.store(e, w, u, env) if k == 'next' else [(k, x, u)])]
                return res + outs
            if any(isinstance(e, ast.Starred) for e in t.elts):
                i = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                k = len(items) - (len(t.elts) - 1)
                if k < 0:
                    return [self.x(st, 'ValueError', 'number of values to unpack', t)]
                items = list(items[:i]) + [self.ref(st, 'list', tuple(items[i:i + k]))] + list(items[i + k:])
            if len(items) != len(t.elts):
                return [self.x(st, 'ValueError', 'number of values to unpack', t)]
            outs = [('next', None, st)]
            for e, w in zip(t.elts, items):
                e = e.value if isinstance(e, ast.Starred) else e
                outs = [o for k, x, u in outs for o in (self.store(e, w, u, env) if k == 'next' else [(k, x, u)])]
            return outs
        if isinstance(t, ast.Attribute):
            def put(o, s):
                s = s.fork()
                if o.k == 'R' and o.a[0] == 'inst':
                    d = dict(s.heap[o][1])
                    d[t.attr] = v
                    s.heap[o] = (s.heap[o][0], tuple(sorted(d.items(), key=lambda x: x[0])))
                elif o.k == 'C':
                    return [self.x(s, 'AttributeError', t.attr, t)]
                else:
                    self.unk('attribute store on ' + o.k, t)
                return [('next', None, s)]
            return self.val(self.ev(t.value, st, env), put)
        if isinstance(t, ast.Subscript):
            def put(vs, s):
                o, i = vs
                s = s.fork()
                if o.k == 'R' and o.a[0] == 'dict':
                    d = [(a, b) for a, b in s.heap[o] if a != i]
                    s.heap[o] = tuple(d) + ((i, v),)
                elif o.k == 'R' and o.a[0] == 'list' and i.k == 'C' and isinstance(i.a[0], int):
                    li = list(s.heap[o])
                    try:
                        li[i.a[0]] = v
                    except IndexError:
                        return [self.x(s, 'IndexError', 'list assignment', t)]
                    s.heap[o] = tuple(li)
                elif o.k == 'C':
                    return [self.x(s, 'TypeError', 'item assignment', t)]
                else:
                    self.unk('item store on ' + o.k, t)
                return [('next', None, s)]
            return self.val(self.evals([t.value, t.slice], st, env), put)
        self.unk('store to ' + type(t).__name__, t)
        return [('next', None, st)]

    def s_Delete(self, n, st, env):
        outs = [('next', None, st)]
        for t in n.targets:
            if isinstance(t, ast.Name):
                c = dict(st.heap[env])
                if t.id not in c:
                    return [self.x(st, 'NameError', t.id, t)]
                del c[t.id]
                st.heap[env] = c
            elif isinstance(t, ast.Subscript):
                def rem(vs, s):
                    o, i = vs
                    s = s.fork()
                    if o.k == 'R' and o.a[0] == 'dict':
                        if all(a != i for a, _ in s.heap[o]):
                            return [self.x(s, 'KeyError', str(i.a[0]), t)]
                        s.heap[o] = tuple((a, b) for a, b in s.heap[o] if a != i)
                    else:
                        self.unk('del item', t)
                    return [('next', None, s)]
                outs = [o for k, v, s in outs for o in (self.val(self.evals([t.value, t.slice], s, env), rem) if k == 'next' else [(k, v, s)])]
            else:
                self.unk('del', t)
        return outs

    def s_If(self, n, st, env):
        def go(v, s):
            res = []
            for b, u in self.truth(v, s):
                res += self.block(n.body if b else n.orelse, u, env)
            return res
        return self.val(self.ev(n.test, st, env), go)

    def s_Assert(self, n, st, env):
        def go(v, s):
            return [('next', None, u) if b else self.x(u, 'AssertionError', 'assertion', n) for b, u in self.truth(v, s)]
        return self.val(self.ev(n.test, st, env), go)

    def s_Raise(self, n, st, env):
        if n.exc is None:
            e = st.exc
            return [('x', e, st)] if e is not None else [self.x(st, 'RuntimeError', 'no active exception', n)]

        def go(v, s):
            if v.k in ('K',) or (v.k == 'M' and self.is_exc(v, s)):
                return self.val(self.call(v, (), {}, s, n, env), lambda w, s2: self.throw(w, s2, n))
            return self.throw(v, s, n)
        return self.val(self.ev(n.exc, st, env), go)

    def throw(self, v, st, n):
        if v.k == 'E':
            return [('x', Exc(v.a[0], v.a[1], getattr(n, 'lineno', 0), dict(v.a[2])), st)]
        if v.k == 'U':
            return [self.x(st, 'Exception', 'unknown exception', n)]
        return [self.x(st, 'TypeError', 'exceptions must derive from BaseException', n)]

    def is_exc(self, v, st):
        if v.k == 'K':
            return True
        nm = v.a[0].replace('builtins.', '')
        return nm in EXTERNAL_BASES or (isinstance(getattr(builtins, nm, None), type) and issubclass(getattr(builtins, nm), BaseException))

    def chain(self, cls, st):
        """names of a class and of its bases"""
        out = []
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if isinstance(c, V):
                if c.k == 'K':
                    out.append(c)
                    todo += list(st.heap[c][0])
                    continue
                c = c.a[0]
            c = ALIASES.get(c, c).replace('builtins.', '')
            out.append(c)
            if c in EXTERNAL_BASES:
                todo.append(EXTERNAL_BASES[c])
            else:
                b = getattr(builtins, c, None)
                if isinstance(b, type):
                    out += [k.__name__ for k in b.__mro__]
        return out

    def catches(self, t, e, st):
        """does handler type t catch e: True / False / None"""
        if t.k == 'T':
            r = [self.catches(x, e, st) for x in t.a[0]]
            return True if True in r else (None if None in r else False)
        if t.k == 'U':
            return None
        c = t if t.k == 'K' else ALIASES.get(t.a[0], t.a[0]).replace('builtins.', '')
        return c in self.chain(e.cls, st)

    def s_Try(self, n, st, env):
        outs = self.block(n.body, st, env)
        res = []
        for k, v, s in outs:
            if k == 'next':
                res += self.block(n.orelse, s, env)
            elif k != 'x':
                res.append((k, v, s))
            else:
                res += self.handle(n, v, s, env)
        if n.finalbody:
            out = []
            for k, v, s in res:
                for k2, v2, s2 in self.block(n.finalbody, s, env):
                    out.append((k, v, s2) if k2 == 'next' else (k2, v2, s2))
            res = out
        return res

    s_TryStar = s_Try

    def handle(self, n, e, st, env):
        live = [(st, False)]
        res = []
        for h in n.handlers:
            nxt = []
            for s, _ in live:
                if h.type is None:
                    res += self.run_handler(h, e, s, env)
                    continue
                for k, t, u in self.ev(h.type, s, env):
                    if k == 'x':
                        res.append((k, t, u))
                        continue
                    c = self.catches(t, e, u)
                    if c is True or c is None:
                        res += self.run_handler(h, e, u, env)
                    if c is False or c is None:
                        nxt.append((u, False))
            live = nxt
        return res + [('x', e, s) for s, _ in live]

    def run_handler(self, h, e, st, env):
        st = st.fork()
        old = st.exc
        st.exc = e
        if h.name:
            self.assign(h.name, self.exc_value(e), st, env)
        res = []
        for k, v, s in self.block(h.body, st, env):
            s = s.fork()
            s.exc = old
            if h.name and h.name in s.heap[env]:
                c = dict(s.heap[env])
                del c[h.name]
                s.heap[env] = c
            res.append((k, v, s))
        return res

    @staticmethod
    def exc_value(e):
        return V('E', e.cls, e.msg, tuple(sorted(e.attrs.items())))

    def s_With(self, n, st, env):
        def enter(i, s):
            if i == len(n.items):
                return self.block(n.body, s, env)
            it = n.items[i]

            def go(v, u):
                outs = [('next', None, u)]
                if it.optional_vars is not None:
                    outs = self.store(it.optional_vars, v, u, env)
                res = []
                for k, x, w in outs:
                    res += enter(i + 1, w) if k == 'next' else [(k, x, w)]
                if v.k == 'SUP':
                    res = [('next', None, w) if k == 'x' and self.catches(V('T', v.a[0]), x, w) else (k, x, w) for k, x, w in res]
                elif v.k not in ('FI', 'PR'):
                    self.unk('context manager ' + v.k, n)
                return res
            return self.val(self.ev(it.context_expr, s, env), go)
        return enter(0, st)

    def loop_body(self, n, st, env):
        """one iteration: (states that go on, states that break, other outcomes)"""
        go, br, res = [], [], []
        for k, v, s in self.block(n.body, st, env):
            if k in ('next', 'continue'):
                go.append(s)
            elif k == 'break':
                br.append(s)
            else:
                res.append((k, v, s))
        return go, br, res

    def s_For(self, n, st, env):
        def go(v, s):
            items = self.items(v, s)
            res, broke, live = [], [], [s]
            if items is not None:
                for it in items:
                    nxt = []
                    for u in live:
                        for k, x, w in self.store(n.target, it, u, env):
                            if k != 'next':
                                res.append((k, x, w))
                                continue
                            a, b, r = self.loop_body(n, w, env)
                            nxt += a
                            broke += b
                            res += r
                    live = self.merge(nxt)
            elif v.k in ('COL', 'S', 'FI', 'B'):
                done = list(live)
                for i in range(2):
                    nxt = []
                    for u in live:
                        f = self.decide(('atleast', term(v), i + 1), False, u) if v.k != 'COL' or True else []
                        for b, w in f:
                            if not b:
                                continue
                            for k, x, w2 in self.store(n.target, self.elem(v, i), w, env):
                                if k != 'next':
                                    res.append((k, x, w2))
                                    continue
                                a, bb, r = self.loop_body(n, w2, env)
                                nxt += a
                                broke += bb
                                res += r
                        if v.k == 'FI' and i == 0:
                            res.append(self.x(u, 'UnicodeDecodeError', 'reading a file', n))
                    live = self.merge(nxt)
                    done += live
                live = done
            elif v.k == 'C':
                return [self.x(s, 'TypeError', 'not iterable', n)]
            else:
                self.unk('iteration over ' + v.k, n)
            for u in live:
                res += self.block(n.orelse, u, env)
            return res + [('next', None, u) for u in broke]
        return self.val(self.ev(n.iter, st, env), go)

    def s_While(self, n, st, env):
        res, live, broke, ends = [], [st], [], []
        for _ in range(12):
            nxt = []
            for u in live:
                for k, v, s in self.ev(n.test, u, env):
                    if k == 'x':
                        res.append((k, v, s))
                        continue
                    for b, w in self.truth(v, s):
                        if not b:
                            ends.append(w)
                            continue
                        a, bb, r = self.loop_body(n, w, env)
                        nxt += a
                        broke += bb
                        res += r
            live = self.merge(nxt)
            if not live:
                break
        else:
            self.unk('loop unrolled 12 times', n)
        for u in ends:
            res += self.block(n.orelse, u, env)
        return res + [('next', None, u) for u in broke]

    def elem(self, v, i):
        if v.k == 'COL':
            return V('S', ('elem', v.a[0], i)) if v.a[1] == 'str' else V('U', 'elem', v, i)
        return S(('elem', term(v), i))

    def items(self, v, st):
        if v.k == 'T':
            return list(v.a[0])
        if v.k == 'R' and v.a[0] in ('list', 'set'):
            return list(st.heap[v])
        if v.k == 'R' and v.a[0] == 'dict':
            return [a for a, _ in st.heap[v]]
        if v.k == 'C' and isinstance(v.a[0], (str, tuple, range, bytes)):
            return [C(x) for x in v.a[0]]
        return None

    # ---------------------------------------------------------------- expressions
    def ev(self, n, st, env):
        self.tick()
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return [('v', self.unk('expression ' + type(n).__name__, n), st)]
        return m(n, st, env)

    def e_Constant(self, n, st, env):
        if isinstance(n.value, str) and n.value.startswith('$Format:'):      # replaced by git-archive
            return [('v', V('S', ('keyword', n.value)), st)]
        return [('v', C(n.value), st)]

    def e_Name(self, n, st, env):
        v = self.lookup(n.id, st, env)
        if v is not None:
            return [('v', v, st)]
        if n.id == '__file__':
            a, b = st.fork(), st.fork()
            f = self.implied(('hasfile',), st.facts)
            a.facts[('hasfile',)] = True
            b.facts[('hasfile',)] = False
            out = []
            if f is not False:
                out.append(('v', V('S', ('__file__',)), a))
            if f is not True:
                out.append(self.x(b, 'NameError', '__file__', n))
            return out
        if n.id in ('__name__', '__package__', '__doc__', '__spec__', '__path__'):
            return [('v', V('U', n.id), st)]
        if hasattr(builtins, n.id):
            return [('v', V('M', ALIASES.get(n.id, n.id)), st)]
        return [self.x(st, 'NameError', n.id, n)]

    def e_NamedExpr(self, n, st, env):
        def go(v, s):
            s = s.fork()
            self.assign(n.target.id, v, s, env)
            return [('v', v, s)]
        return self.seq(self.ev(n.value, st, env), go)

    def e_Tuple(self, n, st, env):
        return self.seq(self.evals(n.elts, st, env), lambda vs, s: [('v', V('T', vs), s)])

    def _coll(self, kind):
        def f(n, st, env):
            def go(vs, s):
                s = s.fork()
                return [('v', self.ref(s, kind, tuple(dict.fromkeys(vs)) if kind == 'set' else vs), s)]
            if any(isinstance(e, ast.Starred) for e in n.elts):
                return [('v', self.unk('starred display', n), st)]
            return self.seq(self.evals(n.elts, st, env), go)
        return f

    def e_List(self, n, st, env):
        return self._coll('list')(n, st, env)

    def e_Set(self, n, st, env):
        return self._coll('set')(n, st, env)

    def e_Dict(self, n, st, env):
        if any(k is None for k in n.keys):
            outs = [('v', (), st)]
            for k, v in zip(n.keys, n.values):
                if k is None:
                    def spread(acc, s, v=v):
                        def f(d, s2):
                            if d.k == 'R' and d.a[0] == 'dict':
                                return [('v', acc + s2.heap[d], s2)]
                            self.unk('dictionary display', n)
                            return [('v', acc, s2)]
                        return self.seq(self.ev(v, s, env), f)
                    outs = self.seq(outs, spread)
                else:
                    outs = self.seq(outs, lambda acc, s, k=k, v=v: self.seq(self.evals([k, v], s, env), lambda p, s2: [('v', acc + ((p[0], p[1]),), s2)]))

            def fin(acc, s):
                s = s.fork()
                return [('v', self.ref(s, 'dict', tuple(dict(acc).items())), s)]
            return self.seq(outs, fin)

        def go(vs, s):
            s = s.fork()
            h = len(vs) // 2
            return [('v', self.ref(s, 'dict', tuple(dict(zip(vs[:h], vs[h:])).items())), s)]
        return self.seq(self.evals(list(n.keys) + list(n.values), st, env), go)

    def e_Lambda(self, n, st, env):
        fid = 'lambda:{}:{}'.format(n.lineno, n.col_offset)
        self.funcs[fid] = n
        a = n.args
        names = [p.arg for p in a.posonlyargs + a.args]
        pairs = list(zip(names[len(names) - len(a.defaults):], a.defaults))

        def done(vs, s):
            s = s.fork()
            s.heap[V('D', fid, env)] = tuple((nm, v) for (nm, _), v in zip(pairs, vs))
            return [('v', V('F', fid, env), s)]
        return self.seq(self.evals([d for _, d in pairs], st, env), done)

    def e_IfExp(self, n, st, env):
        def go(v, s):
            res = []
            for b, u in self.truth(v, s):
                res += self.ev(n.body if b else n.orelse, u, env)
            return res
        return self.seq(self.ev(n.test, st, env), go)

    def e_BoolOp(self, n, st, env):
        isand = isinstance(n.op, ast.And)

        def rest(i, s):
            outs = self.ev(n.values[i], s, env)
            if i == len(n.values) - 1:
                return outs

            def go(v, u):
                res = []
                for b, w in self.truth(v, u):
                    if b == isand:
                        res += rest(i + 1, w)
                    else:
                        # the value itself, known to be (not) true now
                        res.append(('v', C(False) if v.k == 'P' and isand else C(True) if v.k == 'P' else v, w))
                return res
            return self.seq(outs, go)
        return rest(0, st)

    def e_UnaryOp(self, n, st, env):
        def go(v, s):
            if isinstance(n.op, ast.Not):
                if v.k == 'P':
                    return [('v', V('P', v.a[0], not v.a[1]), s)]
                return [('v', C(not b), u) for b, u in self.truth(v, s)]
            if v.k == 'C' and isinstance(v.a[0], (int, float)):
                return [('v', C(-v.a[0] if isinstance(n.op, ast.USub) else +v.a[0] if isinstance(n.op, ast.UAdd) else ~v.a[0]), s)]
            if v.k == 'I':
                return [('v', V('I', ('neg', v.a[0])), s)]
            if v.k in ('S', 'C'):
                return [self.x(s, 'TypeError', 'bad operand', n)]
            return [('v', self.unk('unary operator', n), s)]
        return self.seq(self.ev(n.operand, st, env), go)

    def e_Compare(self, n, st, env):
        def chain(i, left, s):
            def go(r, u):
                outs = self.cmp(n.ops[i], left, r, u, n)
                if i == len(n.ops) - 1:
                    return outs
                res = []
                for k, b, w in outs:
                    if k == 'x':
                        res.append((k, b, w))
                        continue
                    for t, w2 in self.truth(b, w):
                        res += chain(i + 1, r, w2) if t else [('v', C(False), w2)]
                return res
            return self.seq(self.ev(n.comparators[i], s, env), go)
        return self.seq(self.ev(n.left, st, env), lambda v, s: chain(0, v, s))

    def cmp(self, op, a, b, st, n):
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            if a.k == 'U' or b.k == 'U':
                return [('v', V('P', ('eq', term(a), term(b)), neg), st)]
            if a.k == 'C' and b.k == 'C':
                same = a.a[0] == b.a[0] if isinstance(op, (ast.Eq, ast.NotEq)) else (a.a[0] is b.a[0] or a == b)
                return [('v', C(same != neg), st)]
            if a.k == 'C':
                a, b = b, a
            if b.k == 'C' and b.a[0] is None:
                if a.k == 'MO':
                    return [('v', V('P', ('matched', a.a[0]), not neg), st)]
                return [('v', C(neg), st)]
            if a == b:
                return [('v', C(not neg), st)]
            if a.k == 'P' and b.k == 'C' and isinstance(b.a[0], bool):
                return [('v', V('P', a.a[0], a.a[1] ^ (not b.a[0]) ^ neg), st)]
            if b.k == 'C' and {'S': str, 'I': (int, float), 'B': bytes}.get(a.k) and not isinstance(b.a[0], {'S': str, 'I': (int, float), 'B': bytes}[a.k]):
                return [('v', C(neg), st)]
            if a.k == 'T' and b.k == 'T' and len(a.a[0]) == len(b.a[0]):
                if a.a[0] == b.a[0]:
                    return [('v', C(not neg), st)]
            if b.k == 'C' and b.a[0] == '':
                return [('v', V('P', ('nonempty', term(a)), not neg), st)]
            return [('v', V('P', ('eq', term(a), term(b)), neg), st)]
        if isinstance(op, (ast.In, ast.NotIn)):
            return self.contains(a, b, neg, st, n)
        # order
        if a.k == 'C' and b.k == 'C':
            try:
                r = {ast.Lt: lambda: a.a[0] < b.a[0], ast.LtE: lambda: a.a[0] <= b.a[0], ast.Gt: lambda: a.a[0] > b.a[0], ast.GtE: lambda: a.a[0] >= b.a[0]}[type(op)]()
                return [('v', C(r), st)]
            except TypeError:
                return [self.x(st, 'TypeError', 'ordering', n)]
        if 'U' in (a.k, b.k):
            return [('v', V('P', ('ord', type(op).__name__, term(a), term(b)), False), st)]
        if a.k == 'T' and b.k == 'T':
            if all(x.k == 'C' for x in a.a[0] + b.a[0]):
                x, y = tuple(t.a[0] for t in a.a[0]), tuple(t.a[0] for t in b.a[0])
                return [('v', C({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]), st)]
        num = [v.k in ('I', 'P') or v.k == 'C' and isinstance(v.a[0], (int, float)) for v in (a, b)]
        strs = [v.k == 'S' or v.k == 'C' and isinstance(v.a[0], str) for v in (a, b)]
        if all(num) or all(strs):
            return [('v', V('P', ('ord', type(op).__name__, term(a), term(b)), False), st)]
        if any(num) or any(strs) or NONE in (a, b):
            return [self.x(st, 'TypeError', 'ordering', n)]
        return [('v', V('P', ('ord', type(op).__name__, term(a), term(b)), False), st)]

    def contains(self, a, b, neg, st, n):
        if b.k == 'C' and (b.a[0] is None or isinstance(b.a[0], (int, float))):
            return [self.x(st, 'TypeError', 'argument is not iterable', n)]
        if b.k == 'I' or b.k == 'MO':
            return [self.x(st, 'TypeError', 'argument is not iterable', n)]
        if b.k in ('S',) or b.k == 'C' and isinstance(b.a[0], str):
            if a.k == 'C' and not isinstance(a.a[0], str) or a.k == 'I':
                return [self.x(st, 'TypeError', 'in a string', n)]
            if b.k == 'C' and a.k == 'C':
                return [('v', C((a.a[0] in b.a[0]) != neg), st)]
            if b.k == 'S' and a.k == 'C' and b.a[0][0] == 'cat' and any(isinstance(p, str) and a.a[0] in p for p in b.a[0][1]):
                return [('v', C(not neg), st)]
            return [('v', V('P', ('contains', term(b), a.a[0] if a.k == 'C' else term(a)), neg), st)]
        items = self.items(b, st)
        if items is not None:
            if a in items:
                return [('v', C(not neg), st)]
            if a.k == 'C' and all(i.k == 'C' for i in items):
                return [('v', C((a.a[0] in [i.a[0] for i in items]) != neg), st)]
            if a.k != 'C' and a.k not in ('S', 'I', 'U', 'P'):
                return [('v', C(neg), st)]
            return [('v', V('P', ('in', term(a), tuple(items)), neg), st)]
        return [('v', V('P', ('in', term(a), term(b)), neg), st)]

    def e_BinOp(self, n, st, env):
        return self.seq(self.evals([n.left, n.right], st, env), lambda vs, s: self.binop(n, vs[0], vs[1], s))

    def kind(self, v):
        if v.k == 'C':
            x = v.a[0]
            return 'str' if isinstance(x, str) else 'num' if isinstance(x, (int, float)) else 'bytes' if isinstance(x, bytes) else 'none' if x is None else '?'
        return {'S': 'str', 'I': 'num', 'P': 'num', 'B': 'bytes', 'T': 'tuple', 'U': '?', 'MO': 'match'}.get(v.k, v.a[0] if v.k == 'R' else v.k)

    def binop(self, n, a, b, st):
        ka, kb = self.kind(a), self.kind(b)
        op = type(n.op)
        if op is ast.Mod and ka == 'str':
            return self.percent(n, a, b, st)
        if a.k == 'C' and b.k == 'C':
            try:
                f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.Div: lambda x, y: x / y, ast.FloorDiv: lambda x, y: x // y,
                     ast.Mod: lambda x, y: x % y, ast.BitOr: lambda x, y: x | y, ast.BitAnd: lambda x, y: x & y}.get(op)
                if f:
                    return [('v', C(f(a.a[0], b.a[0])), st)]
            except Exception as ex:
                return [self.x(st, type(ex).__name__, str(ex), n)]
        if '?' in (ka, kb):
            return [('v', V('U', 'bin', op.__name__, a, b), st)]
        if op is ast.Add:
            if ka == kb == 'str':
                return [('v', S(('cat', (part(a), part(b)))), st)]
            if ka == kb == 'num':
                return [('v', V('I', ('add', term(a), term(b))), st)]
            if ka == kb == 'tuple':
                return [('v', V('T', a.a[0] + b.a[0]), st)]
            if ka == kb == 'list':
                st = st.fork()
                return [('v', self.ref(st, 'list', st.heap[a] + st.heap[b]), st)]
            if ka == kb == 'bytes':
                return [('v', V('B', ('add', term(a), term(b))), st)]
            if 'COL' in (ka, kb):
                return [('v', self.unk('list sum', n), st)]
            return [self.x(st, 'TypeError', '{} + {}'.format(ka, kb), n)]
        if ka == kb == 'num':
            res = [('v', V('I', (op.__name__, term(a), term(b))), st)]
            if op in (ast.Div, ast.FloorDiv, ast.Mod) and not (b.k == 'C' and b.a[0]):
                res.append(self.x(st, 'ZeroDivisionError', 'division', n))
            return res
        if op is ast.Mult and {ka, kb} == {'str', 'num'}:
            return [('v', S(('rep', term(a), term(b))), st)]
        if op in (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor) and ka in ('set', 'COL') and kb in ('set', 'COL'):
            return [('v', V('COL', (op.__name__, term(a), term(b)), 'str'), st)]
        if ka in ('none', 'str', 'num') or kb in ('none', 'str', 'num'):
            return [self.x(st, 'TypeError', '{} {} {}'.format(ka, op.__name__, kb), n)]
        return [('v', self.unk('operator {} on {} and {}'.format(op.__name__, ka, kb), n), st)]

    def fmt(self, spec, v, st, n):
        """one formatted value -> part or exception name"""
        k = self.kind(v)
        if spec in 'dixXouc':
            if k == '?':
                return ('d', v)
            if k != 'num':
                return None
            return str(int(v.a[0])) if v.k == 'C' else ('d', term(v))
        if spec in 'feEgGF':
            if k == '?':
                return ('d', v)
            return ('d', term(v)) if k == 'num' else None
        if v.k == 'C':
            return str(v.a[0]) if spec == 's' else repr(v.a[0])
        if v.k == 'S' and spec == 's':
            return v.a[0]
        if v.k == 'I' and spec == 's':
            return ('d', v.a[0])
        return ('str', v)

    def percent(self, n, a, b, st):
        if a.k != 'C':
            return [('v', S(('pct', term(a), b)), st)]
        pieces = _re.split(r'%(?:\((\w+)\))?[#0\- +]*(?:\d+|\*)?(?:\.\d+)?([a-zA-Z%])', a.a[0])
        specs = [(pieces[i], pieces[i + 1]) for i in range(1, len(pieces), 3)]
        if any(m for m, _ in specs):
            return [('v', S(('pct', term(a), b)), st)]
        need = [s for _, s in specs if s != '%']
        vals = list(b.a[0]) if b.k == 'T' else [b]
        if b.k == 'U':
            vals = [b] * len(need)
        if len(vals) != len(need):
            if not (b.k == 'R' and b.a[0] == 'dict' and not need):
                return [self.x(st, 'TypeError', 'number of format arguments', n)]
        parts = [pieces[0]]
        it = iter(vals)
        for i, (_, s) in enumerate(specs):
            if s == '%':
                parts.append('%')
            else:
                v = next(it)
                p = self.fmt(s, v, st, n)
                if p is None:
                    return [self.x(st, 'TypeError', '%{} needs a number, not {}'.format(s, self.kind(v)), n)]
                parts.append(p)
            parts.append(pieces[3 * i + 3])
        return [('v', S(('cat', tuple(parts))), st)]

    def e_JoinedStr(self, n, st, env):
        vals = [v for v in n.values if isinstance(v, ast.FormattedValue)]

        def go(vs, s):
            it = iter(vs)
            parts = []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    parts.append(v.value)
                    continue
                w = next(it)
                spec = ''
                if v.format_spec is not None:
                    spec = ''.join(x.value for x in v.format_spec.values if isinstance(x, ast.Constant))
                c = spec[-1:] if spec[-1:].isalpha() else 's'
                if v.conversion not in (-1, 115):
                    c = 'r'
                p = self.fmt(c, w, s, n)
                if p is None:
                    return [self.x(s, 'ValueError', 'format code', n)]
                parts.append(p)
            return [('v', S(('cat', tuple(parts))), s)]
        return self.seq(self.evals([v.value for v in vals], st, env), go)

    def e_Subscript(self, n, st, env):
        if isinstance(n.slice, ast.Slice):
            sl = n.slice
            parts = [x for x in (sl.lower, sl.upper, sl.step) if x is not None]

            def go(vs, s):
                o, it = vs[0], iter(vs[1:])
                lo, hi, step = [next(it) if x is not None else NONE for x in (sl.lower, sl.upper, sl.step)]
                return self.slice(o, lo, hi, step, s, n)
            return self.seq(self.evals([n.value] + parts, st, env), go)
        return self.seq(self.evals([n.value, n.slice], st, env), lambda vs, s: self.index(vs[0], vs[1], s, n))

    def slice(self, o, lo, hi, step, st, n):
        for b in (lo, hi, step):
            if b.k == 'S' or b.k == 'C' and not (b.a[0] is None or isinstance(b.a[0], int)):
                return [self.x(st, 'TypeError', 'slice indices', n)]
        consts = all(b.k == 'C' for b in (lo, hi, step))
        if o.k == 'C' and isinstance(o.a[0], (str, bytes, tuple)) and consts:
            return [('v', C(o.a[0][lo.a[0]:hi.a[0]:step.a[0]]), st)]
        if o.k == 'S' or o.k == 'C' and isinstance(o.a[0], str):
            if lo.k == 'C' and hi == NONE and step == NONE and isinstance(lo.a[0], int) and lo.a[0] > 0:
                for p, val in st.facts.items():
                    if val and p[0] == 'startswith' and p[1] == term(o) and len(p[2]) != lo.a[0]:
                        self.findings.append((n.lineno, 'the prefix {!r} is tested, but {} characters are cut off'.format(p[2], lo.a[0])))
            return [('v', S(('slice', term(o), term(lo), term(hi), term(step))), st)]
        if o.k == 'T' and consts:
            return [('v', V('T', o.a[0][lo.a[0]:hi.a[0]:step.a[0]]), st)]
        if o.k == 'R' and o.a[0] == 'list' and consts:
            st = st.fork()
            return [('v', self.ref(st, 'list', st.heap[o][lo.a[0]:hi.a[0]:step.a[0]]), st)]
        if o.k == 'COL':
            return [('v', V('COL', ('slice', o.a[0], term(lo), term(hi)), o.a[1]), st)]
        if o.k == 'B':
            return [('v', V('B', ('slice', o.a[0], term(lo), term(hi))), st)]
        if o.k in ('C', 'I', 'MO') or o.k == 'R':
            return [self.x(st, 'TypeError', 'not subscriptable', n)]
        return [('v', V('U', 'slice', o), st)]

    def index(self, o, i, st, n):
        if o.k == 'R' and o.a[0] == 'dict':
            for a, b in st.heap[o]:
                if a == i:
                    return [('v', b, st)]
            if i.k == 'C' and all(a.k == 'C' for a, _ in st.heap[o]):
                return [self.x(st, 'KeyError', repr(i.a[0]), n)]
            return [self.x(st, 'KeyError', 'unknown key', n), ('v', self.unk('unknown key', n), st)]
        items = self.items(o, st)
        if items is not None and not (o.k == 'R' and o.a[0] == 'set'):
            if i.k == 'C' and isinstance(i.a[0], int):
                if -len(items) <= i.a[0] < len(items):
                    return [('v', items[i.a[0]], st)]
                return [self.x(st, 'IndexError', 'index {} of {}'.format(i.a[0], len(items)), n)]
            if i.k == 'C':
                return [self.x(st, 'TypeError', 'indices must be integers', n)]
            return [('v', self.unk('computed index', n), st)]
        if o.k == 'COL':
            f = self.implied(('nonempty', o.a[0]), st.facts)
            res = [('v', self.elem(o, i.a[0] if i.k == 'C' else ('?', i)), st)]
            safe = i.k == 'C' and i.a[0] in (0, -1) and (f is True or o.a[0][0] == 'split')
            if not safe:
                res.append(self.x(st, 'IndexError', 'list index', n))
            return res
        if o.k in ('S', 'B'):
            res = [('v', S(('at', term(o), term(i))) if o.k == 'S' else V('I', ('at', term(o), term(i))), st)]
            if not (i.k == 'C' and i.a[0] in (0, -1) and self.implied(('nonempty', o.a[0]), st.facts)):
                res.append(self.x(st, 'IndexError', 'string index', n))
            return res
        if o.k == 'M' and o.a[0] == 'sys.version_info':
            return [('v', C(3), st) if i == C(0) else ('v', V('I', ('pyminor', term(i))), st)]
        if o.k == 'M' and o.a[0] == 'os.environ':
            return [('v', V('S', ('env', term(i))), st), self.x(st, 'KeyError', 'environment variable', n)]
        if o.k == 'MO':
            return self.method(V('BM', o, 'group'), (i,), {}, st, n)
        if o.k in ('C', 'I', 'P', 'F', 'E') or o.k == 'R':
            return [self.x(st, 'TypeError', 'not subscriptable: ' + self.kind(o), n)]
        return [('v', V('U', 'item', o, i), st)]

    def comp(self, n, st, env, kind):
        """comprehensions: elements of known sequences one by one, of unknown ones for one arbitrary element"""
        fr_parent = env
        st = st.fork()
        env = self.ref(st, 'env', {'__parent__': fr_parent})
        exact = [True]

        def gen(i, s):
            """[(k, list of (value) , state)]"""
            if i == len(n.generators):
                outs = self.evals([n.elt] if kind != 'dict' else [n.key, n.value], s, env)
                return self.seq(outs, lambda vs, u: [('v', ((vs[0] if kind != 'dict' else vs),), u)])
            g = n.generators[i]

            def over(v, u):
                items = self.items(v, u)
                arb = items is None
                if arb:
                    if v.k == 'C':
                        return [self.x(u, 'TypeError', 'not iterable', n)]
                    if v.k not in ('COL', 'S', 'FI'):
                        self.unk('comprehension over ' + v.k, n)
                    exact[0] = False
                    items = [self.elem(v, ('any', n.lineno)) if v.k in ('COL', 'S', 'FI') else V('U', 'elem', v)]
                outs = [('v', (), u)]
                for it in items:
                    def one(acc, w, it=it):
                        res = []
                        for k, x, w2 in self.store(g.target, it, w, env):
                            if k != 'next':
                                res.append((k, x, w2))
                                continue
                            live = [('v', True, w2)]
                            for c in g.ifs:
                                def filt(ok, w3, c=c):
                                    if not ok:
                                        return [('v', False, w3)]
                                    return self.seq(self.ev(c, w3, env), lambda b, w4: [('v', t, w5) for t, w5 in self.truth(b, w4)])
                                live = self.seq(live, filt)
                            for k2, ok, w3 in live:
                                if k2 == 'x':
                                    res.append((k2, ok, w3))
                                elif ok:
                                    res += self.seq(gen(i + 1, w3), lambda vs, w4: [('v', acc + vs, w4)])
                                else:
                                    res.append(('v', acc, w3))
                        return res
                    outs = self.seq(outs, one)
                return outs
            return self.seq(self.ev(g.iter, s, env), over)
        outs = gen(0, st)
        res = []
        if exact[0]:
            for k, vs, s in outs:
                if k == 'x':
                    res.append((k, vs, s))
                    continue
                s = s.fork()
                if kind == 'dict':
                    res.append(('v', self.ref(s, 'dict', tuple(dict(vs).items())), s))
                else:
                    res.append(('v', self.ref(s, 'list' if kind == 'gen' else kind, tuple(dict.fromkeys(vs)) if kind == 'set' else vs), s))
            return res
        res = [o for o in outs if o[0] == 'x']
        kinds = {self.kind(x) for k, vs, s in outs if k == 'v' for x in vs if isinstance(x, V)}
        # one arbitrary element stands for all; its facts are not facts about the collection
        t = ('comp', n.lineno, n.col_offset, ast.dump(n.generators[0].iter)) + tuple(sorted(repr(self.lookup(x.id, st, env)) for x in ast.walk(n.generators[0].iter) if isinstance(x, ast.Name)))
        self.defs = getattr(self, 'defs', {})
        self.defs[t] = sorted({x.a[0] for k, vs, s in outs if k == 'v' for x in vs if isinstance(x, V) and x.k == 'S'}, key=repr)
        if kind == 'dict':
            res.append(('v', self.unk('dictionary comprehension', n), st))
        else:
            res.append(('v', V('COL', t, 'str' if kinds == {'str'} else '?'), st))
        return res

    def e_ListComp(self, n, st, env):
        return self.comp(n, st, env, 'list')

    def e_SetComp(self, n, st, env):
        return self.comp(n, st, env, 'set')

    def e_GeneratorExp(self, n, st, env):
        return self.comp(n, st, env, 'gen')

    def e_DictComp(self, n, st, env):
        return self.comp(n, st, env, 'dict')

    def e_Starred(self, n, st, env):
        return [('v', self.unk('starred', n), st)]

    def e_Attribute(self, n, st, env):
        return self.seq(self.ev(n.value, st, env), lambda o, s: self.attr(o, n.attr, s, n))

    def attr(self, o, a, st, n):
        if o.k == 'M':
            p = o.a[0] + '.' + a
            if o.a[0] == 'errno' and hasattr(_errno, a):
                return [('v', C(getattr(_errno, a)), st)]
            if p in ('sys.platform', 'os.name', 'os.sep', 'sys.executable', 'os.linesep'):
                return [('v', V('S', (p,)), st)]
            if p == 'os.devnull':
                return [('v', V('S', (p,)), st)]
            if p == 'sys.version_info.major':
                return [('v', C(3), st)]
            return [('v', V('M', ALIASES.get(p, p)), st)]
        if o.k == 'PM':
            return self.import_attr(o, a, st, n)
        if o.k == 'R' and o.a[0] == 'inst':
            cls, attrs = st.heap[o]
            d = dict(attrs)
            if a in d:
                return [('v', d[a], st)]
            v, bound = self.class_attr(cls, a, st)
            if v is not None:
                return [('v', V('BMU', v, o) if bound else v, st)]
            return [self.x(st, 'AttributeError', a, n)]
        if o.k == 'K':
            v, _ = self.class_attr(o, a, st)
            if v is not None:
                return [('v', v, st)]
            if a == '__name__':
                return [('v', C(o.a[1]), st)]
            return [self.x(st, 'AttributeError', a, n)]
        if o.k == 'E':
            d = dict(o.a[2])
            if a in d:
                return [('v', d[a], st)]
            if a in ('args',):
                return [('v', V('U', 'args', o), st)]
            if a in ('errno', 'strerror', 'filename') and 'OSError' in self.chain(o.a[0], st):
                return [('v', V('U', a, o), st)]
            if a in ('returncode', 'output', 'stdout', 'stderr', 'cmd'):
                return [('v', V('U', a, o), st)]
            return [self.x(st, 'AttributeError', a, n)]
        if o.k == 'PR':
            if a == 'returncode':
                return [('v', V('I', ('rc', o.a[0])), st)]
            if a in ('stdout', 'stderr'):
                return [('v', o.a[1] if a == 'stdout' else o.a[2], st)]
            return [('v', V('BM', o, a), st)]
        if o.k == 'U':
            return [('v', V('U', a, o), st)]
        if o.k in ('C', 'S', 'B', 'COL', 'T', 'R', 'MO', 'FI', 'I', 'RE'):
            real = {'S': str, 'B': bytes, 'T': tuple, 'I': int, 'MO': _re.Match, 'RE': _re.Pattern}.get(o.k) or (type(o.a[0]) if o.k == 'C' else {'list': list, 'dict': dict, 'set': set}.get(o.a[0]) if o.k == 'R' else None)
            if o.k == 'MO':
                out = []
                for b, s in self.truth(o, st):
                    out.append(('v', V('BM', o, a), s) if b and hasattr(real, a) else self.x(s, 'AttributeError', 'None.' + a if not b else a, n))
                return out
            if real is not None and not hasattr(real, a):
                return [self.x(st, 'AttributeError', '{}.{}'.format(self.kind(o), a), n)]
            return [('v', V('BM', o, a), st)]
        if o.k == 'F':
            return [('v', V('U', a, o), st)]
        return [('v', self.unk('attribute {} of {}'.format(a, o.k), n), st)]

    def import_attr(self, o, a, st, n):
        key = V('MOD', o.a[0])
        if not self.wanted(o.a[0]):
            return [('v', V('U', o.a[0] + ':' + a), st)]
        outs = [('next', None, st)]
        if key not in st.heap:
            st = st.fork()
            r = self.module(o.a[0], st)
            if r is None:
                return [self.x(st, 'ImportError', o.a[0], n)]
            env, outs = r
            for k, v, s in outs:
                s.heap[key] = env
        res = []
        for k, v, s in outs:
            if k == 'x':
                res.append((k, v, s))
                continue
            w = s.heap[s.heap[key]].get(a)
            res.append(('v', w, s) if w is not None else self.x(s, 'AttributeError', a, n))
        return res

    def class_attr(self, cls, a, st):
        """(value, is a method)"""
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c.k != 'K':
                continue
            bases, env = st.heap[c]
            if a in st.heap[env]:
                v = st.heap[env][a]
                return v, v.k == 'F'
            todo += list(bases)
        return None, False

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, st, env):
        def go(f, s):
            pos, star = [], False
            for a in n.args:
                if isinstance(a, ast.Starred):
                    star = True
                    pos.append(a.value)
                else:
                    pos.append(a)

            def withargs(vs, u):
                args = []
                for a, v in zip(n.args, vs):
                    if isinstance(a, ast.Starred):
                        items = self.items(v, u)
                        if items is None:
                            return [('v', self.unk('*arguments', n), u)]
                        args += items
                    else:
                        args.append(v)

                def withkw(ks, w):
                    kw = {}
                    for k, v in zip(n.keywords, ks):
                        if k.arg is None:
                            if v.k == 'R' and v.a[0] == 'dict':
                                for a, b in w.heap[v]:
                                    kw[a.a[0]] = b
                            else:
                                return [('v', self.unk('**arguments', n), w)]
                        else:
                            kw[k.arg] = v
                    return self.call(f, tuple(args), kw, w, n, env)
                return self.seq(self.evals([k.value for k in n.keywords], u, env), withkw)
            return self.seq(self.evals(pos, s, env), withargs)
        return self.seq(self.ev(n.func, st, env), go)

    def call(self, f, args, kw, st, n, env=None):
        self.tick()
        if f.k == 'F':
            return self.call_user(f, args, kw, st, n)
        if f.k == 'BMU':
            return self.call_user(f.a[0], (f.a[1],) + tuple(args), kw, st, n)
        if f.k == 'BM':
            return self.method(f, args, kw, st, n)
        if f.k == 'K':
            ch = self.chain(f, st)
            if 'BaseException' in ch:
                return [('v', V('E', f, str(args[0].a[0]) if args and args[0].k == 'C' else '', ()), st)]
            st = st.fork()
            o = self.ref(st, 'inst', (f, ()))
            init, _ = self.class_attr(f, '__init__', st)
            if init is None:
                return [('v', o, st)] if not args and not kw else [self.x(st, 'TypeError', 'takes no arguments', n)]
            return self.seq(self.call_user(init, (o,) + tuple(args), kw, st, n), lambda v, s: [('v', o, s)])
        if f.k == 'M':
            return self.external(f.a[0].replace('builtins.', ''), args, kw, st, n, env)
        if f.k == 'C':
            return [self.x(st, 'TypeError', 'not callable', n)]
        if f.k != 'U':
            self.unk('call of ' + f.k, n)
        else:
            self.unk('call of an unknown function', n)
        return [('v', V('U', 'call', f, self.steps), st)]

    def oserrors(self, st, n, what):
        return [self.x(st, c, what, n, errno=C(e)) for c, e in OSERRORS]

    def command(self, name, args, kw, st, n):
        """all outcomes of an external command"""
        cmd = args[0] if args else kw.get('args', NONE)
        words = self.items(cmd, st)
        rec = (n.lineno, tuple(w.a[0] if w.k == 'C' else repr(w) for w in words) if words else None, kw.get('cwd'))
        self.commands.append((rec, dict(st.facts)))
        if words is not None and any(w.k == 'C' and not isinstance(w.a[0], (str, bytes)) for w in words):
            return [self.x(st, 'TypeError', 'command words must be strings', n)]
        res = self.oserrors(st, n, 'starting a command')
        self.refs += 1
        st = st.fork()
        t = ('proc', n.lineno, self.refs)
        pipe = {k: kw.get(k) in (V('M', 'subprocess.PIPE'), C(-1)) for k in ('stdout', 'stderr')}
        if kw.get('capture_output') == C(True) or name == 'check_output':
            pipe['stdout'] = True
        text = any(k in kw and kw[k] != C(False) and kw[k] != NONE for k in ('text', 'universal_newlines', 'encoding'))
        lenient = kw.get('errors') is not None and kw['errors'] in (C('replace'), C('ignore'), C('backslashreplace'), C('surrogateescape'))
        out = NONE if not pipe['stdout'] else V('S', ('out', t)) if text else V('B', ('out', t))
        err = NONE if not pipe['stderr'] else V('S', ('err', t)) if text else V('B', ('err', t))
        p = V('PR', t, out, err)
        if name == 'Popen':
            return res + [('v', p, st)]
        if text and not lenient and pipe['stdout']:
            res.append(self.x(st, 'UnicodeDecodeError', 'output of a command', n))
        if 'timeout' in kw and kw['timeout'] != NONE:
            res.append(self.x(st, 'subprocess.TimeoutExpired', 'command', n))
        if name in ('check_output', 'check_call') or kw.get('check') == C(True):
            for b, s in self.decide(('eq', ('rc', t), ('c', 0)), False, st):
                if b:
                    res.append(('v', {'check_output': out, 'check_call': C(0)}.get(name, p), s))
                else:
                    res.append(self.x(s, 'subprocess.CalledProcessError', 'command', n))
            return res
        if name == 'call':
            return res + [('v', V('I', ('rc', t)), st)]
        return res + [('v', p, st)]

    def decode(self, o, args, kw, st, n):
        e = kw.get('errors') or (args[1] if len(args) > 1 else None)
        enc = kw.get('encoding') or (args[0] if args else C('utf-8'))
        res = [('v', V('S', ('dec', term(o))), st)]
        if not (e is not None and e in (C('replace'), C('ignore'), C('backslashreplace'), C('surrogateescape'))) and not (enc.k == 'C' and str(enc.a[0]).lower().replace('_', '-') in ('latin-1', 'latin1', 'iso-8859-1')):
            res.append(self.x(st, 'UnicodeDecodeError', 'undecodable output', n))
        return res

    def isint(self, t, st):
        """is string term t a decimal number on this path?"""
        while t[0] in ('strip', 'm') and t[0] == 'm' and t[1] in ('strip', 'lstrip', 'rstrip'):
            if st.facts.get(('isdigit', t)):
                return True
            t = t[2]
        if st.facts.get(('isdigit', t)) or t[0] == 'digits':
            return True
        for p, val in st.facts.items():
            if val and p[0] == 'isdigit':
                u = p[1]
                while u[0] == 'm' and u[1] in ('strip', 'lstrip', 'rstrip'):
                    u = u[2]
                if u == t:
                    return True
            if val and p[0] == 'matched' and len(p[1]) > 2 and p[1][2] == t and p[1][0] in ('fullmatch', 'match', 'search') and isinstance(p[1][1], str):
                pat = p[1][1]
                core = pat[1:] if pat.startswith('^') else pat
                core2 = core[:-1] if core.endswith('$') else core[:-2] if core.endswith('\\Z') else core
                if core2 in ('\\d+', '[0-9]+') and (p[1][0] == 'fullmatch' or (core2 != core and (p[1][0] == 'match' or pat.startswith('^')))):
                    return True
        return False

    def method(self, f, args, kw, st, n):
        o, a = f.a
        res = []
        if o.k == 'C' and isinstance(o.a[0], (str, bytes)) and all(x.k == 'C' for x in args) and all(x.k == 'C' for x in kw.values()) and a != 'join':
            try:
                r = getattr(o.a[0], a)(*[x.a[0] for x in args], **{k: x.a[0] for k, x in kw.items()})
            except Exception as ex:
                return [self.x(st, type(ex).__name__, str(ex), n)]
            if isinstance(r, list):
                st = st.fork()
                return [('v', self.ref(st, 'list', tuple(C(x) for x in r)), st)]
            if isinstance(r, tuple):
                return [('v', V('T', tuple(C(x) for x in r)), st)]
            return [('v', C(r), st)]
        if self.kind(o) == 'str':
            return self.str_method(o, a, args, kw, st, n)
        if o.k == 'B':
            if a in ('strip', 'rstrip', 'lstrip', 'replace'):
                return [('v', V('B', ('m', a, o.a[0])), st)]
            if a == 'decode':
                return self.decode(o, args, kw, st, n)
            if a in ('split', 'splitlines'):
                return [('v', V('U', a, o), st)]
            return [('v', self.unk('bytes.' + a, n), st)]
        if o.k == 'PR':
            if a == 'communicate':
                r = V('T', (o.a[1], o.a[2]))
                res = [('v', r, st)]
                if o.a[1].k == 'S':
                    res.append(self.x(st, 'UnicodeDecodeError', 'output of a command', n))
                if args[1:] or 'timeout' in kw:
                    res.append(self.x(st, 'subprocess.TimeoutExpired', 'command', n))
                return res
            if a in ('wait', 'poll'):
                return [('v', V('I', ('rc', o.a[0])), st)]
            if a in ('kill', 'terminate'):
                return [('v', NONE, st)]
            if a == 'check_returncode':
                return [('v', NONE, s) if b else self.x(s, 'subprocess.CalledProcessError', 'command', n) for b, s in self.decide(('eq', ('rc', o.a[0]), ('c', 0)), False, st)]
            return [('v', self.unk('process.' + a, n), st)]
        if o.k == 'MO':
            if a == 'group' and len(args) <= 1:
                g = args[0].a[0] if args and args[0].k == 'C' else 0
                pat = o.a[0][1]
                if isinstance(pat, str):
                    try:
                        gs = groups(pat)
                    except Exception:
                        gs = None
                    if gs is not None:
                        if g not in gs:
                            return [self.x(st, 'IndexError', 'no such group', n)]
                        body, opt = gs[g]
                        t = ('group', o.a[0], g)
                        if body in ('\\d+', '[0-9]+'):
                            t = ('digits', o.a[0], g)
                        if opt:
                            return [('v', NONE, st), ('v', V('S', t), st)]
                        return [('v', V('S', t), st)]
                return [('v', V('S', ('group', o.a[0], g)), st)]
            if a in ('groups', 'span'):
                pat = o.a[0][1]
                gs = groups(pat) if isinstance(pat, str) else None
                if a == 'groups' and gs is not None and not any(op for _, op in gs.values()):
                    ks = sorted(k for k in gs if isinstance(k, int) and k > 0)
                    return [('v', V('T', tuple(V('S', (('digits' if gs[k][0] in ('\\d+', '[0-9]+') else 'group'), o.a[0], k)) for k in ks)), st)]
            if a in ('start', 'end'):
                return [('v', V('I', (a, o.a[0], args)), st)]
            return [('v', self.unk('match.' + a, n), st)]
        if o.k == 'RE':
            return self.external('re.' + a, (o.a[0],) + tuple(args), kw, st, n, None)
        if o.k == 'FI':
            if a in ('read', 'readline'):
                return [('v', V('S', ('file', self.steps)), st), self.x(st, 'UnicodeDecodeError', 'reading a file', n), self.x(st, 'OSError', 'reading a file', n, errno=C(5))]
            if a == 'readlines':
                return [('v', V('COL', ('lines', o.a), 'str'), st), self.x(st, 'UnicodeDecodeError', 'reading a file', n), self.x(st, 'OSError', 'reading a file', n, errno=C(5))]
            return [('v', NONE, st)]
        if o.k == 'R' and o.a[0] == 'dict':
            d = st.heap[o]
            if a == 'get':
                for x, y in d:
                    if x == args[0]:
                        return [('v', y, st)]
                return [('v', args[1] if len(args) > 1 else kw.get('default', NONE), st)]
            if a in ('keys', 'values', 'items', 'copy'):
                st = st.fork()
                if a == 'copy':
                    return [('v', self.ref(st, 'dict', d), st)]
                return [('v', self.ref(st, 'list', tuple({'keys': x, 'values': y, 'items': V('T', (x, y))}[a] for x, y in d)), st)]
            if a == 'setdefault':
                for x, y in d:
                    if x == args[0]:
                        return [('v', y, st)]
                st = st.fork()
                v = args[1] if len(args) > 1 else NONE
                st.heap[o] = d + ((args[0], v),)
                return [('v', v, st)]
            if a == 'update':
                st = st.fork()
                m = dict(d)
                if args:
                    if args[0].k == 'R' and args[0].a[0] == 'dict':
                        m.update(dict(st.heap[args[0]]))
                    else:
                        self.unk('dict.update', n)
                m.update({C(k): v for k, v in kw.items()})
                st.heap[o] = tuple(m.items())
                return [('v', NONE, st)]
            if a == 'pop':
                for x, y in d:
                    if x == args[0]:
                        st = st.fork()
                        st.heap[o] = tuple((p, q) for p, q in d if p != x)
                        return [('v', y, st)]
                return [('v', args[1], st)] if len(args) > 1 else [self.x(st, 'KeyError', str(args[0]), n)]
            return [('v', self.unk('dict.' + a, n), st)]
        if o.k == 'R' and o.a[0] in ('list', 'set'):
            st = st.fork()
            li = st.heap[o]
            if a in ('append', 'add'):
                st.heap[o] = li + (args[0],)
                return [('v', NONE, st)]
            if a in ('extend', 'update'):
                items = self.items(args[0], st)
                if items is None:
                    self.unk('list.extend', n)
                st.heap[o] = li + tuple(items or ())
                return [('v', NONE, st)]
            if a == 'insert':
                st.heap[o] = li + (args[1],)
                return [('v', NONE, st)]
            if a == 'pop':
                if not li:
                    return [self.x(st, 'IndexError', 'pop from empty list', n)]
                i = args[0].a[0] if args and args[0].k == 'C' else -1
                v = li[i]
                li = list(li)
                li.pop(i)
                st.heap[o] = tuple(li)
                return [('v', v, st)]
            if a in ('reverse',):
                st.heap[o] = li[::-1]
                return [('v', NONE, st)]
            if a == 'copy':
                return [('v', self.ref(st, o.a[0], li), st)]
            if a == 'sort':
                return [('v', NONE, st)]
            return [('v', self.unk('{}.{}'.format(o.a[0], a), n), st)]
        if o.k == 'COL':
            if a in ('append', 'add', 'sort', 'reverse', 'discard'):
                return [('v', NONE, st)]
            if a == 'pop':
                return [('v', self.elem(o, 'pop'), st), self.x(st, 'IndexError', 'pop from an empty collection', n)]
            if a in ('difference', 'union', 'intersection', 'copy'):
                return [('v', V('COL', (a, o.a[0]), o.a[1]), st)]
            return [('v', self.unk('collection.' + a, n), st)]
        if o.k == 'I':
            return [('v', self.unk('int.' + a, n), st)]
        return [('v', self.unk('method {} of {}'.format(a, o.k), n), st)]

    def str_method(self, o, a, args, kw, st, n):
        isstr = [self.kind(x) in ('str', '?') for x in args]
        if a in STR_STR:
            if a in ('strip', 'lstrip', 'rstrip') and args and not (isstr[0] or args[0] == NONE) or a in ('replace', 'removeprefix', 'removesuffix') and not all(isstr[:2]):
                return [self.x(st, 'TypeError', a, n)]
            if a == 'removeprefix' and args and args[0].k == 'C' and self.implied(('startswith', term(o), args[0].a[0]), st.facts):
                return [('v', S(('slice', term(o), ('c', len(args[0].a[0])), ('c', None), ('c', None))), st)]
            return [('v', S(('m', a, term(o)) + tuple(term(x) for x in args)), st)]
        if a in STR_PRED:
            if a in ('startswith', 'endswith'):
                if args and args[0].k == 'T':
                    return [('v', V('P', (a, term(o), args[0]), False), st)]
                if not args or not isstr[0]:
                    return [self.x(st, 'TypeError', a, n)]
                if o.k == 'S' and o.a[0][0] == 'cat' and args[0].k == 'C':
                    p = o.a[0][1][0] if a == 'startswith' else o.a[0][1][-1]
                    if isinstance(p, str) and len(p) >= len(args[0].a[0]):
                        return [('v', C(getattr(p, a)(args[0].a[0])), st)]
                if args[0].k == 'C':
                    return [('v', V('P', (a, term(o), args[0].a[0]), False), st)]
                return [('v', V('P', (a, term(o), str(term(args[0]))), False), st)]
            if a in ('isdigit', 'isdecimal'):
                return [('v', V('P', ('isdigit', term(o)), False), st)]
            return [('v', V('P', (a, term(o)), False), st)]
        if a in ('split', 'rsplit', 'splitlines'):
            sep = args[0] if args else kw.get('sep', NONE)
            t = 'split' if sep != NONE and a != 'splitlines' else 'words'
            if sep == C(''):
                return [self.x(st, 'ValueError', 'empty separator', n)]
            mx = args[1] if len(args) > 1 else kw.get('maxsplit')
            if t == 'split' and sep.k == 'C' and mx is not None and mx.k == 'C' and mx.a[0] == 1:
                # one or two parts
                res = []
                for b, s in self.decide(('contains', term(o), sep.a[0]), False, st):
                    s = s.fork()
                    parts = (S(('part', a, term(o), sep.a[0], 0)), S(('part', a, term(o), sep.a[0], 1))) if b else (o,)
                    res.append(('v', self.ref(s, 'list', parts), s))
                return res
            return [('v', V('COL', (t, a, term(o), term(sep), term(mx) if mx is not None else None), 'str'), st)]
        if a in ('partition', 'rpartition'):
            return [('v', V('T', tuple(S(('m', a, term(o), term(args[0]), i)) for i in range(3))), st)]
        if a in ('index', 'rindex'):
            v = ('v', V('I', (a, term(o), term(args[0]))), st)
            if args[0].k == 'C' and self.implied(('contains', term(o), args[0].a[0]), st.facts):
                return [v]
            if o.k == 'S' and o.a[0][0] == 'cat' and args[0].k == 'C' and any(isinstance(p, str) and args[0].a[0] in p for p in o.a[0][1]):
                return [v]
            return [v, self.x(st, 'ValueError', 'substring not found', n)]
        if a in ('find', 'rfind', 'count'):
            return [('v', V('I', (a, term(o), term(args[0]))), st)]
        if a == 'join':
            items = self.items(args[0], st)
            if items is not None and all(self.kind(x) == 'str' for x in items):
                parts = []
                for i, x in enumerate(items):
                    if i:
                        parts.append(part(o))
                    parts.append(part(x))
                return [('v', S(('cat', tuple(parts))), st)]
            if items is not None and any(self.kind(x) in ('num', 'none') for x in items):
                return [self.x(st, 'TypeError', 'join', n)]
            if args[0].k == 'C':
                return [self.x(st, 'TypeError', 'join', n)]
            return [('v', S(('join', term(o), term(args[0]))), st)]
        if a == 'format':
            if o.k == 'C':
                pieces = _re.split(r'\{(\w*)(?:![rs])?(?::([^{}]*))?\}', o.a[0].replace('{{', '\0').replace('}}', '\1'))
                parts, auto = [pieces[0]], 0
                for i in range(1, len(pieces), 3):
                    nm = pieces[i]
                    if nm == '':
                        nm, auto = str(auto), auto + 1
                    v = (args[int(nm)] if int(nm) < len(args) else None) if nm.isdigit() else kw.get(nm)
                    if v is None:
                        return [self.x(st, 'IndexError' if nm.isdigit() else 'KeyError', 'format argument', n)]
                    spec = (pieces[i + 1] or 's')[-1]
                    p = self.fmt(spec if spec.isalpha() else 's', v, st, n)
                    if p is None:
                        return [self.x(st, 'ValueError', 'format code', n)]
                    parts += [p, pieces[i + 2]]
                parts = tuple(p.replace('\0', '{').replace('\1', '}') if isinstance(p, str) else p for p in parts)
                return [('v', S(('cat', parts)), st)]
            return [('v', S(('fmt', term(o))), st)]
        if a == 'encode':
            return [('v', V('B', ('enc', term(o))), st), self.x(st, 'UnicodeEncodeError', 'encode', n)] if not kw and len(args) < 2 else [('v', V('B', ('enc', term(o))), st)]
        return [('v', self.unk('str.' + a, n), st)]

    def external(self, p, args, kw, st, n, env):
        one = args[0] if args else NONE
        if p in EXTERNAL_BASES or isinstance(getattr(builtins, p, None), type) and issubclass(getattr(builtins, p), BaseException):
            return [('v', V('E', p, str(one.a[0]) if one.k == 'C' and args else '', ()), st)]
        if p.startswith('subprocess.') and p[11:] in ('Popen', 'run', 'check_output', 'check_call', 'call'):
            return self.command(p[11:], args, kw, st, n)
        if p.startswith('os.path.'):
            a = p[8:]
            for x in args:
                if self.kind(x) in ('none', 'num'):
                    return [self.x(st, 'TypeError', p, n)]
            if a in ('basename', 'dirname') and one.k == 'C':
                import posixpath
                return [('v', C(getattr(posixpath, a)(one.a[0])), st)]
            if a in PATHS:
                return [('v', S(('path', a) + tuple(term(x) for x in args)), st)]
            if a in ('exists', 'isfile', 'isdir', 'islink', 'isabs', 'lexists', 'samefile'):
                return [('v', V('P', (a,) + tuple(term(x) for x in args), False), st)]
            if a in ('split', 'splitext'):
                return [('v', V('T', (S(('path', 'dirname' if a == 'split' else 'stem', term(one))), S(('path', 'basename' if a == 'split' else 'ext', term(one))))), st)]
        if p == 'os.getcwd':
            return [('v', V('S', ('cwd',)), st)] + self.oserrors(st, n, 'current directory')
        if p in ('os.listdir', 'os.scandir'):
            return [('v', V('COL', ('listdir', term(one)), 'str'), st)] + self.oserrors(st, n, 'reading a directory')
        if p in ('os.environ.get', 'os.getenv'):
            return [('v', V('S', ('env', term(one))), st), ('v', args[1] if len(args) > 1 else NONE, st)]
        if p == 'os.environ.copy' or p == 'dict' and args and args[0] == V('M', 'os.environ'):
            return [('v', V('U', 'environ'), st)]
        if p == 'os.fspath':
            return [('v', one, st)]
        if p in ('open', 'io.open'):
            return [('v', V('FI', n.lineno, self.steps), st)] + self.oserrors(st, n, 'opening a file')
        if p in ('re.search', 're.match', 're.fullmatch'):
            pat, s = args[0], args[1]
            if pat.k == 'RE':
                pat = pat.a[0]
            if self.kind(s) in ('none', 'num') or self.kind(pat) in ('none', 'num'):
                return [self.x(st, 'TypeError', p, n)]
            return [('v', V('MO', (p[3:], pat.a[0] if pat.k == 'C' else term(pat), term(s))), st)]
        if p == 're.compile':
            return [('v', V('RE', one), st)]
        if p == 're.sub':
            return [('v', S(('sub',) + tuple(term(x) for x in args)), st)]
        if p in ('re.split', 're.findall'):
            return [('v', V('COL', (p,) + tuple(term(x) for x in args), 'str'), st)]
        if p == 're.escape':
            return [('v', S(('escape', term(one))), st)]
        if p == 'contextlib.suppress':
            return [('v', V('SUP', tuple(args)), st)]
        if p == 'sys.exc_info':
            if st.exc is None:
                return [('v', V('T', (NONE, NONE, NONE)), st)]
            e = self.exc_value(st.exc)
            return [('v', V('T', (V('M', st.exc.cls) if isinstance(st.exc.cls, str) else st.exc.cls, e, V('U', 'tb'))), st)]
        if p == 'setattr' and len(args) == 3 and args[1].k == 'C' and one.k == 'R' and one.a[0] == 'inst':
            st = st.fork()
            d = dict(st.heap[one][1])
            d[args[1].a[0]] = args[2]
            st.heap[one] = (st.heap[one][0], tuple(sorted(d.items(), key=lambda x: x[0])))
            return [('v', NONE, st)]
        if p in ('print', 'warnings.warn') or p.startswith('logging.'):
            return [('v', NONE, st)]
        if p == 'super':
            return [('v', V('U', 'super'), st)]
        if p == 'isinstance':
            return [('v', self.isinst(one, args[1]), st)]
        if p == 'str' or p == 'repr' or p == 'ascii' or p == 'format':
            if not args:
                return [('v', C(''), st)]
            if self.kind(one) == 'bytes' and (len(args) > 1 or kw):
                return self.decode(one, args[1:], kw, st, n)
            q = self.fmt('s' if p == 'str' else 'r', one, st, n)
            return [('v', S(('cat', (q,))) if q is not None else S(('str', one)), st)]
        if p == 'int':
            if one.k == 'C':
                try:
                    return [('v', C(int(one.a[0])), st)]
                except Exception as ex:
                    return [self.x(st, type(ex).__name__, str(ex), n)]
            if one.k in ('I', 'P'):
                return [('v', V('I', term(one)), st)]
            if one.k == 'S':
                v = ('v', V('I', ('int', one.a[0])), st)
                return [v] if self.isint(one.a[0], st) else [v, self.x(st, 'ValueError', 'int() of text that need not be a number', n)]
            if one.k == 'B':
                return [('v', V('I', ('int', one.a[0])), st), self.x(st, 'ValueError', 'int() of output that need not be a number', n)]
            if one.k == 'U':
                return [('v', V('I', ('int', one)), st)]
            return [self.x(st, 'TypeError', 'int', n)]
        if p == 'float':
            return [('v', V('I', ('float', term(one))), st)] + ([self.x(st, 'ValueError', 'float', n)] if one.k == 'S' else [])
        if p == 'len':
            items = self.items(one, st)
            if items is not None:
                return [('v', C(len(items)), st)]
            if one.k in ('S', 'COL', 'B'):
                return [('v', V('I', ('len', one.a[0])), st)]
            if one.k in ('C', 'I', 'P', 'MO'):
                return [self.x(st, 'TypeError', 'len', n)]
            return [('v', V('I', ('len', one)), st)]
        if p == 'bool':
            return [('v', C(b), s) for b, s in self.truth(one, st)]
        if p in ('list', 'tuple', 'set', 'sorted', 'reversed', 'frozenset', 'iter', 'enumerate'):
            st = st.fork()
            items = self.items(one, st) if args else []
            if items is None:
                if one.k in ('COL', 'S') and p != 'enumerate':
                    return [('v', V('COL', (p, one.a[0]), one.a[1] if one.k == 'COL' else 'str') if one.k == 'S' or p in ('set', 'frozenset') or p in ('sorted', 'reversed') or True else one, st)]
                if one.k in ('C', 'I'):
                    return [self.x(st, 'TypeError', 'not iterable', n)]
                return [('v', V('U', p, one), st)]
            if p == 'enumerate':
                items = [V('T', (C(i), x)) for i, x in enumerate(items)]
            if p == 'reversed':
                items = items[::-1]
            if p == 'sorted':
                if all(x.k == 'C' for x in items):
                    try:
                        items = [C(x) for x in sorted(x.a[0] for x in items)]
                    except TypeError:
                        return [self.x(st, 'TypeError', 'sorting', n)]
            if p == 'tuple':
                return [('v', V('T', tuple(items)), st)]
            return [('v', self.ref(st, 'set' if p in ('set', 'frozenset') else 'list', tuple(dict.fromkeys(items)) if p in ('set', 'frozenset') else tuple(items)), st)]
        if p == 'dict':
            st = st.fork()
            d = {}
            if args:
                if one.k == 'R' and one.a[0] == 'dict':
                    d.update(dict(st.heap[one]))
                else:
                    its = self.items(one, st)
                    if its is None or not all(i.k == 'T' and len(i.a[0]) == 2 for i in its):
                        return [('v', self.unk('dict()', n), st)]
                    d.update({i.a[0][0]: i.a[0][1] for i in its})
            d.update({C(k): v for k, v in kw.items()})
            return [('v', self.ref(st, 'dict', tuple(d.items())), st)]
        if p == 'range':
            if all(x.k == 'C' and isinstance(x.a[0], int) for x in args):
                return [('v', V('C', range(*[x.a[0] for x in args])), st)] if len(range(*[x.a[0] for x in args])) <= 64 else [('v', V('COL', ('range',) + args, '?'), st)]
            return [('v', V('COL', ('range',) + args, '?'), st)]
        if p in ('any', 'all', 'max', 'min', 'sum', 'next', 'map', 'filter', 'zip'):
            if p in ('any', 'all'):
                items = self.items(one, st)
                if items is not None:
                    res, live = [], [st]
                    for x in items:
                        nxt = []
                        for s in live:
                            for b, u in self.truth(x, s):
                                if b == (p == 'any'):
                                    res.append(('v', C(p == 'any'), u))
                                else:
                                    nxt.append(u)
                        live = nxt
                    return res + [('v', C(p == 'all'), s) for s in live]
                return [('v', V('P', (p, term(one)), False), st)]
            if p == 'zip':
                its = [self.items(x, st) for x in args]
                if all(i is not None for i in its):
                    st = st.fork()
                    return [('v', self.ref(st, 'list', tuple(V('T', t) for t in zip(*its))), st)]
            if p == 'next':
                items = self.items(one, st)
                if items is not None:
                    return [('v', items[0], st)] if items else ([('v', args[1], st)] if len(args) > 1 else [self.x(st, 'StopIteration', '', n)])
                if one.k == 'COL':
                    return [('v', self.elem(one, 0), st), ('v', args[1], st) if len(args) > 1 else self.x(st, 'StopIteration', '', n)]
            if p in ('max', 'min') and one.k == 'COL':
                return [('v', self.elem(one, p), st)] + ([self.x(st, 'ValueError', p + ' of an empty collection', n)] if 'default' not in kw and self.implied(('nonempty', one.a[0]), st.facts) is not True else [])
            return [('v', self.unk(p, n), st)]
        if p in ('getattr', 'hasattr') and len(args) > 1 and args[1].k == 'C':
            outs = self.attr(one, args[1].a[0], st, n)
            if p == 'hasattr':
                return [('v', C(True), s) if k == 'v' else ('v', C(False), s) for k, v, s in outs]
            if len(args) > 2:
                return [(k, v, s) if k == 'v' else ('v', args[2], s) for k, v, s in outs]
            return outs
        if p in ('vars', 'globals', 'locals'):
            if p == 'globals':
                return [('v', V('U', 'globals'), st)]
        if p == 'type':
            return [('v', V('U', 'type', one), st)]
        if p == 'callable':
            return [('v', C(one.k in ('F', 'K', 'M', 'BM', 'BMU')), st)]
        if p in ('functools.wraps', 'functools.lru_cache', 'functools.cache'):
            return [('v', V('M', 'identity'), st)]
        if p == 'identity':
            return [('v', one, st)]
        if p == 'exit' or p == 'sys.exit' or p == 'os._exit':
            return [self.x(st, 'SystemExit', '', n)]
        return [('v', self.unk('call of ' + p, n), st)]

    def isinst(self, v, t):
        ts = list(t.a[0]) if t.k == 'T' else [t]
        k = {'str': 'str', 'bytes': 'bytes', 'tuple': 'tuple', 'list': 'list', 'dict': 'dict', 'set': 'set', 'none': 'NoneType'}.get(self.kind(v))
        if v.k == 'I' or v.k == 'C' and type(v.a[0]) is int:
            k = 'int'
        if v.k == 'P' or v.k == 'C' and isinstance(v.a[0], bool):
            k = 'bool'
        if k is None:
            return V('P', ('isinstance', v, t), False)
        names = [x.a[0] for x in ts if x.k == 'M']
        return C(k in names or k == 'bool' and 'int' in names)


def groups(pat):
    """{group: (text of its body, optional?)} of a regular expression"""
    n = _re.compile(pat).groups
    out = {0: ('', False)}
    stack, i, num = [], 0, 0
    opt = {}
    while i < len(pat):
        c = pat[i]
        if c == '\\':
            i += 2
            continue
        if c == '[':
            j = i + 1
            if pat[j:j + 1] == '^':
                j += 1
            if pat[j:j + 1] == ']':
                j += 1
            while pat[j] != ']':
                j += 2 if pat[j] == '\\' else 1
            i = j + 1
            continue
        if c == '(':
            name, start, cap = None, i + 1, True
            if pat[i + 1:i + 2] == '?':
                m = _re.match(r'\(\?P<(\w+)>', pat[i:])
                if m:
                    name, start = m.group(1), i + m.end()
                else:
                    cap = False
            if cap:
                num += 1
            stack.append((num if cap else None, name, start))
        elif c == ')':
            g, name, start = stack.pop()
            o = pat[i + 1:i + 2] in ('?', '*') or pat[i + 1:i + 3] == '{0'
            if g is not None:
                out[g] = (pat[start:i], o)
                if name:
                    out[name] = out[g]
            elif o:
                opt[(start, i)] = True
            if o:
                for k in list(out):
                    pass
                opt[(start, i)] = True
        elif c == '|':
            opt[(stack[-1][2] if stack else 0, len(pat))] = True
        i += 1
    if opt:                                        # groups inside optional parts: treat every group as optional unless at top level
        out = {k: (b, True if k != 0 else False) for k, (b, o) in out.items()}
    return out if num == n else None
