"""Abstract interpreter: one forward dataflow pass per context that builds the value graph (joins become gamma nodes, loops become
mu/fin/fill/map nodes; no path enumeration, no solver), with interprocedural inlining, an object heap, array contents and effects."""
import ast

from .graph import Graph, Node, is_node
from .loader import Class, Func, Module, own_walk
from . import npmodel


class Unsupported(Exception):
    pass


class State:
    __slots__ = ('env', 'heap', 'content', 'epoch')

    def __init__(self, env=None, heap=None, content=None, epoch=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.content = content if content is not None else {}
        self.epoch = epoch if epoch is not None else {}

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.content), dict(self.epoch))

    def shared(self, env):
        return State(env, self.heap, self.content, self.epoch)


class Frame:
    def __init__(self, func, module, cls, stack, pc, self_node=None, parent=None):
        self.func = func
        self.module = module
        self.cls = cls               # class in which func is defined (for super)
        self.stack = stack           # tuple of (Func, receiver)
        self.pc = pc
        self.entry_pc = len(pc)
        self.exits = []
        self.self_node = self_node
        self.parent = parent         # frame of the enclosing function, for closures
        self.globals_decl = set()
        self.nonlocal_decl = set()


class Event:
    __slots__ = ('kind', 'pc', 'stack', 'loc', 'd', 'seq')

    def __init__(self, kind, pc, stack, loc, d, seq):
        self.kind, self.pc, self.stack, self.loc, self.d, self.seq = kind, pc, stack, loc, d, seq

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def loops(self):
        return tuple(c.args[0] for c, pol in self.pc if c.op == 'loop')

    @property
    def where(self):
        return '{}:{}'.format(*self.loc)

    @property
    def fn(self):
        return self.stack[-1][0].qualname if self.stack else '<module>'

    def __repr__(self):
        return '<{} {} {} {}>'.format(self.kind, self.where, self.fn, {k: v for k, v in self.d.items() if k != 'state'})


class Interp:
    MAX_DEPTH = 40

    def __init__(self, project, graph=None, opaque=(), child_attrs=(), tree_cls=None):
        self.P = project
        self.g = graph or Graph()
        self.events = []
        self.opaque = dict(opaque)           # Func.node -> op name
        self.child_attrs = set(child_attrs)
        self.tree_cls = tree_cls
        self.types = {}                      # node -> Class
        self.closures = {}
        self.mutes = 0
        self.decide_hook = None
        self.unmodelled = {}                 # name -> location of externals without model
        self.funcs_seen = {}
        self.steps = 0

    # ------------------------------------------------------------------ events
    def ev(self, kind, fr, node, **d):
        if self.mutes:
            return None
        rel = fr.module.rel
        e = Event(kind, fr.pc, fr.stack, (rel, getattr(node, 'lineno', 0)), d, len(self.events))
        self.events.append(e)
        return e

    # ------------------------------------------------------------------ values
    def deref(self, n, st, depth=0, busy=()):
        """content of the object(s) that n refers to; inside the content of a parameter the parameter stands for its initial content"""
        if not is_node(n) or n in busy:
            return n
        c = st.content.get(n)
        if c is not None and c is not n:
            b = busy + (n,) if n.op != 'ref' else busy
            return self.deref(c, st, depth + 1, b) if c.op in ('ref', 'gamma', 'list', 'tuple', 'dict') and depth < 20 else c
        if c is n:
            return n
        if n.op == 'gamma' and depth < 20:
            a, b = self.deref(n.args[1], st, depth + 1, busy), self.deref(n.args[2], st, depth + 1, busy)
            if a is not n.args[1] or b is not n.args[2]:
                return self.g.mk('gamma', n.args[0], a, b)
            return n
        if n.op in ('tuple', 'list') and depth < 6:
            xs = tuple(self.deref(x, st, depth + 1, busy) for x in n.args)
            return n if xs == n.args else self.g.raw(n.op, *xs)
        return n

    def alloc(self, value, st):
        r = self.g.raw('ref', self.g.uid(), value.op)
        st.content[r] = value
        k = self.g.kind(value)
        self.g.set_fact(r, kind=k, rank=self.g.rank(value))
        return r

    def decide(self, c, fr):
        """True / False / None"""
        if c.op == 'const':
            return bool(c.args[0])
        for p, pol in reversed(fr.pc):
            if p is c:
                return pol
            if p.op == 'not' and p.args[0] is c:
                return not pol
            if c.op == 'not' and c.args[0] is p:
                return not pol
            if pol and p.op == 'and' and c in p.args:
                return True
            if not pol and p.op == 'or' and c in p.args:
                return False
            if p.op == 'is' and c.op == 'is' and pol and p.args[0] is c.args[0] and p.args[1] is not c.args[1] and p.args[1].op == 'const' and c.args[1].op == 'const':
                return False
        for p, pol in self.g.assume:
            if p is c:
                return pol
        if c.op == 'not':
            r = self.decide(c.args[0], fr)
            return None if r is None else not r
        if c.op == 'and':
            rs = [self.decide(x, fr) for x in c.args]
            return False if False in rs else True if all(r is True for r in rs) else None
        if c.op == 'or':
            rs = [self.decide(x, fr) for x in c.args]
            return True if True in rs else False if all(r is False for r in rs) else None
        if c.op == 'gamma':
            r = self.decide(c.args[0], fr)
            if r is not None:
                return self.decide(c.args[1 if r else 2], fr)
            r1, r2 = self.decide(c.args[1], fr), self.decide(c.args[2], fr)
            if r1 is not None and r1 == r2:
                return r1
        if self.decide_hook is not None:
            return self.decide_hook(c, fr)
        return None

    def refine(self, n, fr, depth=0):
        while is_node(n) and n.op == 'gamma' and depth < 30:
            r = self.decide(n.args[0], fr)
            if r is None:
                return n
            n = n.args[1 if r else 2]
            depth += 1
        return n

    # ------------------------------------------------------------------ merging
    def merge_states(self, c, s1, s2):
        g = self.g
        out = State(epoch=None)
        for k in sorted(set(s1.env) | set(s2.env)):
            a, b = s1.env.get(k), s2.env.get(k)
            if a is None:
                a = g.raw('undef', k)
            if b is None:
                b = g.raw('undef', k)
            out.env[k] = a if a is b else g.mk('gamma', c, a, b)
        for k in self._ordered(set(s1.heap) | set(s2.heap)):
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is None:
                a = self.initial_attr(k[0], k[1], s1)
            if b is None:
                b = self.initial_attr(k[0], k[1], s2)
            out.heap[k] = a if a is b else g.mk('gamma', c, a, b)
        for k in sorted(set(s1.content) | set(s2.content), key=lambda n: n.id):
            a, b = s1.content.get(k), s2.content.get(k)
            if a is None or b is None:
                a = a if a is not None else (k if k.op != 'ref' else b)
                b = b if b is not None else (k if k.op != 'ref' else a)
            out.content[k] = a if a is b else g.mk('gamma', c, a, b)
        out.epoch = dict(s1.epoch)
        for k, v in s2.epoch.items():
            if out.epoch.get(k, 0) != v:
                out.epoch[k] = max(v, out.epoch.get(k, 0)) + 0
        return out

    @staticmethod
    def _ordered(keys):
        return sorted(keys, key=lambda k: (k[0].id, k[1]))

    def initial_attr(self, obj, name, st):
        g = self.g
        ep = st.epoch.get(obj, 0)
        if obj.op == 'new' and ep == 0:
            return g.raw('undef', name)
        n = g.raw('attr0', obj, name, ep)
        return n

    def merge_exits(self, exits, base, what):
        """exits: list of (pc, state, value) with pc relative to base length -> (state, value) merged by gammas."""
        if len(exits) == 1:
            return exits[0][1], exits[0][2]
        conds = [e[0][base] if len(e[0]) > base else None for e in exits]
        first = next((c for c in conds if c is not None), None)
        if first is None:
            return exits[-1][1], exits[-1][2]
        c = first[0]
        if all(x is not None and x[0] is c and x[1] == first[1] for x in conds):
            return self.merge_exits(exits, base + 1, what)
        t = [e for e, x in zip(exits, conds) if x is not None and x[0] is c and x[1]]
        f = [e for e, x in zip(exits, conds) if x is not None and x[0] is c and not x[1]]
        rest = [e for e, x in zip(exits, conds) if x is None or x[0] is not c]
        if rest:
            # no common tree structure: keep it as an unstructured choice
            s, v = exits[-1][1], exits[-1][2]
            for e in reversed(exits[:-1]):
                cc = self.g.raw('unstructured', self.g.uid())
                s = self.merge_states(cc, e[1], s)
                v = self.g.mk('gamma', cc, e[2], v)
            return s, v
        if not t:
            return self.merge_exits(f, base + 1, what)
        if not f:
            return self.merge_exits(t, base + 1, what)
        s1, v1 = self.merge_exits(t, base + 1, what)
        s2, v2 = self.merge_exits(f, base + 1, what)
        return self.merge_states(c, s1, s2), self.g.mk('gamma', c, v1, v2)

    # ------------------------------------------------------------------ functions
    def run(self, func, receiver, args, st, pc=()):
        """Entry point: analyse func as a root; returns (state at exit or None, value)."""
        fr0 = Frame(None, func.module, None, (), tuple(pc))
        return self.call_func(func, receiver, [], dict(args), st, fr0, func.node, entry=True)

    def bind(self, func, receiver, args, kwargs, fr, st, node):
        a = func.node.args
        g = self.g
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        if receiver is not None and not func.is_static:
            pos = [receiver] + pos
        star = None
        if any(isinstance(x, tuple) for x in pos):
            flat = []
            for x in pos:
                if isinstance(x, tuple) and x[0] == 'star':
                    v = self.deref(x[1], st)
                    if v.op in ('tuple', 'list'):
                        flat.extend(v.args)
                    else:
                        star = v
                        break
                else:
                    flat.append(x)
            pos = flat
        for n, v in zip(names, pos):
            env[n] = v
        if len(pos) > len(names):
            if a.vararg:
                env[a.vararg.arg] = g.raw('tuple', *pos[len(names):])
            else:
                raise Unsupported('too many arguments for {}'.format(func.qualname))
        elif a.vararg:
            env[a.vararg.arg] = g.raw('tuple')
        extra = []
        for k, v in kwargs.items():
            if k == '**':
                d = self.deref(v, st)
                if d.op == 'dict' and all(kk.op == 'const' for kk, _ in d.args):
                    for kk, vv in d.args:
                        env[kk.args[0]] = vv
                elif a.kwarg:
                    env[a.kwarg.arg] = v
                continue
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg:
                extra.append((g.const(k), v))
            else:
                raise Unsupported('unexpected keyword {} for {}'.format(k, func.qualname))
        if a.kwarg and a.kwarg.arg not in env:
            env[a.kwarg.arg] = g.raw('dict', *extra)
        dfr = Frame(func, func.module, func.cls, fr.stack, fr.pc)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if star is not None:
                    env[n] = g.raw('staritem', star, n)
                elif n in defaults:
                    d = defaults[n]
                    if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp)) and not (isinstance(d, ast.Call) and False):
                        # evaluated once at definition: shared between calls
                        env[n] = g.raw('default', func.qualname, n)
                        g.set_fact(env[n], kind={'List': 'list', 'Dict': 'dict', 'Set': 'set'}.get(type(d).__name__))
                    else:
                        env[n] = self.eval(d, dfr, State({}, st.heap, st.content, st.epoch))
                else:
                    raise Unsupported('missing argument {} for {}'.format(n, func.qualname))
        return env

    def call_func(self, func, receiver, args, kwargs, st, fr, node, entry=False):
        g = self.g
        if func.node in self.opaque:
            env = self.bind(func, receiver, args, kwargs, fr, st, node)
            names = [x.arg for x in func.node.args.args if x.arg != 'self' or func.is_static]
            vals = [self.deref(env[n], st) for n in names]
            self.ev('opaque', fr, node, func=func, args={n: env[n] for n in names}, vals=dict(zip(names, vals)))
            v = g.mk(self.opaque[func.node], *vals)
            return st, self.alloc(v, st)
        env = self.bind(func, receiver, args, kwargs, fr, st, node)
        argd = {k: v for k, v in env.items() if not (k == 'self' and receiver is not None)}
        vals = {k: self.deref(v, st) for k, v in argd.items()}
        active = [f for f, r in fr.stack if f is not None and f.node is func.node]
        if active:
            e = self.ev('rcall', fr, node, func=func, receiver=receiver, args=argd, vals=vals)
            if e is not None:
                e.d['state'] = st.copy()          # state in which the call happens
            w = self.may_write(func)
            ep = max(st.epoch.values(), default=0)
            v = g.raw('rcall', func.qualname, receiver if receiver is not None else g.none, ep,
                      *[vals[k] for k in sorted(vals) if is_node(vals[k])])
            if w and receiver is not None:
                self.havoc(receiver, st)
            for p in sorted(self.mutated_params(func)):
                o = argd.get(p)
                if o is None or not is_node(o) or o.op == 'const':
                    continue
                old = self.deref(o, st)
                if g.kind(old) in ('int', 'float', 'str', 'bool') or (g.rank(old) == 0 and g.kind(old) != 'ndarray'):
                    continue
                new = g.raw('after', g.uid(), func.qualname, p, receiver if receiver is not None else g.none, old, g.tup(*[g.tup(g.const(k), vals[k]) for k in sorted(vals) if is_node(vals[k]) and k != p]))
                g.set_fact(new, kind=g.kind(old), rank=g.rank(old))
                st.content[o if o.op != 'gamma' else o] = new
            if e is not None:
                e.d['value'] = v
            return st, v
        if len(fr.stack) > self.MAX_DEPTH:
            raise Unsupported('inlining too deep at {}'.format(func.qualname))
        if func.is_generator:
            v = g.raw('gen', func.qualname, g.uid(), *[x for x in vals.values() if is_node(x)])
            self.ev('gen', fr, node, func=func, args=argd, vals=vals)
            return st, v
        self.funcs_seen[func.qualname] = func
        self.ev('icall', fr, node, func=func, receiver=receiver, args=argd, vals=vals, entry=entry)
        nf = Frame(func, func.module, func.cls, fr.stack + ((func, receiver),), fr.pc, self_node=receiver, parent=None)
        if func.closure is not None:
            nf.parent = func.closure
        ns = State(env, st.heap, st.content, st.epoch)
        if isinstance(func.node, ast.Lambda):
            v = self.eval(func.node.body, nf, ns)
            return st.shared(st.env), v
        out = self.exec_block(func.node.body, nf, ns)
        exits = [(pc, s, v) for kind, pc, s, v, n in nf.exits if kind == 'return']
        if out is not None:
            exits.append((nf.pc, out, g.none))
        if not exits:
            return None, g.raw('noreturn')
        s, v = self.merge_exits(exits, nf.entry_pc, 'return')
        res = State(st.env, s.heap, s.content, s.epoch)
        return res, v

    def havoc(self, obj, st, attrs=None):
        """Unknown new values for the (given) attributes of obj and of everything reachable from it."""
        ep = max(st.epoch.values(), default=0) + 1
        for k in list(st.heap):
            o = k[0]
            if o is obj and (attrs is None or k[1] in attrs):
                del st.heap[k]
        if attrs is None:
            st.epoch[obj] = ep
        else:
            for a in attrs:
                st.heap[(obj, a)] = self.g.raw('attr0', obj, a, ep)
        # everything whose object expression goes through obj
        if attrs is None:
            for k in list(st.heap):
                if k[0] is not obj and self.g.contains(k[0], lambda x: x is obj) and k[0].op != 'gamma':
                    del st.heap[k]
                    st.epoch[k[0]] = ep

    def may_write(self, func, _seen=None):
        """attribute names that func or anything it may call (by method name) stores"""
        key = ('mw', func.node)
        cache = getattr(self, '_mw', None)
        if cache is None:
            cache = self._mw = {}
        if key in cache:
            return cache[key]
        seen = set()
        work = [func.node]
        attrs = set()
        byname = self.methods_by_name()
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            reads = {id(y) for x in ast.walk(n) if isinstance(x, ast.Compare) for y in x.comparators}
            for x in ast.walk(n):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    attrs.add(x.attr)
                elif isinstance(x, ast.Call):
                    if isinstance(x.func, ast.Name) and x.func.id == 'setattr':
                        attrs.add(x.args[1].value if len(x.args) > 1 and isinstance(x.args[1], ast.Constant) else '*')
                    nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
                    for f in byname.get(nm, ()):
                        work.append(f)
                elif isinstance(x, ast.Attribute) and x.attr == '__dict__' and id(x) not in reads:
                    attrs.add('*')
        cache[key] = attrs
        return attrs

    MUTATORS = {'append', 'extend', 'insert', 'sort', 'fill', 'update', 'pop', 'clear', 'remove', 'setdefault', 'put', 'reverse', 'add', 'resize', 'partition', 'itemset'}

    def mutated_params(self, func):
        """parameters whose object func (or a project function it passes them on to) may modify in place"""
        cache = getattr(self, '_mp', None)
        if cache is None:
            cache = self._mp = {}
        if func.node in cache:
            return cache[func.node]
        cache[func.node] = set()
        byname = self.methods_by_name()
        for _ in range(3):
            out = self._mutated(func.node, byname, cache)
            if out == cache[func.node]:
                break
            cache[func.node] = out
        return cache[func.node]

    def _mutated(self, fn, byname, cache):
        names = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
        alias = {n: {n} for n in names}
        for _ in range(2):
            for x in ast.walk(fn):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in alias:
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            alias.setdefault(t.id, set()).update(alias[x.value.id])
        out = set()

        def base(e):
            while isinstance(e, ast.Subscript):
                e = e.value
            return e.id if isinstance(e, ast.Name) else None
        for x in ast.walk(fn):
            tg = []
            if isinstance(x, ast.Assign):
                tg = [t for t in x.targets if isinstance(t, ast.Subscript)]
            elif isinstance(x, ast.AugAssign):
                tg = [x.target]
            elif isinstance(x, ast.Delete):
                tg = [t for t in x.targets if isinstance(t, ast.Subscript)]
            for t in tg:
                b = base(t)
                if b in alias:
                    out |= alias[b]
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and x.func.attr in self.MUTATORS:
                    b = base(x.func.value)
                    if b in alias:
                        out |= alias[b]
                for kw in x.keywords:
                    if kw.arg == 'out':
                        b = base(kw.value)
                        if b in alias:
                            out |= alias[b]
                nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
                for f in byname.get(nm, ()):
                    ps = [a.arg for a in f.args.posonlyargs + f.args.args]
                    if ps and ps[0] in ('self', 'cls') and isinstance(x.func, ast.Attribute):
                        ps = ps[1:]
                    if f is not fn and f not in cache:
                        cache[f] = set()
                        cache[f] = self._mutated(f, byname, cache)
                    mp = cache.get(f, set())
                    for p, a in list(zip(ps, x.args)) + [(kw.arg, kw.value) for kw in x.keywords]:
                        if p in mp:
                            b = base(a)
                            if b in alias:
                                out |= alias[b]
        return {n for n in out if n in names}

    def methods_by_name(self):
        if not hasattr(self, '_mbn'):
            d = {}
            for m in self.P.modules.values():
                for f in m.functions.values():
                    d.setdefault(f.name, []).append(f.node)
                for c in m.classes.values():
                    for name, f in c.methods.items():
                        if not f.is_abstract:
                            d.setdefault(name, []).append(f.node)
            self._mbn = d
        return self._mbn

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, fr, st):
        for s in body:
            if st is None:
                return None
            st = self.exec_stmt(s, fr, st)
        return st

    def exec_stmt(self, s, fr, st):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('analysis budget exceeded')
        self.g.cur_loc = (fr.module.rel, getattr(s, 'lineno', 0))
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement {} at {}:{}'.format(type(s).__name__, fr.module.rel, s.lineno))
        return m(s, fr, st)

    def x_Pass(self, s, fr, st):
        return st

    def x_Expr(self, s, fr, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.eval(s.value, fr, st)
        return None if getattr(st, 'env', None) is None else self._after(st)

    def _after(self, st):
        # a call that never returns clears the state
        if st.env.get('$dead'):
            return None
        return st

    def x_Import(self, s, fr, st):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = self.resolved(self.P.resolve_global(a.name if a.asname else a.name.split('.')[0]))
        return st

    def x_ImportFrom(self, s, fr, st):
        base = fr.module.resolve_from(s)
        for a in s.names:
            st.env[a.asname or a.name] = self.resolved(self.P.resolve_global(base + '.' + a.name))
        return st

    def x_FunctionDef(self, s, fr, st):
        f = Func(s, fr.module, None)
        f.cls = None
        fr2 = fr
        f.closure = (fr2, st)
        n = self.g.raw('lam', self.g.uid())
        self.closures[n] = f
        st.env[s.name] = n
        return st

    def x_Global(self, s, fr, st):
        fr.globals_decl.update(s.names)
        return st

    def x_Nonlocal(self, s, fr, st):
        fr.nonlocal_decl.update(s.names)
        return st

    def x_Return(self, s, fr, st):
        v = self.g.none if s.value is None else self.eval(s.value, fr, st)
        if st.env.get('$dead'):
            return None
        self.ev('return', fr, s, value=v, val=self.deref(v, st))
        fr.exits.append(('return', fr.pc, st, v, s))
        return None

    def x_Raise(self, s, fr, st):
        exc = None
        if s.exc is not None:
            exc = ast.unparse(s.exc.func if isinstance(s.exc, ast.Call) else s.exc)
        self.ev('raise', fr, s, exc=exc, state=st.copy())
        fr.exits.append(('raise', fr.pc, st, self.g.none, s))
        return None

    def x_Assert(self, s, fr, st):
        c = self.eval_cond(s.test, fr, st)
        self.ev('assert', fr, s, cond=c)
        return st

    def x_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr, st)
                self.ev('delattr', fr, s, obj=o, name=t.attr)
                st.heap[(self.objkey(o), t.attr)] = self.g.raw('undef', t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr, st)
                i = self.eval_index(t.slice, fr, st)
                self.ev('setitem', fr, s, target=o, index=i, value=self.g.raw('deleted'), val=self.g.raw('deleted'))
                st.content[o] = self.g.raw('delitem', self.deref(o, st), i)
        return st

    def x_Assign(self, s, fr, st):
        v = self.eval(s.value, fr, st)
        if st.env.get('$dead'):
            return None
        for t in s.targets:
            self.assign(t, v, fr, st, s)
        return st

    def x_AnnAssign(self, s, fr, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr, st), fr, st, s)
        return st

    BIN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
           ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift'}

    def binop(self, op, a, b, st):
        g = self.g
        da, db = self.deref(a, st), self.deref(b, st)
        o = self.BIN[op]
        if o == 'lshift' and g.num(da) is not None and g.num(db) is not None:
            return g.const(g.num(da) << g.num(db))
        if o == 'mod' and g.kind(da) == 'str':
            return g.raw('percent', da, db)
        r = g.mk(o, da, db)
        if r is da or r is db:
            if g.kind(r) not in ('int', 'float', 'str', 'bool', 'none'):
                return self.alloc(r, st)
        if g.kind(r) == 'list':
            return self.alloc(r, st)
        return r

    def x_AugAssign(self, s, fr, st):
        g = self.g
        t = s.target
        load = ast.copy_location(type(t)(**{f: getattr(t, f) for f in t._fields if f != 'ctx'}, ctx=ast.Load()), t)
        if isinstance(t, ast.Name):
            cur = self.eval(load, fr, st)
            v = self.eval(s.value, fr, st)
            k = g.kind(self.deref(cur, st))
            if k in ('int', 'float', 'bool', 'str', 'none', 'tuple'):
                self.assign(t, self.binop(type(s.op), cur, v, st), fr, st, s)
                return st
            if k == 'list' and isinstance(s.op, ast.Add):
                self.list_extend(cur, v, fr, st, s)
                return st
            nv = g.mk(self.BIN[type(s.op)], self.deref(cur, st), self.deref(v, st))
            self.ev('inplace', fr, s, target=cur, val=nv, maybe=(k == 'unknown'), how='augmented assignment')
            if k == 'unknown' and cur.op not in ('ref', 'param', 'attr0'):
                st.env[t.id] = nv
            elif k == 'unknown' and cur.op in ('param', 'attr0'):
                st.env[t.id] = nv
            else:
                st.content[cur] = nv
            return st
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr, st)
            i = self.eval_index(t.slice, fr, st)
            cur = g.mk('index', self.deref(o, st), i)
            v = self.eval(s.value, fr, st)
            nv = g.mk(self.BIN[type(s.op)], cur, self.deref(v, st))
            self.setitem(o, i, nv, fr, st, s)
            return st
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr, st)
            cur = self.load_attr(o, t.attr, fr, st, s)
            v = self.eval(s.value, fr, st)
            k = g.kind(self.deref(cur, st))
            nv = g.mk(self.BIN[type(s.op)], self.deref(cur, st), self.deref(v, st))
            if k not in ('int', 'float', 'bool', 'str', 'none', 'tuple'):
                self.ev('inplace', fr, s, target=cur, val=nv, maybe=(k == 'unknown'), how='augmented assignment')
            self.store_attr(o, t.attr, nv, fr, st, s)
            return st
        raise Unsupported('augmented assignment')

    def assign(self, t, v, fr, st, s):
        g = self.g
        if isinstance(t, ast.Name):
            if t.id in fr.globals_decl or t.id in fr.nonlocal_decl:
                self.ev('setglobal', fr, s, name=t.id, value=v)
                return
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            dv = self.deref(v, st)
            rv = v if v.op in ('tuple', 'list') else st.content.get(v, v)
            n = len(t.elts)
            stars = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for k, e in enumerate(t.elts):
                if stars and k >= stars[0]:
                    if k == stars[0]:
                        item = g.mk('index', dv, g.slice(k, None if k == n - 1 else -(n - 1 - k)))
                    else:
                        item = g.mk('index', dv, g.const(k - n))
                elif rv.op in ('tuple', 'list') and k < len(rv.args):
                    item = rv.args[k]
                elif dv.op == 'gamma' and rv.op == 'gamma':
                    item = self.split_gamma(rv, k, st)
                else:
                    item = g.mk('index', dv, g.const(k))
                self.assign(e.value if isinstance(e, ast.Starred) else e, item, fr, st, s)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr, st)
            self.store_attr(o, t.attr, v, fr, st, s)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr, st)
            i = self.eval_index(t.slice, fr, st)
            self.setitem(o, i, v, fr, st, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st, s)
        else:
            raise Unsupported('assignment target')

    def split_gamma(self, n, k, st):
        g = self.g
        if n.op == 'gamma':
            return g.mk('gamma', n.args[0], self.split_gamma(n.args[1], k, st), self.split_gamma(n.args[2], k, st))
        if n.op in ('tuple', 'list') and k < len(n.args):
            return n.args[k]
        c = st.content.get(n)
        if c is not None and c.op in ('tuple', 'list') and k < len(c.args):
            return c.args[k]
        return g.mk('index', self.deref(n, st), g.const(k))

    def objkey(self, o):
        return o

    def store_attr(self, o, name, v, fr, st, s):
        if o.op == 'gamma':
            for k in (1, 2):
                c = o.args[0]
                x = o.args[k]
                if x.op == 'const':
                    continue
                old = self.load_attr_raw(x, name, st)
                new = self.g.mk('gamma', c, v, old) if k == 1 else self.g.mk('gamma', c, old, v)
                st.heap[(x, name)] = new
            self.ev('setattr', fr, s, obj=o, name=name, value=v, val=self.deref(v, st))
            return
        self.ev('setattr', fr, s, obj=o, name=name, value=v, val=self.deref(v, st))
        st.heap[(o, name)] = v

    def setitem(self, o, i, v, fr, st, s):
        g = self.g
        dv = self.deref(v, st)
        self.ev('setitem', fr, s, target=o, index=i, value=v, val=dv)
        base = o
        cur = self.deref(o, st)
        # write through a view: update the base
        if o.op == 'index' or (o.op in ('T', 'reshape', 'ravel', 'squeeze', 'expand_dims') and not st.content.get(o)):
            st.content[o] = g.mk('setitem', cur, i, dv)
            b = o
            while b.op in ('index', 'T', 'reshape', 'ravel', 'squeeze', 'expand_dims') and is_node(b.args[0]):
                b = b.args[0]
            return
        if cur.op == 'dict' and i.op == 'const':
            items = [(k, x) for k, x in cur.args if k is not i] + [(i, dv)]
            st.content[base] = g.raw('dict', *items)
            return
        if cur.op == 'list' and g.num(i) is not None and -len(cur.args) <= g.num(i) < len(cur.args):
            xs = list(cur.args)
            xs[g.num(i)] = v
            st.content[base] = g.raw('list', *xs)
            return
        st.content[base] = g.mk('setitem', cur, i, dv)

    def list_extend(self, o, v, fr, st, s):
        g = self.g
        cur, dv = self.deref(o, st), self.deref(v, st)
        self.ev('listmut', fr, s, target=o, how='extend', val=dv)
        if cur.op == 'list' and dv.op in ('list', 'tuple'):
            st.content[o] = g.raw('list', *(cur.args + dv.args))
        else:
            st.content[o] = g.raw('listcat', cur, dv)

    def x_If(self, s, fr, st):
        c = self.eval_cond(s.test, fr, st)
        if st.env.get('$dead'):
            return None
        d = self.decide(c, fr)
        if d is True:
            return self.exec_block(s.body, fr, st)
        if d is False:
            return self.exec_block(s.orelse, fr, st)
        if c.op == 'not':
            c = c.args[0]
            body, orelse = s.orelse, s.body
        else:
            body, orelse = s.body, s.orelse
        pc0 = fr.pc
        st2 = st.copy()
        fr.pc = pc0 + ((c, True),)
        o1 = self.exec_block(body, fr, st)
        pc1 = fr.pc
        fr.pc = pc0 + ((c, False),)
        o2 = self.exec_block(orelse, fr, st2)
        pc2 = fr.pc
        if o1 is not None and o2 is not None:
            fr.pc = pc0
            if pc1 != pc0 + ((c, True),) or pc2 != pc0 + ((c, False),):
                # part of a branch left the function: keep the merged condition of staying
                extra = self._stay(pc1[len(pc0) + 1:], pc2[len(pc0) + 1:], c)
                fr.pc = pc0 + ((extra, True),)
            return self.merge_states(c, o1, o2)
        if o1 is not None:
            fr.pc = pc1
            return o1
        if o2 is not None:
            fr.pc = pc2
            return o2
        fr.pc = pc0
        return None

    def _stay(self, e1, e2, c):
        g = self.g

        def conj(e):
            r = g.true
            for n, pol in e:
                r = g.mk('and', r, n if pol else g.mk('not', n))
            return r
        return g.mk('gamma', c, conj(e1), conj(e2))

    def x_Try(self, s, fr, st):
        tid = self.g.uid()
        pc0 = fr.pc
        start = st.copy()
        first, nexit = len(self.events), len(fr.exits)
        o = self.exec_block(s.body, fr, st)
        fr.pc = pc0
        catch = self.sure_exception(s, first, pc0)
        if catch is not None:
            # the body certainly fails here: what follows in it never happens
            i, h = catch
            if self.events[i].kind == 'raise':
                self.events[i].kind = 'caught'
            if self.events[i].kind == 'undefread':
                self.events[i].kind = 'caughtread'
            del self.events[i + 1:]
            del fr.exits[nexit:]
            hs = start.copy()
            if h.name:
                hs.env[h.name] = self.g.raw('excval', tid, 0)
            cur = self.exec_block(h.body, fr, hs)
            if s.finalbody and cur is not None:
                cur = self.exec_block(s.finalbody, fr, cur)
            return cur
        if o is not None and s.orelse:
            o = self.exec_block(s.orelse, fr, o)
        fr.pc = pc0
        cur = o
        for k, h in enumerate(s.handlers):
            c = self.g.raw('exc', tid, k, ast.unparse(h.type) if h.type else '*')
            fr.pc = pc0 + ((c, True),)
            hs = start.copy()
            if h.name:
                hs.env[h.name] = self.g.raw('excval', tid, k)
            ho = self.exec_block(h.body, fr, hs)
            fr.pc = pc0
            if ho is not None:
                cur = ho if cur is None else self.merge_states(c, ho, cur)
        if s.finalbody and cur is not None:
            cur = self.exec_block(s.finalbody, fr, cur)
        return cur

    def sure_exception(self, s, first, pc0):
        """(index of the event, handler) of an exception that every execution of the body of s raises and s catches"""
        import builtins
        for i in range(first, len(self.events)):
            e = self.events[i]
            if e.kind not in ('raise', 'undefread') or e.pc != pc0:
                continue
            name = 'AttributeError' if e.kind == 'undefread' else e.exc
            x = getattr(builtins, name or '', None)
            for h in s.handlers:
                if h.type is None:
                    return i, h
                for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    b = getattr(builtins, ast.unparse(t), None)
                    if ast.unparse(t) == name or isinstance(b, type) and isinstance(x, type) and issubclass(x, b):
                        return i, h
            return None
        return None

    def x_With(self, s, fr, st):
        for it in s.items:
            v = self.eval(it.context_expr, fr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr, st, s)
        return self.exec_block(s.body, fr, st)

    def x_Break(self, s, fr, st):
        fr.exits.append(('break', fr.pc, st, self.g.none, s))
        return None

    def x_Continue(self, s, fr, st):
        fr.exits.append(('continue', fr.pc, st, self.g.none, s))
        return None

    # ------------------------------------------------------------------ loops
    def iter_elem(self, it, loop, st):
        """(trip count node, element node) of iterating over it; element uses pos(loop)."""
        g = self.g
        pos = g.raw('pos', loop)
        if it.op == 'range':
            lo, hi, step = it.args
            if g.num(step) == 1:
                trip = g.mk('sub', hi, lo)
                return trip, g.mk('add', lo, pos)
            if g.num(step) == -1:
                return g.mk('sub', lo, hi), g.mk('sub', lo, pos)
            return g.raw('trip', it), g.mk('add', lo, g.mk('mul', step, pos))
        if it.op == 'enumerate':
            trip, e = self.iter_elem(it.args[0], loop, st)
            return trip, g.tup(g.mk('add', it.args[1], pos), e)
        if it.op == 'zip':
            es = [self.iter_elem(x, loop, st) for x in it.args]
            return es[0][0], g.tup(*[e for _, e in es])
        if it.op == 'reversed':
            inner = it.args[0]
            n = g.dim(inner, 0) if inner.op != 'range' else self.iter_elem(inner, loop, st)[0]
            return n, g.mk('index', inner, g.mk('sub', g.mk('sub', n, g.const(1)), pos))
        if it.op in ('dictitems', 'dictkeys', 'dictvalues', 'set', 'setcomp', 'gen', 'call', 'dict', 'dictcomp') or g.kind(it) in ('dict', 'set'):
            return g.raw('trip', it), g.raw('elem', it, pos)
        if it.op == 'map' and it.args[3] != ():
            return g.raw('trip', it), g.raw('elem', it, pos)
        return g.dim(it, 0), g.mk('index', it, pos)

    def unrollable(self, it, st):
        """list of element nodes (raw) if the iterable has a small statically known shape"""
        g = self.g
        r = st.content.get(it, it)
        if r.op in ('tuple', 'list') and len(r.args) <= 8:
            return list(r.args)
        if r.op == 'zip':
            cols = [self.unrollable(x, st) for x in r.args]
            if all(c is not None for c in cols) and cols:
                return [g.tup(*row) for row in zip(*cols)]
        if r.op == 'enumerate':
            c = self.unrollable(r.args[0], st)
            if c is not None and g.num(r.args[1]) is not None:
                return [g.tup(g.const(k + g.num(r.args[1])), x) for k, x in enumerate(c)]
        if r.op == 'reversed':
            c = self.unrollable(r.args[0], st)
            return None if c is None else c[::-1]
        if r.op == 'range' and all(isinstance(g.num(x), int) for x in r.args):
            xs = list(range(*[g.num(x) for x in r.args]))
            if len(xs) <= 6:
                return [g.const(x) for x in xs]
        if r.op == 'dictitems' and r.args[0].op == 'dict' and len(r.args[0].args) <= 8:
            return [g.tup(k, v) for k, v in r.args[0].args]
        return None

    def x_For(self, s, fr, st):
        g = self.g
        it_raw = self.eval(s.iter, fr, st)
        un = self.unrollable(it_raw, st)
        if un is not None and not s.orelse:
            return self.unroll(s, un, fr, st)
        it = self.deref(it_raw, st)
        loop = g.uid()

        def setup(stt):
            trip, e = self.iter_elem(it, loop, stt)
            self.assign(s.target, e, fr, stt, s)
            return trip
        return self.loop(s, fr, st, loop, setup, None, it_raw)

    def unroll(self, s, elems, fr, st):
        pc0 = fr.pc
        breaks = []
        for x in elems:
            n0 = len(fr.exits)
            base = len(fr.pc)
            pcb = fr.pc
            self.assign(s.target, x, fr, st, s)
            out = self.exec_block(s.body, fr, st)
            ex = fr.exits[n0:]
            conts = [e for e in ex if e[0] == 'continue']
            brk = [e for e in ex if e[0] == 'break']
            fr.exits[n0:] = [e for e in ex if e[0] not in ('continue', 'break')]
            if brk:
                raise Unsupported('break in an unrolled loop')
            alts = [(e[1], e[2], self.g.none) for e in conts]
            if out is not None:
                alts.append((fr.pc, out, self.g.none))
            if not alts:
                return None
            if len(alts) > 1:
                st, _ = self.merge_exits(alts, base, 'continue')
                fr.pc = pcb
            else:
                st = alts[0][1]
                fr.pc = alts[0][0] if not conts else pcb
        return st

    def x_While(self, s, fr, st):
        g = self.g
        loop = g.uid()
        c0 = s.test
        return self.loop(s, fr, st, loop, None, c0, None)

    def assigned_names(self, body, target=None):
        names = set()
        for b in (body if isinstance(body, list) else [body]):
            for x in [b] + list(own_walk_stmt(b)):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    names.add(x.id)
                elif isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    names.add(x.name)
        return names

    def loop(self, s, fr, st, loop, setup, cond, it_raw, fixed=None):
        g = self.g
        names = self.assigned_names(s.body)
        pc0 = fr.pc
        lmark = g.raw('loop', loop)
        init = st.copy()
        fixed = fixed or {}

        def run_once(extra_heap, extra_content):
            cur = init.copy()
            for n in sorted(names):
                if n in cur.env:
                    if n in fixed:
                        cur.env[n] = fixed[n]
                    else:
                        cur.env[n] = self.mu(loop, n, cur.env[n], cur)
            for k in self._ordered(extra_heap):
                cur.heap[k] = self.mu(loop, 'heap:{}:{}'.format(k[0].id, k[1]), cur.heap.get(k) or self.initial_attr(k[0], k[1], cur), cur)
            for k in sorted(extra_content, key=lambda n: n.id):
                cur.content[k] = self.mu(loop, 'content:{}'.format(k.id), self.deref(k, cur), cur)
            start = cur.copy()
            fr.pc = pc0 + ((lmark, True),)
            trip = None
            cnode = None
            if setup is not None:
                trip = setup(cur)
            if cond is not None:
                cnode = self.eval_cond(cond, fr, cur)
                if not (cnode.op == 'const' and cnode.args[0]):
                    fr.pc = fr.pc + ((cnode, True),)
            base = len(fr.pc)
            n0 = len(fr.exits)
            out = self.exec_block(s.body, fr, cur)
            ex = fr.exits[n0:]
            alts = [(e[1], e[2], g.none) for e in ex if e[0] == 'continue']
            if out is not None:
                alts.append((fr.pc, out, g.none))
            back = None
            if alts:
                back, _ = self.merge_exits(alts, base, 'continue')
            brk = [e for e in ex if e[0] == 'break']
            rets = [e for e in ex if e[0] in ('return', 'raise')]
            fr.exits[n0:] = []
            fr.pc = pc0
            return start, back, brk, rets, trip, cnode

        # pass 1: find heap cells and array contents that the body changes
        n_ev = len(self.events)
        self.mutes += 1
        uid0 = g.n_uid
        eh, ec = set(), set()
        try:
            for _ in range(4):
                start, back, brk, rets, trip, cnode = run_once(eh, ec)
                h2, c2 = set(eh), set(ec)
                for ss in ([back] if back is not None else []) + [e[2] for e in brk]:
                    for k, v in ss.heap.items():
                        if start.heap.get(k) is not v and k[0] in self._known_objs(start, init):
                            h2.add(k)
                    for k, v in ss.content.items():
                        if k in init.content or k.op != 'ref':
                            if start.content.get(k) is not v and (k in init.content or self._pre_existing(k, init)):
                                c2.add(k)
                if h2 == eh and c2 == ec:
                    break
                eh, ec = h2, c2
        finally:
            self.mutes -= 1
        del self.events[n_ev:]
        start, back, brk, rets, trip, cnode = run_once(eh, ec)

        # counting while loop -> positions
        if cond is not None and not fixed and back is not None and cnode is not None:
            for n in sorted(names):
                m = start.env.get(n)
                if m is None or not is_node(m) or m.op != 'mu':
                    continue
                nx = back.env.get(n)
                i0 = m.args[2]
                step_ok = nx is not None and nx is g.mk('add', g.const(1), m)
                bound = None
                if step_ok and cnode.op == 'lt' and cnode.args[0] is m:
                    bound = cnode.args[1]
                elif step_ok and cnode.op == 'le' and cnode.args[0] is m:
                    bound = g.mk('add', g.const(1), cnode.args[1])
                if bound is not None and not g.contains(bound, lambda x: x.op == 'mu' and x.args[0] == loop):
                    pos = g.raw('pos', loop)
                    del self.events[n_ev:]
                    res = self.loop(s, fr, init, loop, None, cond, it_raw, fixed={n: g.mk('add', i0, pos)})
                    if res is not None:
                        res.env[n] = g.mk('add', i0, g.mk('sub', bound, i0)) if g.num(i0) != 0 else bound
                    g.loops[loop]['trip'] = g.mk('sub', bound, i0)
                    return self._refinish(loop, res, init)
        info = dict(id=loop, trip=trip, cond=cnode, iter=it_raw, start=start, back=back, breaks=brk, rets=rets, init=init, pc=pc0,
                    loc=(fr.module.rel, s.lineno), stack=fr.stack, names=names, heap=eh, content=ec)
        g.loops[loop] = info
        # the loop variable of a `fixed` counter is complete only in _refinish
        exit_st = init.copy()
        simple = not brk and not rets
        fins = {}
        for n in sorted(names):
            i0 = init.env.get(n)
            b = back.env.get(n) if back is not None else None
            m = start.env.get(n)
            if n in fixed:
                continue
            if i0 is None:
                # assigned only inside the loop
                if b is not None:
                    exit_st.env[n] = g.raw('fin', loop, n, g.raw('undef', n))
                continue
            exit_st.env[n] = self.closed(loop, n, m, b, i0, trip, simple, back)
        for k in self._ordered(eh):
            m = start.heap[k]
            b = back.heap.get(k) if back is not None else None
            exit_st.heap[k] = self.closed(loop, 'heap:{}:{}'.format(k[0].id, k[1]), m, b, m.args[2] if m.op == 'mu' else m, trip, simple, back)
        for k in sorted(ec, key=lambda n: n.id):
            m = start.content[k]
            b = back.content.get(k) if back is not None else None
            exit_st.content[k] = self.closed(loop, 'content:{}'.format(k.id), m, b, m.args[2] if m.op == 'mu' else m, trip, simple, back)
        if back is not None:
            for k, v in back.content.items():
                if k not in exit_st.content and k.op == 'ref':
                    exit_st.content[k] = v
            for k, v in back.epoch.items():
                exit_st.epoch[k] = v
            for k, v in back.heap.items():
                if k not in exit_st.heap and k[0].op == 'new':
                    exit_st.heap[k] = v
        # returns/raises out of the loop
        for kind, pc, sst, v, node in rets:
            cnd = g.raw('loopexit', loop, pc_node(g, pc[len(pc0) + 1:]))
            fr.exits.append((kind, pc0 + ((cnd, True),), sst, v, node))
            if kind == 'return':
                fr.pc = fr.pc + ((cnd, False),)
        infinite = cond is not None and cnode is not None and cnode.op == 'const' and bool(cnode.args[0])
        if infinite and not brk:
            return None
        if brk:
            for n in sorted(names):
                if n in init.env or any(n in e[2].env for e in brk):
                    exit_st.env[n] = g.raw('fin', loop, n, init.env.get(n, g.raw('undef', n)))
            if infinite and len(brk) == 1:
                # left only at this break: values at the break
                b = brk[0]
                for n in sorted(names):
                    if n in b[2].env:
                        exit_st.env[n] = b[2].env[n]
                for k in eh:
                    if k in b[2].heap:
                        exit_st.heap[k] = b[2].heap[k]
                for k in ec:
                    if k in b[2].content:
                        exit_st.content[k] = b[2].content[k]
        if s.orelse:
            if brk:
                raise Unsupported('loop else with break')
            return self.exec_block(s.orelse, fr, exit_st)
        return exit_st

    def _refinish(self, loop, res, init):
        g = self.g
        info = g.loops[loop]
        trip = info['trip']
        if res is None:
            return None
        back, start = info['back'], info['start']
        simple = not info['breaks'] and not info['rets']
        for n in info['names']:
            v = res.env.get(n)
            if is_node(v) and v.op == 'fin' and v.args[0] == loop and n in init.env and back is not None:
                res.env[n] = self.closed(loop, n, start.env[n], back.env.get(n), init.env[n], trip, simple, back)
        for k in info['content']:
            m = start.content[k]
            if back is not None and is_node(res.content.get(k)) and res.content[k].op == 'fin':
                res.content[k] = self.closed(loop, 'content:{}'.format(k.id), m, back.content.get(k), m.args[2], trip, simple, back)
        return res

    def _known_objs(self, start, init):
        s = getattr(self, '_ko', None)
        return _AnyObj(init, self)

    def _pre_existing(self, k, init):
        return k.op in ('param', 'attr0', 'ref', 'gamma', 'index', 'mu', 'default') and (k.op != 'ref' or k in init.content) and k.op != 'mu'

    def mu(self, loop, name, init, st):
        g = self.g
        n = g.raw('mu', loop, name, init)
        d = self.deref(init, st)
        k = g.kind(d)
        f = {}
        if k in ('ndarray', 'list', 'dict', 'csr', 'csc', 'str'):
            f['kind'] = k
            if g.rank(d) is not None:
                f['rank'] = g.rank(d)
        elif k in ('int', 'float') or g.rank(d) == 0 and k != 'none':
            f['rank'] = 0
        if f:
            g.set_fact(n, **f)
        return n

    def closed(self, loop, name, m, b, i0, trip, simple, back):
        """Value after the loop of a variable with head value m, next value b, initial value i0."""
        g = self.g
        if b is None or b is m:
            return i0 if b is m else g.raw('fin', loop, name, i0)
        if i0 is m:
            return b
        if back is not None:
            b = self.deref(b, back) if b.op == 'ref' and False else b
        fin = g.raw('fin', loop, name, i0)
        f = g.facts.get(m.id)
        if f:
            g.set_fact(fin, **f)
        if not simple or trip is None:
            return fin
        pos = g.raw('pos', loop)

        def free(x):
            return not g.contains(x, lambda y: y.op in ('mu',) and y.args[0] == loop)
        iv = i0
        if b.op == 'setitem' and b.args[0] is m and free(b.args[1]) and free(b.args[2]):
            k, tv = g.bind(g.tup(b.args[1], b.args[2]), pos)
            r = g.mk('fill', iv, k, trip, tv.args[0], tv.args[1])
            return r
        if b.op == 'listcat' and b.args[0] is m and b.args[1].op == 'list' and len(b.args[1].args) == 1 and free(b.args[1].args[0]):
            x = b.args[1].args[0]
            if x.op == 'list' and not x.args:
                x = g.raw('cell', g.uid(), pos)
            k, body = g.bind(x, pos)
            mp = g.mk('map', k, trip, body, ())
            return mp if iv.op == 'list' and not iv.args else g.raw('listcat', iv, mp)
        if b.op == 'gamma' and b.args[2] is m and b.args[1].op == 'listcat' and b.args[1].args[0] is m and b.args[1].args[1].op == 'list' \
                and len(b.args[1].args[1].args) == 1 and free(b.args[1].args[1].args[0]) and free(b.args[0]):
            k, bd = g.bind(g.tup(b.args[1].args[1].args[0], b.args[0]), pos)
            mp = g.mk('map', k, trip, bd.args[0], (bd.args[1],))
            return mp if iv.op == 'list' and not iv.args else g.raw('listcat', iv, mp)
        if b.op == 'add':
            x, y = b.args
            t = y if x is m else x if y is m else None
            if t is not None and free(t):
                k, body = g.bind(t, pos)
                return g.mk('add', iv, g.mk('sum', g.mk('map', k, trip, body, ()), g.none))
        return fin

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression {} at {}:{}'.format(type(e).__name__, fr.module.rel, getattr(e, 'lineno', 0)))
        self.g.cur_loc = (fr.module.rel, getattr(e, 'lineno', 0))
        r = m(e, fr, st)
        return self.refine(r, fr) if is_node(r) and r.op == 'gamma' else r

    def eval_cond(self, e, fr, st):
        g = self.g
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            pc0 = fr.pc
            acc = g.true if isand else g.false
            for v in e.values:
                c = self.eval_cond(v, fr, st)
                d = self.decide(c, fr)
                if d is not None:
                    c = g.const(d)
                acc = g.mk('and' if isand else 'or', acc, c)
                if (d is False and isand) or (d is True and not isand):
                    break
                fr.pc = fr.pc + ((c, isand),)
            fr.pc = pc0
            return acc
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return g.mk('not', self.eval_cond(e.operand, fr, st))
        v = self.deref(self.eval(e, fr, st), st)
        v = self.refine(v, fr)
        return g.mk('truth', v)

    def e_Constant(self, e, fr, st):
        return self.g.const(e.value)

    def e_Name(self, e, fr, st):
        if e.id in st.env:
            return st.env[e.id]
        p = fr.parent
        while p is not None:
            pfr, pst = p
            if e.id in pst.env:
                return pst.env[e.id]
            p = pfr.parent
        return self.global_name(e.id, fr)

    def global_name(self, name, fr):
        m = fr.module
        g = self.g
        if name in m.classes:
            return g.raw('cls', m.classes[name])
        if name in m.functions:
            return g.raw('fn', m.functions[name])
        if name in m.imports:
            return self.resolved(self.P.resolve_global(m.imports[name]))
        if name in m.assigns:
            return self.module_value(m, name, fr)
        return g.raw('ext', 'builtins.' + name)

    def module_value(self, m, name, fr):
        g = self.g
        vals = m.assigns.get(name, [])
        if len(vals) == 1 and vals[0] is not None:
            v = vals[0]
            if isinstance(v, (ast.Constant, ast.Tuple, ast.UnaryOp, ast.BinOp, ast.Name, ast.Attribute, ast.Lambda)) and not any(isinstance(x, ast.Call) for x in ast.walk(v) if not isinstance(v, ast.Lambda)):
                try:
                    return self.eval(v, Frame(None, m, None, fr.stack, fr.pc), State())
                except Unsupported:
                    pass
            n = g.raw('global', m.name, name, ast.unparse(v))
            return n
        return g.raw('global', m.name, name, '?')

    def resolved(self, r):
        g = self.g
        if isinstance(r, Class):
            return g.raw('cls', r)
        if isinstance(r, Func):
            return g.raw('fn', r)
        if isinstance(r, Module):
            return g.raw('mod', r)
        if isinstance(r, tuple):
            return self.module_value(r[0], r[1], Frame(None, r[0], None, (), ()))
        return self.ext(r)

    def ext(self, dotted):
        g = self.g
        c = npmodel.CONSTANTS.get(npmodel.canon(dotted))
        if c is not None or npmodel.canon(dotted) in npmodel.CONSTANTS:
            return g.const(c)
        return g.raw('ext', npmodel.canon(dotted))

    def e_Tuple(self, e, fr, st):
        xs = self.seq(e.elts, fr, st)
        return self.g.raw('tuple', *xs)

    def seq(self, elts, fr, st):
        xs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr, st)
                d = st.content.get(v, v)
                if d.op in ('tuple', 'list'):
                    xs.extend(d.args)
                else:
                    xs.append(self.g.raw('starred', self.deref(v, st)))
            else:
                xs.append(self.eval(x, fr, st))
        return xs

    def e_List(self, e, fr, st):
        return self.alloc(self.g.raw('list', *self.seq(e.elts, fr, st)), st)

    def e_Set(self, e, fr, st):
        return self.alloc(self.g.raw('set', *self.seq(e.elts, fr, st)), st)

    def e_Dict(self, e, fr, st):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.deref(self.eval(v, fr, st), st)
                if d.op == 'dict':
                    items.extend(d.args)
                else:
                    items.append((self.g.raw('starred', d), d))
            else:
                items.append((self.eval(k, fr, st), self.eval(v, fr, st)))
        return self.alloc(self.g.raw('dict', *items), st)

    def e_JoinedStr(self, e, fr, st):
        g = self.g
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(g.const(v.value))
            else:
                parts.append(self.e_FormattedValue(v, fr, st))
        return g.text(*parts)

    def e_FormattedValue(self, e, fr, st):
        g = self.g
        v = self.deref(self.eval(e.value, fr, st), st)
        spec = ''
        if e.format_spec is not None:
            sp = self.e_JoinedStr(e.format_spec, fr, st)
            if sp.op != 'const':
                return g.raw('fstr', v, sp)
            spec = sp.args[0]
        return g.fmt(v, spec, '' if e.conversion == -1 else chr(e.conversion))

    def e_UnaryOp(self, e, fr, st):
        g = self.g
        if isinstance(e.op, ast.Not):
            return self.eval_cond(e, fr, st)
        v = self.deref(self.eval(e.operand, fr, st), st)
        if isinstance(e.op, ast.USub):
            return g.mk('neg', v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if g.is_boolean(v):
                return g.mk('not', v)
            return g.raw('invert', v)

    def e_BinOp(self, e, fr, st):
        a = self.eval(e.left, fr, st)
        b = self.eval(e.right, fr, st)
        return self.binop(type(e.op), a, b, st)

    def e_BoolOp(self, e, fr, st):
        g = self.g
        # value semantics; boolean operands give boolean nodes
        isand = isinstance(e.op, ast.And)
        pc0 = fr.pc
        acc = None
        for v in e.values:
            x = self.eval(v, fr, st)
            dx = self.refine(self.deref(x, st), fr)
            c = g.mk('truth', dx)
            d = self.decide(c, fr)
            if acc is None:
                acc, accc, accd = dx, c, d
                first = True
            else:
                if accd is not None:
                    acc = dx if accd == isand else acc
                elif g.is_boolean(acc) and g.is_boolean(dx):
                    acc = g.mk('and' if isand else 'or', acc, dx)
                else:
                    acc = g.mk('gamma', accc, dx, acc) if isand else g.mk('gamma', accc, acc, dx)
                accc = g.mk('truth', acc)
                accd = self.decide(accc, fr)
            if accd is not None and accd != isand:
                break
            fr.pc = fr.pc + ((c, isand),)
        fr.pc = pc0
        return acc

    def e_Compare(self, e, fr, st):
        g = self.g
        left = self.eval(e.left, fr, st)
        out = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, fr, st)
            r = self.compare(op, left, right, fr, st)
            out = r if out is None else g.mk('and', out, r)
            left = right
        return out

    def compare(self, op, left, right, fr, st):
        g = self.g
        a, b = self.refine(self.deref(left, st), fr), self.refine(self.deref(right, st), fr)
        if isinstance(op, (ast.Is, ast.IsNot)):
            # identity: on references when both are references
            r = g.mk('is', a, b)
            return g.mk('not', r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, ast.Lt):
            return g.mk('lt', a, b)
        if isinstance(op, ast.Gt):
            return g.mk('lt', b, a)
        if isinstance(op, ast.LtE):
            return g.mk('le', a, b)
        if isinstance(op, ast.GtE):
            return g.mk('le', b, a)
        if isinstance(op, ast.Eq):
            return self.eq_node(a, b)
        if isinstance(op, ast.NotEq):
            return g.mk('not', self.eq_node(a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            if b.op == 'vars' and b.args and a.op == 'const' and isinstance(a.args[0], str):
                r = npmodel.hasattr_node(self, b.args[0], a.args[0], st, True)
            else:
                r = g.mk('in', a, b)
            return g.mk('not', r) if isinstance(op, ast.NotIn) else r

    def eq_node(self, a, b):
        g = self.g
        # shape comparisons
        for x, y in ((a, b), (b, a)):
            if x.op == 'shape' and y.op == 'tuple' and g.rank(x.args[0]) == len(y.args):
                return g.mk('eq', g.tup(*[g.dim(x.args[0], k) for k in range(len(y.args))]), y)
        return g.mk('eq', a, b)

    def e_IfExp(self, e, fr, st):
        g = self.g
        c = self.eval_cond(e.test, fr, st)
        d = self.decide(c, fr)
        if d is not None:
            return self.eval(e.body if d else e.orelse, fr, st)
        pc0 = fr.pc
        st2 = st.copy()
        fr.pc = pc0 + ((c, True),)
        a = self.eval(e.body, fr, st)
        fr.pc = pc0 + ((c, False),)
        b = self.eval(e.orelse, fr, st2)
        fr.pc = pc0
        m = self.merge_states(c, st, st2)
        st.heap, st.content, st.epoch = m.heap, m.content, m.epoch
        st.env = m.env
        return g.mk('gamma', c, a, b)

    def e_NamedExpr(self, e, fr, st):
        v = self.eval(e.value, fr, st)
        st.env[e.target.id] = v
        return v

    def e_Lambda(self, e, fr, st):
        f = Func(e, fr.module, None)
        f.closure = (fr, st)
        n = self.g.raw('lam', self.g.uid())
        self.closures[n] = f
        return n

    def e_Starred(self, e, fr, st):
        return self.g.raw('starred', self.deref(self.eval(e.value, fr, st), st))

    def e_Yield(self, e, fr, st):
        v = self.g.none if e.value is None else self.eval(e.value, fr, st)
        self.ev('yield', fr, e, value=v, val=self.deref(v, st))
        return self.g.raw('sent', self.g.uid())

    def eval_index(self, e, fr, st):
        if isinstance(e, ast.Tuple):
            return self.g.tup(*[self.eval_index(x, fr, st) for x in e.elts])
        if isinstance(e, ast.Slice):
            f = lambda x: self.g.none if x is None else self.deref(self.eval(x, fr, st), st)
            return self.g.mk('slice', f(e.lower), f(e.upper), f(e.step))
        return self.refine(self.deref(self.eval(e, fr, st), st), fr)

    def e_Slice(self, e, fr, st):
        return self.eval_index(e, fr, st)

    def e_Subscript(self, e, fr, st):
        o = self.eval(e.value, fr, st)
        i = self.eval_index(e.slice, fr, st)
        return self.load_item(o, i, fr, st, e)

    def load_item(self, o, i, fr, st, e):
        g = self.g
        r = st.content.get(o, o)
        if r.op in ('list', 'tuple') and g.num(i) is not None and isinstance(g.num(i), int) and -len(r.args) <= g.num(i) < len(r.args):
            return r.args[g.num(i)]
        d = self.refine(self.deref(o, st), fr)
        v = g.mk('index', d, i)
        self.ev('getitem', fr, e, target=o, index=i, val=v, base=d)
        return v

    def comp(self, e, fr, st):
        """common part of comprehensions: returns (loops info list, evaluated element getter)"""
        g = self.g
        st2 = State(dict(st.env), st.heap, st.content, st.epoch)
        pc0 = fr.pc
        gens = []
        for gen in e.generators:
            it = self.deref(self.eval(gen.iter, fr, st2), st2)
            loop = g.uid()
            trip, el = self.iter_elem(it, loop, st2)
            self.assign(gen.target, el, fr, st2, e)
            fr.pc = fr.pc + ((g.raw('loop', loop), True),)
            conds = []
            for c in gen.ifs:
                cn = self.eval_cond(c, fr, st2)
                conds.append(cn)
                fr.pc = fr.pc + ((cn, True),)
            gens.append((loop, trip, tuple(conds)))
            g.loops[loop] = dict(id=loop, trip=trip, cond=None, iter=it, comprehension=True)
        return gens, st2, pc0

    def wrap(self, gens, body):
        g = self.g
        for k, (loop, trip, conds) in enumerate(reversed(gens)):
            kk, tup = g.bind(g.tup(body, *conds), g.raw('pos', loop))
            body = g.mk('map', kk, trip, tup.args[0], tuple(c for c in tup.args[1:] if c is not g.true))
            if k > 0:
                body = g.raw('flatten', body)
        return body

    def e_ListComp(self, e, fr, st):
        un = self.comp_unroll(e, fr, st)
        if un is not None:
            return self.alloc(self.g.raw('list', *un), st)
        gens, st2, pc0 = self.comp(e, fr, st)
        v = self.deref(self.eval(e.elt, fr, st2), st2)
        fr.pc = pc0
        if v.op == 'list' and not v.args:
            # fresh lists with an identity each
            v = self.g.raw('cell', self.g.uid(), *[self.g.raw('pos', loop) for loop, trip, conds in gens])
        return self.alloc(self.wrap(gens, v), st)

    def comp_unroll(self, e, fr, st):
        if len(e.generators) != 1 or e.generators[0].ifs:
            return None
        it = self.eval(e.generators[0].iter, fr, st)
        un = self.unrollable(it, st)
        if un is None:
            return None
        out = []
        for x in un:
            st2 = State(dict(st.env), st.heap, st.content, st.epoch)
            self.assign(e.generators[0].target, x, fr, st2, e)
            out.append(self.eval(e.elt, fr, st2))
        return out

    def e_GeneratorExp(self, e, fr, st):
        return self.e_ListComp(e, fr, st)

    def e_SetComp(self, e, fr, st):
        gens, st2, pc0 = self.comp(e, fr, st)
        v = self.deref(self.eval(e.elt, fr, st2), st2)
        fr.pc = pc0
        return self.alloc(self.g.raw('setcomp', self.wrap(gens, v)), st)

    def e_DictComp(self, e, fr, st):
        gens, st2, pc0 = self.comp(e, fr, st)
        k = self.deref(self.eval(e.key, fr, st2), st2)
        v = self.deref(self.eval(e.value, fr, st2), st2)
        fr.pc = pc0
        return self.alloc(self.g.raw('dictcomp', self.wrap(gens, self.g.tup(k, v))), st)

    # ------------------------------------------------------------------ attributes
    def type_of(self, n, depth=0):
        if n in self.types:
            return self.types[n]
        if n.op == 'new':
            return n.args[0]
        if n.op == 'attr0' and n.args[1] in self.child_attrs:
            return self.tree_cls
        if n.op in ('gamma',) and depth < 10:
            ts = {self.type_of(x, depth + 1) for x in n.args[1:] if not (x.op == 'const' and x.args[0] is None)}
            ts.discard(None) if len(ts) > 1 else None
            if len(ts) == 1:
                return ts.pop()
        if n.op in ('mu', 'fin') and depth < 10 and is_node(n.args[2]):
            return self.type_of(n.args[2], depth + 1)
        return None

    def load_attr_raw(self, o, name, st):
        v = st.heap.get((o, name))
        if v is not None:
            return v
        return self.initial_attr(o, name, st)

    def e_Attribute(self, e, fr, st):
        # dotted external / module names
        o = self.eval(e.value, fr, st)
        return self.load_attr(o, e.attr, fr, st, e)

    def load_attr(self, o, name, fr, st, e):
        g = self.g
        o = self.refine(o, fr)
        if o.op == 'mod':
            m = o.args[0]
            return self.resolved(self.P.resolve_global(m.name + '.' + name))
        if o.op == 'ext':
            d = o.args[0] + '.' + name
            return self.ext(d)
        if o.op == 'cls':
            c = o.args[0]
            if name in ('__name__', '__qualname__'):
                return g.const(c.name)
            f, owner = c.find(name)
            if isinstance(f, Func):
                return g.raw('bound', o, f, owner) if f.is_class else g.raw('fn', f)
            if f is not None:
                return self.classvar(owner, name, f, fr)
            return g.raw('clsattr', o, name)
        if o.op == 'super':
            f, owner = o.args[1].find(name, after=o.args[0])
            if isinstance(f, Func):
                return g.raw('bound', o.args[2], f, owner)
            return g.raw('extm', o.args[2], name)
        v = st.heap.get((o, name))
        if v is not None:
            if v.op == 'undef':
                self.ev('undefread', fr, e, obj=o, name=name)
            else:
                self.ev('getattr', fr, e, obj=o, name=name, value=v, type=self.type_of(o))
            return v
        if o.op == 'gamma' and self.type_of(o) is not None:
            a = o.args[1] if o.args[1].op == 'const' else self.load_attr(o.args[1], name, fr, st, e)
            b = o.args[2] if o.args[2].op == 'const' else self.load_attr(o.args[2], name, fr, st, e)
            if a.op == 'const' and o.args[1].op == 'const':
                return b
            if b.op == 'const' and o.args[2].op == 'const':
                return a
            if a.op == 'bound' and b.op == 'bound' and a.args[1] is b.args[1]:
                return g.raw('bound', o, a.args[1], a.args[2])
            return g.mk('gamma', o.args[0], a, b)
        t = self.type_of(o)
        if t is None and self.tree_cls is not None and name not in npmodel.METHODS and name not in npmodel.ATTRS and o.op not in ('param',) \
                and g.kind(self.deref(o, st)) == 'unknown':
            f, owner = self.tree_cls.find(name)
            if isinstance(f, Func) and not f.is_abstract:
                t = self.tree_cls
        if t is not None:
            f, owner = t.find(name)
            if isinstance(f, Func):
                if f.is_property:
                    s2, val = self.call_func(f, o, [], {}, st, fr, e)
                    if s2 is not None:
                        st.heap, st.content, st.epoch = s2.heap, s2.content, s2.epoch
                    return val
                return g.raw('bound', o, f, owner)
            if f is not None:
                return self.classvar(owner, name, f, fr)
            if name == '__class__':
                return g.raw('cls', t)
            if name == '__dict__':
                return g.raw('vars', o)
            v = self.initial_attr(o, name, st)
            if v.op == 'undef':
                self.ev('undefread', fr, e, obj=o, name=name)
            else:
                self.ev('getattr', fr, e, obj=o, name=name, value=v, type=t)
            return v
        d = self.deref(o, st)
        r = npmodel.attr(self, d, name, o, st)
        if r is not None:
            return r
        if name in npmodel.METHODS or g.kind(d) in ('ndarray', 'list', 'str', 'csr', 'csc', 'dict', 'df', 'set', 'tuple'):
            return g.raw('extm', o, name)
        if o.op in ('param', 'attr0', 'index', 'new', 'dyn', 'rcall', 'gamma', 'mu', 'fin'):
            v = self.initial_attr(o, name, st)
            self.ev('getattr', fr, e, obj=o, name=name, value=v, type=None)
            return v
        return g.raw('extm', o, name)

    def classvar(self, owner, name, expr, fr):
        try:
            v = self.eval(expr, Frame(None, owner.module, owner, fr.stack, fr.pc), State())
            if v.op in ('const', 'cls', 'fn', 'ext', 'lam', 'tuple'):
                return v
        except Unsupported:
            pass
        return self.g.raw('classvar', owner.name, name, ast.unparse(expr))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, fr, st):
        g = self.g
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env:
            if fr.self_node is None or fr.cls is None:
                raise Unsupported('super outside method')
            t = self.type_of(fr.self_node)
            cls = fr.cls
            return g.raw('super', cls, t or cls, fr.self_node)
        f = self.eval(e.func, fr, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(('star', self.eval(a.value, fr, st)))
            else:
                args.append(self.eval(a, fr, st))
        kwargs = {}
        for k in e.keywords:
            kwargs[k.arg if k.arg is not None else '**'] = self.eval(k.value, fr, st)
        return self.call(f, args, kwargs, fr, st, e)

    def call(self, f, args, kwargs, fr, st, e):
        g = self.g
        f = self.refine(f, fr)
        if any(isinstance(a, tuple) for a in args):
            flat = []
            for a in args:
                if isinstance(a, tuple):
                    d = self.deref(a[1], st)
                    raw = st.content.get(a[1], a[1])
                    if raw.op in ('tuple', 'list'):
                        flat.extend(raw.args)
                    elif d.op in ('tuple', 'list'):
                        flat.extend(d.args)
                    else:
                        flat.append(a)
                else:
                    flat.append(a)
            args = flat
        if f.op == 'fn':
            return self._ret(self.call_func(f.args[0], None, args, kwargs, st, fr, e), st)
        if f.op == 'bound':
            func = f.args[1]
            recv = f.args[0]
            return self._ret(self.call_func(func, recv, args, kwargs, st, fr, e), st)
        if f.op == 'lam':
            return self._ret(self.call_func(self.closures[f], None, args, kwargs, st, fr, e), st)
        if f.op == 'cls':
            return self.construct(f.args[0], args, kwargs, fr, st, e)
        if f.op == 'gamma':
            # choice between callables
            c = f.args[0]
            if all(x.op in ('fn', 'bound', 'lam', 'cls', 'ext', 'extm') for x in f.args[1:]):
                pc0 = fr.pc
                st2 = st.copy()
                fr.pc = pc0 + ((c, True),)
                a = self.call(f.args[1], args, kwargs, fr, st, e)
                fr.pc = pc0 + ((c, False),)
                b = self.call(f.args[2], args, kwargs, fr, st2, e)
                fr.pc = pc0
                m = self.merge_states(c, st, st2)
                st.heap, st.content, st.epoch, st.env = m.heap, m.content, m.epoch, m.env
                return g.mk('gamma', c, a, b)
        if f.op in ('ext', 'extm'):
            r = npmodel.call(self, f, args, kwargs, fr, st, e)
            if r is not None:
                return r
            if f.op == 'extm':
                t = self.type_of(f.args[0])
                name = f.args[1]
                if t is not None:
                    fn, owner = t.find(name)
                    if isinstance(fn, Func):
                        return self._ret(self.call_func(fn, f.args[0], args, kwargs, st, fr, e), st)
        return self.dyncall(f, args, kwargs, fr, st, e)

    def _ret(self, res, st):
        s2, v = res
        if s2 is None:
            st.env['$dead'] = True
            return v
        st.heap, st.content, st.epoch = s2.heap, s2.content, s2.epoch
        return v

    def construct(self, cls, args, kwargs, fr, st, e):
        g = self.g
        o = g.raw('new', cls, g.uid())
        g.set_fact(o, kind='obj', rank=None)
        ev = self.ev('new', fr, e, cls=cls, obj=o, args=[a for a in args if is_node(a)], kwargs=dict(kwargs))
        f, owner = cls.find('__init__')
        if isinstance(f, Func):
            s2, _ = self.call_func(f, o, args, kwargs, st, fr, e)
            if s2 is not None:
                st.heap, st.content, st.epoch = s2.heap, s2.content, s2.epoch
        elif args or kwargs:
            g.set_fact(o, ctor_args=True)
        return o

    def dyncall(self, f, args, kwargs, fr, st, e):
        g = self.g
        name = None
        recv = None
        if f.op == 'attr0':
            recv, name = f.args[0], f.args[1]
        elif f.op == 'extm':
            recv, name = f.args[0], f.args[1]
        elif f.op == 'gamma':
            # attribute of a choice of receivers: same attribute name on both
            names = {x.args[1] for x in f.args[1:] if x.op in ('attr0', 'extm')} | {x.args[1].name for x in f.args[1:] if x.op == 'bound'}
            if len(names) == 1:
                name = names.pop()
                recv = g.raw('gamma', f.args[0], *[x.args[0] for x in f.args[1:]])
        vals = [self.deref(a, st) for a in args if is_node(a)] + [self.deref(a[1], st) for a in args if isinstance(a, tuple)]
        kvals = {k: self.deref(v, st) for k, v in kwargs.items()}
        ev = self.ev('dyncall', fr, e, callee=f, name=name, receiver=recv, args=list(args), vals=vals, kwargs=dict(kwargs), kvals=kvals, state=st.copy())
        v = g.raw('dyn', name or '?', g.uid(), f, *(vals + list(kvals.values())))
        if ev is not None:
            ev.d['value'] = v
        for a in list(args) + list(kwargs.values()):
            a = a[1] if isinstance(a, tuple) else a
            targets = [a]
            if a.op == 'bound':
                targets = [a.args[0]]
            for t in targets:
                if t.op == 'new':
                    attrs = self.class_writes(t.args[0])
                    self.havoc(t, st, attrs)
        return v

    def class_writes(self, cls):
        """attributes stored by methods of cls other than __init__"""
        out = set()
        for c in cls.mro():
            if isinstance(c, Class):
                for n, f in c.methods.items():
                    if n == '__init__':
                        continue
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                            out.add(x.attr)
        return out


class _AnyObj:
    """heap cells of objects that exist before the loop"""
    def __init__(self, init, it):
        self.init = init

    def __contains__(self, o):
        return o.op != 'new' or any(k[0] is o for k in self.init.heap) or True


def own_walk_stmt(b):
    stack = [b]
    while stack:
        n = stack.pop()
        for c in ast.iter_child_nodes(n):
            yield c
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            stack.append(c)


def pc_node(g, pc):
    r = g.true
    for n, pol in pc:
        if n.op == 'loop':
            continue
        r = g.mk('and', r, n if pol else g.mk('not', n))
    return r
