"""Random interpretation of the query methods: the summaries (value graphs and effect events) of a query at an inner node and at a leaf,
with the recursive calls resolved by the summaries of the children, over small random trees."""
import numpy as np
import scipy.sparse as sp

from .graph import is_node
from .termeval import BadValue, CantEval, Eval


class N:
    """a node of a random tree: attribute values of a state that a fit can produce"""
    def __init__(self, state, attrs, params, kids=None):
        self.state, self.attrs, self.params, self.kids = state, attrs, params, kids or {}
        self.full = None
        self.absent = frozenset()                     # attributes that a fit may leave unset on such a node

    def get(self, a):
        if a in self.kids:
            return self.kids[a]
        if a in self.attrs:
            return self.attrs[a]
        if a in self.params:
            return self.params[a]
        if a in self.absent:
            raise BadValue('attribute {} is not set'.format(a))
        raise CantEval('attribute {}'.format(a))

    def __repr__(self):
        return 'node({})'.format(self.state)


class Cell:
    """a list object with identity"""
    def __init__(self, init=()):
        self.items = list(init)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        return self.items[i]


class Raised(Exception):
    def __init__(self, exc, where):
        Exception.__init__(self, '{} at {}'.format(exc, where))
        self.exc, self.where = exc, where


class Sim:
    def __init__(self, C, tname, kind='ndarray'):
        self.C, self.tname, self.kind = C, tname, kind
        self.steps = {}
        self.depth = 0
        self.contexts = set()
        self.budget = 20000

    # ------------------------------------------------------------------ contexts
    def entry(self, method, node, **args):
        c = self.C.query(self.tname, method, node.state, self.kind)
        if c.error:
            raise CantEval(c.error)
        lv = {}
        if c.X is not None:
            X = args['X']
            lv[c.X] = {'csr': sp.csr_matrix, 'csc': sp.csc_matrix}.get(self.kind, np.asarray)(X)
        return self.run(c, node, lv, entry=True)

    def step_ctx(self, ctx, e, state):
        """context of the recursive call event e of ctx on a node in the given state"""
        tmpl = {p: n for p, n in e.vals.items()}
        g = ctx.g
        tag = []
        for p in sorted(tmpl):
            n = tmpl[p]
            if not is_node(n):
                continue
            tag.append((p, repr(n.args[0]) if n.op == 'const' else (g.kind(n), g.rank(n))))
        c = self.C.step(self.tname, e.func, state, tmpl, g, tuple(tag))
        if c.error:
            raise CantEval(c.error)
        return c

    def constants(self):
        """the numbers in the summaries that were used"""
        from .vals import constants
        out = set()
        for c in self.contexts:
            terms = [x for e in c.I.events[c.ctor_events:] for x, p in e.pc if is_node(x) and x.op != 'loop']
            for e in c.I.events[c.ctor_events:]:
                for f in ('value', 'target', 'val', 'receiver', 'index', 'obj'):
                    v = getattr(e, f, None) if not hasattr(e, 'd') else e.d.get(f, getattr(e, f, None))
                    if is_node(v):
                        terms.append(v)
                vs = e.d.get('vals') if hasattr(e, 'd') else None
                if isinstance(vs, dict):
                    vs = list(vs.values())
                terms += [v for v in vs or () if is_node(v)]
            if is_node(c.value):
                terms.append(c.value)
            if c.state is not None:
                terms += [c.I.deref(a, c.state) for a in getattr(c, 'args', {}).values() if is_node(a)]
            for info in c.g.loops.values():
                if is_node(info.get('trip')):
                    terms.append(info['trip'])
                for k in ('breaks', 'rets'):
                    terms += [x for b in info.get(k) or () for x, p in b[1] if is_node(x) and x.op != 'loop']
            out.update(constants(c.g, terms))
        return sorted(out)

    # ------------------------------------------------------------------ functional interpretation
    def leaves(self, c, node, lv):
        out = dict(lv)
        for n, p in c.params.items():
            if p.op == 'param':
                if n in node.params:
                    out[p] = node.params[n]
        for a, n in c.attrs.items():
            if a in node.attrs:
                out[n] = node.attrs[a]
        for a, n in c.kids.items():
            out[n] = node.kids[a]
        out[c.obj] = node
        return out

    def evaluator(self, c, node, lv, cells=None):
        def attr0(ev, n, env):
            o = ev.ev(n.args[0], env)
            if not isinstance(o, N):
                raise CantEval('attribute of ' + type(o).__name__)
            return o.get(n.args[1])

        def rcall(ev, n, env):
            e = self.event_of(c, n)
            return self.result(c, e, ev, env)[0]

        def after(ev, n, env):
            uid, fn, p, recv, old, pairs = n.args
            e = self.event_after(c, n)
            child = ev.ev(recv, env)
            if not isinstance(child, N):
                raise CantEval('receiver')
            return self.result(c, e, ev, env, {p: old})[1][p]

        def cell(ev, n, env):
            if cells is None:
                raise CantEval('list identity')
            key = (n.args[0],) + tuple(np.asarray(ev.ev(x, env)).item() for x in n.args[1:])
            if key not in cells:
                cells[key] = Cell()
            return cells[key]
        return Eval(self.leaves(c, node, lv), {'undef': lambda ev, n, env: node.get(n.args[0]), 'attr0': attr0, 'rcall': rcall, 'after': after, 'cell': cell}, I=c.I)

    def event_of(self, c, n):
        m = c.__dict__.setdefault('_revents', None)
        if m is None:
            m = c._revents = {}
            for e in c.evs('rcall'):
                m.setdefault(e.value, e)
        if n not in m:
            raise CantEval('recursive call')
        return m[n]

    def event_after(self, c, n):
        fn, p, recv, pairs = n.args[1], n.args[2], n.args[3], n.args[5]
        want = {t.args[0].args[0]: t.args[1] for t in pairs.args}
        for e in c.evs('rcall'):
            if e.func.qualname == fn and (e.receiver or c.g.none) is recv and all(e.vals.get(k) is v for k, v in want.items()):
                return e
        raise CantEval('effect of a recursive call')

    def result(self, c, e, ev, env, override=None):
        """(value, {argument: final content}) of the recursive call e"""
        self.budget -= 1
        if self.budget < 0:
            raise CantEval('too many calls')
        child = ev.ev(e.receiver, env)
        if not isinstance(child, N):
            raise CantEval('receiver')
        k = self.step_ctx(c, e, child.state)
        lv = {}
        for p, a in k.args.items():
            if a.op == 'const':
                continue
            src = (override or {}).get(p, e.vals[p])
            v = ev.ev(src, env)
            lv[a] = np.array(v) if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v
        self.contexts.add(k)
        return self.run(k, child, lv, want=tuple(override or ()))

    def check_raises(self, c, ev):
        for e in c.evs('raise'):
            if e.seq < c.ctor_events or any(x.op == 'loop' for x, p in e.pc):
                continue
            if all(ev._truth(ev(x)) == p for x, p in e.pc):
                raise Raised(e.exc, e.where)

    def run(self, c, node, lv, entry=False, want=()):
        self.contexts.add(c)
        self.depth += 1
        try:
            if self.depth > 150:
                raise CantEval('too deep')
            ev = self.evaluator(c, node, lv)
            if entry or c.state is None:
                self.check_raises(c, ev)
            if c.state is None:
                raise CantEval('never returns')
            val = ev(c.value) if c.value is not None and not want else None
            return val, {p: ev(c.I.deref(c.args[p], c.state)) for p in want}
        finally:
            self.depth -= 1

    # ------------------------------------------------------------------ replay of effects on lists with identity
    def replay(self, method, node, X):
        """result of a query that fills lists: value with every list as the tuple of its items"""
        c = self.C.query(self.tname, method, node.state, self.kind)
        if c.error:
            raise CantEval(c.error)
        lv = {c.X: {'csr': sp.csr_matrix, 'csc': sp.csc_matrix}.get(self.kind, np.asarray)(X)}
        cells = {}
        ev = self.effects(c, node, lv, cells)
        if c.state is None:
            raise CantEval('never returns')
        return ev(c.value)

    def effects(self, c, node, lv, cells):
        self.contexts.add(c)
        ev = self.evaluator(c, node, lv, cells)
        self.check_raises(c, ev)
        evs = [e for e in c.I.events[c.ctor_events:] if e.kind in ('listmut', 'rcall')]
        self.play(c, evs, ev, {}, cells, 0)
        return ev

    def play(self, c, evs, ev, bound, cells, lev):
        i = 0
        while i < len(evs):
            e = evs[i]
            loops = [x for x, p in e.pc if x.op == 'loop']
            if len(loops) > lev:
                L = loops[lev]
                j = i
                while j < len(evs) and [x for x, p in evs[j].pc if x.op == 'loop'][lev:lev + 1] == [L]:
                    j += 1
                info = c.I.g.loops[L.args[0]]
                # conditions in front of the loop
                pre = []
                for x, p in e.pc:
                    if x is L:
                        break
                    pre.append((x, p))
                if all(ev._truth(ev(x)) == p for x, p in pre if x.op != 'loop'):
                    trip = info['trip']
                    if not is_node(trip) or info['breaks'] or info['rets']:
                        raise CantEval('loop form')
                    for k in range(int(ev(trip))):
                        self.play(c, evs[i:j], ev.sub({c.g.raw('pos', L.args[0]): k}), bound, cells, lev + 1)
                i = j
                continue
            i += 1
            if not all(ev._truth(ev(x)) == p for x, p in e.pc if x.op != 'loop'):
                continue
            if e.kind == 'listmut':
                t = ev(e.target)
                if not isinstance(t, Cell):
                    if isinstance(t, list):
                        continue                        # a local list: its content is part of the terms
                    raise CantEval('target of ' + e.how)
                if e.how == 'append':
                    v = e.d.get('val')
                    vs = e.d.get('vals')
                    t.items.append(ev(vs[0] if vs is not None else v))
                elif e.how == 'extend':
                    v = e.d.get('val')
                    vs = e.d.get('vals')
                    t.items.extend(list(ev(vs[0] if vs is not None else v)))
                else:
                    raise CantEval('list operation ' + e.how)
            else:
                child = ev(e.receiver)
                if not isinstance(child, N):
                    raise CantEval('receiver')
                k = self.step_ctx(c, e, child.state)
                klv = {}
                for p, a in k.args.items():
                    if a.op != 'const':
                        klv[a] = ev(e.vals[p])
                self.budget -= 1
                if self.budget < 0:
                    raise CantEval('too many calls')
                self.effects(k, child, klv, cells)


# ---------------------------------------------------------------------- random trees
class TreeGen:
    def __init__(self, C, tname, family, clf, states):
        self.C, self.tname, self.family, self.clf, self.ns = C, tname, family, clf, states

    def settings(self, r):
        """constructor settings of a whole tree (an own generator: they do not depend on the shape)"""
        q = np.random.default_rng(int(r.integers(0, 1 << 30)))
        return {'partition_prior': float(q.choice([0.9, 0.5, 0.99])), 'delta': float(q.choice([0.0, 0.0, 0.5, 1.0, 0.25])), 'prune': bool(q.random() < 0.5),
                'split_precision': float(q.choice([0.0, 0.0, 0.5]))}

    def random(self, r, depth, dims, K, level=0, root=True, leafkind=None, chain=False, settings=None):
        ns = self.ns.states
        settings = settings or self.settings(r)
        inner = depth > 0 and (root or chain or r.random() < 0.75)
        if inner and not ns['inner']:
            inner = False
        state = 'inner' if inner else (leafkind or ('leaf' if root or not ns['leaf child'] or r.random() < 0.5 else 'leaf child'))
        attrs, kids = {}, {}
        consts = {}
        for a, alts in ns[state].items():
            vs = list(alts.values())
            if len(vs) == 1 and vs[0].kind == 'const':
                consts[a] = vs[0].value
        attrs.update(consts)
        attrs['n_dim_'] = dims
        params = {'level': level, 'optimizer': 'an optimizer', 'is_regression': not self.clf}
        params.update(settings)
        if inner:
            gain = float(np.round(r.uniform(0.1, 5), 3))
            attrs['log_p_data_no_split_'] = float(np.round(-r.uniform(3, 30), 3))
            attrs['best_log_p_data_split_'] = attrs['log_p_data_no_split_'] + gain
            if self.family == 'perp':
                d = int(r.integers(0, dims))
                attrs['split_dimension_'] = d
                attrs['split_feature_name_'] = 'feature {}'.format(d)
                attrs['split_value_'] = 0.0 if r.random() < 0.3 else float(np.round(r.normal(), 1))
            else:
                v = r.normal(size=dims)
                if r.random() < 0.3:
                    v = np.zeros(dims)
                    v[int(r.integers(0, dims))] = r.choice([-1.0, 1.0])
                attrs['best_hyperplane_normal_'] = v / np.linalg.norm(v)
                attrs['best_hyperplane_origin_'] = np.round(r.normal(size=dims), 1)
            names = [a for a, alts in ns[state].items() if all(v.kind == 'child' for v in alts.values())]
            long = names[int(r.integers(0, len(names)))] if chain and names else None
            for a in names:
                kids[a] = self.random(r, 0 if chain and a != long else depth - 1, dims, K, level + 1, False, chain=chain and a == long, settings=settings)
        node = N(state, attrs, params, kids)
        if root:
            self.populate(r, node, K)
            self.blank_all(r, node)
        return node

    def blank_all(self, r, node, root=True):
        for k in node.kids.values():
            self.blank_all(r, k, False)
        self.blank(r, node, not root)

    def populate(self, r, tree, K, **kw):
        populate(r, tree, K, self.clf, **kw)

    def blank(self, r, node, below):
        """leaves out what some fit leaves out on a node in this state"""
        sigs = sorted(self.ns.sigs.get((node.state, below)) or self.ns.sigs.get((node.state, not below)) or (), key=sorted)
        if not sigs:
            return
        sig = dict(sigs[int(r.integers(0, len(sigs)))]) if len(sigs) > 1 else dict(sigs[0])
        node.absent = frozenset(self.ns.known() - set(sig))
        node.full = dict(node.attrs)
        for a in list(node.attrs):
            if a in node.absent:
                del node.attrs[a]
            elif sig.get(a) == 'none':
                node.attrs[a] = None


def populate(r, tree, K, clf, same=False, unit=1.0, leafn=None, rootn=None, many=1):
    """gives all nodes of a tree training data, and the data counts, priors and posteriors that go with them

    same: equal predictions are frequent; unit: magnitude of priors or targets; leafn, rootn: rows in each leaf or in the root"""
    q = np.random.default_rng(int(r.integers(0, 1 << 30)))
    below = {}

    def leaves(x):
        below[id(x)] = sum(leaves(k) for k in x.kids.values()) if x.kids else 1
        return below[id(x)]
    leaves(tree)

    def size(x, n):
        """rows of each leaf"""
        if not x.kids:
            return {id(x): max(1, n if rootn is not None else leafn if leafn is not None else
                               many if x.state == 'leaf child' and q.random() < 0.4 else int(q.integers(1, 13)) * many)}
        out, kids = {}, list(x.kids.values())
        for i, k in enumerate(kids):
            spare = 0 if n is None else max(0, n - sum(below[id(j)] for j in kids[i:]))
            m = None if n is None else below[id(k)] + (spare if i == len(kids) - 1 else int(q.integers(0, spare + 1)))
            out.update(size(k, m))
            n = None if n is None else n - m
        return out
    rows = size(tree, rootn)
    even = q.random() < 0.2
    stats = {}

    def stat(x):
        if x.kids:
            stats[id(x)] = sum(stat(k) for k in x.kids.values())
        elif clf:
            n = rows[id(x)]
            if same:
                top = 0 if q.random() < 0.65 else int(q.integers(0, K))
                p = np.full(K, 0.3 / K)
                p[top] += 0.7
            else:
                p = q.dirichlet(np.full(K, 0.7))
            c = q.multinomial(n, p) if n < 1 << 31 else np.floor(n * p)
            if same and n >= 2:
                other = int(np.argmax(c))
                c[other], c[top] = c[top], c[other]
            if even and n >= K:
                c = np.full(K, n // K)
                rows[id(x)] = int(c.sum())
            stats[id(x)] = c.astype(float)
        else:
            n = rows[id(x)]
            m = q.choice([1.0, 1.0, 1.0, 1.0 + 1e-9, 0.0, -1.0]) if same else np.round(q.normal(), 2)
            v = 0.0 if n == 1 or x.state == 'leaf child' else float(np.round(q.uniform(0.01, 2), 2))
            stats[id(x)] = np.array([n, n * m * unit, n * (v + m * m) * unit * unit])
        return stats[id(x)]
    stat(tree)
    if clf:
        prior = (np.full(K, q.choice([1.0, 0.5, 2.0])) if even or q.random() < 0.6 else np.round(q.uniform(0.1, 2, size=K), 2)) * unit
    else:
        prior = np.array([1.0 if same else np.round(q.normal(), 2), np.round(q.uniform(.2, 3), 2), np.round(q.uniform(.2, 2), 2), np.round(q.uniform(.2, 2), 2)])
        prior = prior * [unit, 1.0, 1.0, unit * unit]
    if not clf:
        even = False

    def update(p, s, delta):
        if clf:
            return p + delta * s
        if delta == 0:
            return p
        mu, kappa, alpha, beta = p
        n, t, t2 = s
        d = n * delta
        return np.array([(kappa * mu + d * (t / n)) / (kappa + d), kappa + d, alpha + 0.5 * d,
                         beta + 0.5 * delta * max(0.0, t2 - t * t / n) + 0.5 * kappa * d * (t / n - mu) ** 2 / (kappa + d)])

    def assign(x, p):
        s = stats[id(x)]
        new = {'n_data_': int(s.sum()) if clf else int(s[0]), 'prior_': p, 'posterior_': update(p, s, 1)}
        for at in (x.attrs, x.full):
            if at is not None:
                for a, v in new.items():
                    if a not in x.absent or at is x.full:
                        at[a] = v
        x.params['prior'] = p
        for k in x.kids.values():
            assign(k, update(p, stats[id(k)], x.params['delta']) if x.params.get('delta') else p)
    assign(tree, prior)


def filled(t):
    """the tree with every value that a fit may leave out"""
    n = N(t.state, t.full if t.full is not None else t.attrs, t.params, {a: filled(k) for a, k in t.kids.items()})
    return n


def walk(t):
    yield t
    for a in sorted(t.kids):
        yield from walk(t.kids[a])
