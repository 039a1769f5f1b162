"""Analysis contexts: which entry points are analysed, with which facts about their arguments."""
from .graph import Graph, is_node
from .interp import Interp, State, Unsupported
from .loader import AnchorError, Class, Func, Project

TREES = ['PerpendicularClassificationTree', 'PerpendicularRegressionTree', 'HyperplaneClassificationTree', 'HyperplaneRegressionTree']
CTOR_PUBLIC = ['partition_prior', 'prior', 'delta', 'prune', 'split_precision', 'level']


class Ctx:
    """result of one context"""
    def __init__(self, name):
        self.name = name
        self.error = None

    def evs(self, kind, **kw):
        for e in self.I.events:
            if e.kind == kind and all(e.d.get(k) is v or e.d.get(k) == v for k, v in kw.items()):
                yield e


def family(name):
    return 'perp' if name.startswith('Perp') else 'hyper'


def is_clf(name):
    return 'Classification' in name


class Contexts:
    def __init__(self, project=None):
        self.P = project or Project()
        self.cache = {}
        for t in TREES:
            c = self.P.cls(t)
            for m in ('fit', 'predict', 'feature_importance', 'get_depth', 'get_n_leaves', '__init__') + (('predict_proba',) if is_clf(t) else ()) + (('prediction_paths',) if family(t) == 'perp' else ()):
                f, _ = c.find(m)
                if not isinstance(f, Func):
                    raise AnchorError('{}.{} not found'.format(t, m))
        self.opaque = {}
        u = None
        for m in self.P.modules.values():
            for n, op in (('multivariate_betaln', 'betalnv'), ('hypercube_to_hypersphere_surface', 'sphere')):
                if n in m.functions:
                    self.opaque[m.functions[n].node] = op

    def get(self, key, build):
        if key not in self.cache:
            c = Ctx(key)
            try:
                build(c)
            except Unsupported as ex:
                c.error = str(ex)
            except RecursionError:
                c.error = 'recursion limit'
            self.cache[key] = c
        return self.cache[key]

    # ---------------------------------------------------------------- construction of a tree object
    def make_tree(self, I, st, tname, fixed, plain=False):
        """runs the constructor with symbolic parameters; returns the object node and its parameter nodes"""
        g = I.g
        cls = self.P.cls(tname)
        f, owner = cls.find('__init__')
        names = [a.arg for a in f.node.args.args][1:]
        params = {}
        for n in names:
            if n in fixed:
                params[n] = fixed[n](g)
            else:
                params[n] = g.param('ctor_' + n)
        facts = {} if plain else params
        if 'partition_prior' in facts:
            g.set_fact(params['partition_prior'], kind='float', rank=0)
        for n in ('delta', 'split_precision'):
            if n in facts and params[n].op == 'param':
                g.set_fact(params[n], kind='float', rank=0)
        if 'level' in facts and params['level'].op == 'param':
            g.set_fact(params['level'], kind='int', rank=0)
        if 'prior' in facts and params['prior'].op == 'param':
            g.set_fact(params['prior'], nonnull=True, rank=1)
        if 'optimizer' in facts and params['optimizer'].op == 'param':
            g.set_fact(params['optimizer'], nonnull=True)
        o = g.raw('new', cls, g.uid())
        g.set_fact(o, kind='obj')
        I.types[o] = cls
        r = I.run(f, o, params, st)
        if r[0] is None:
            raise Unsupported('constructor never returns')
        s = r[0]
        return o, params, State({}, s.heap, s.content, s.epoch)

    def ctor(self, tname):
        """the constructor, with nothing known about its arguments"""
        def build(c):
            I = self.new_interp(tname, ())
            c.I, c.g = I, I.g
            c.obj, c.params, c.state = self.make_tree(I, State(), tname, {}, plain=True)
            c.ctor_events = len(I.events)
            c.after_ctor = c.state
        return self.get(('ctor', tname), build)

    def new_interp(self, tname, child_attrs=None):
        if child_attrs is None:
            child_attrs = self.child_attrs(tname)
        return Interp(self.P, opaque=self.opaque, child_attrs=child_attrs, tree_cls=self.P.cls(tname))

    # ---------------------------------------------------------------- discovery
    def child_attrs(self, tname):
        """attributes of a tree that are assigned objects of its own class (or None)"""
        key = ('child_attrs', tname)
        if key not in self.cache:
            self.cache[key] = ()
            c = self.fit(tname, 'ndarray', child_attrs=())
            out = set()
            if not c.error:
                cls = self.P.cls(tname)
                for e in c.evs('setattr'):
                    t = c.I.type_of(e.value) if e.value.op in ('new', 'gamma') else None
                    if t is cls and c.I.type_of(e.obj) is cls:
                        out.add(e.name)
            self.cache[key] = tuple(sorted(out))
        return self.cache[key]

    # ---------------------------------------------------------------- contexts
    def data_params(self, I, kind, float64=True):
        g = I.g
        if kind == 'raw':                              # nothing is known about the containers
            return g.param('X', nonnull=True), g.param('y', nonnull=True)
        X = g.param('X', kind=kind, rank=2, nonnull=True)
        if float64:
            g.set_fact(X, dtype='float64')
        y = g.param('y', kind='ndarray', rank=1, dtype='float64', multi=True, nonnull=True)
        return X, y

    def fit(self, tname, kind, prior=True, optimizer=True, prune=False, child_attrs=None, verbose=None, refit=None):
        key = ('fit', tname, kind, prior, optimizer, prune, verbose, child_attrs is not None, refit)

        def build(c):
            I = self.new_interp(tname, child_attrs)
            c.I, c.g = I, I.g
            st = State()
            fixed = {}
            if not prior:
                fixed['prior'] = lambda g: g.none
            if not optimizer:
                fixed['optimizer'] = lambda g: g.none
            if prune is not None:
                fixed['prune'] = lambda g: g.const(prune)
            c.obj, c.params, st = self.make_tree(I, st, tname, fixed)
            c.ctor_events = len(I.events)
            c.after_ctor = st.copy()
            if refit is not None:                      # the tree was fitted before and is now a node in the given state
                self.place(c, I, st, tname, refit, c.params)
                del c.kids
                first = self.fit(tname, kind, prior=prior, optimizer=optimizer, prune=prune)
                stored = {e.name for e in first.I.events if e.kind == 'setattr' and e.obj is first.obj and e.seq >= first.ctor_events}
                for k, v in c.after_ctor.heap.items():
                    if k[0] is c.obj and k[1] not in stored:
                        st.heap[k] = v
                c.stale = {a: v for (o, a), v in st.heap.items() if o is c.obj and c.after_ctor.heap.get((o, a)) is not v}
                c.refit_ctor = c.after_ctor
            X, y = self.data_params(I, kind)
            c.X, c.y = X, y
            c.verbose = I.g.param('verbose', kind='bool') if verbose is None else I.g.const(verbose)
            c.names = I.g.param('feature_names') if kind == 'raw' else I.g.param('feature_names', nonnull=True)
            f, owner = self.P.cls(tname).find('fit')
            args = self.bind_roles(f, [X, y, c.verbose, c.names], ['X', 'y', 'verbose', 'feature_names'])
            c.func = f
            c.state, c.value = I.run(f, c.obj, args, st)
            if c.state is None:
                raise Unsupported('fit never returns')
        c = self.get(key, build)
        c.tname, c.kind = tname, kind
        return c

    def inner_fit(self, tname, kind, prune=False):
        """the recursive training function at an inner node: same arguments as at the root, except that those which the recursive call
        computes anew (row orders, or sub-matrices) are unknown; hypothesis: every row of the order matrix lists the rows of the node"""
        key = ('inner', tname, kind, prune)
        root = self.fit(tname, kind, prune=bool(prune))

        def build(c):
            c.roles = {}
            if root.error:
                raise Unsupported('root: ' + root.error)
            rc = [e for e in root.evs('rcall') if root.I.type_of(e.receiver) is self.P.cls(tname) and e.receiver.op in ('new', 'gamma')] if True else []
            if not rc:
                raise Unsupported('no recursive training call')
            f = rc[0].func
            ic = next((e for e in root.evs('icall') if e.func.node is f.node), None)
            if ic is None:
                raise Unsupported('recursive function is not called at the root')
            I = self.new_interp(tname)
            c.I, c.g = I, I.g
            g = I.g
            st = State()
            c.obj, c.params, st = self.make_tree(I, st, tname, {} if prune is None else {'prune': lambda g: g.const(prune)})
            c.ctor_events = len(I.events)
            X, y = self.data_params(I, 'csc' if kind == 'csr' else kind)
            c.X, c.y = X, y
            c.verbose = g.param('verbose', kind='bool')
            c.names = g.param('feature_names', nonnull=True)
            c.func = f
            args = {}
            c.SI = None
            rg = root.g
            for p in rc[0].vals:
                a, b = rc[0].vals[p], ic.vals.get(p)
                if b is root.X or (is_node(b) and rg.kind(b) in ('ndarray', 'csr', 'csc') and rg.rank(b) == 2):
                    args[p] = X
                    c.roles['X'] = p
                elif b is root.y or (is_node(b) and rg.kind(b) == 'ndarray' and rg.rank(b) == 1):
                    args[p] = y
                    c.roles['y'] = p
                elif b is root.verbose:
                    args[p] = c.verbose
                elif b is root.names:
                    args[p] = c.names
                elif rg.kind(a) == 'str':
                    args[p] = g.param('side', kind='str')
                elif rg.kind(a) == 'ndarray' and rg.rank(a) == 2:
                    c.SI = args[p] = g.param('order', kind='ndarray', rank=2, nonnull=True)
                    c.roles['SI'] = p
                else:
                    raise Unsupported('argument {} of the recursive call'.format(p))
            c.args = args
            c.state, c.value = I.run(f, c.obj, args, st)
            if c.state is None:
                raise Unsupported('training never returns')
        c = self.get(key, build)
        c.tname, c.kind = tname, 'csc' if kind == 'csr' else kind
        return c

    # ---------------------------------------------------------------- queries
    def states(self, tname):
        key = ('nodestates', tname)
        if key not in self.cache:
            from .nodestate import NodeStates
            self.cache[key] = NodeStates(self, tname)
        return self.cache[key]

    def place(self, c, I, st, tname, state, params):
        """puts the attributes of a fitted node in the given state into the heap of c.obj"""
        g = I.g
        ns = self.states(tname)
        cls = self.P.cls(tname)
        sch = ns.states[state]
        if not sch:
            raise Unsupported('no model of the state {}'.format(state))
        c.kids = {}
        c.attrs = {}
        allattrs = {}
        for s in ('leaf', 'inner', 'leaf child'):
            for a, alts in ns.states[s].items():
                allattrs.setdefault(a, {}).update(alts)
        for a, alts in sch.items():
            if (c.obj, a) in st.heap and a in ns.ctor:
                continue
            vs = list(alts.values())
            if any(v.kind == 'unset' for v in vs):
                continue                          # may be missing: reading it is an undefined read
            if len(vs) == 1 and vs[0].kind == 'const':
                st.heap[(c.obj, a)] = g.const(vs[0].value)
            elif all(v.kind == 'child' for v in vs):
                k = g.param('self.' + a, nonnull=True, kind='obj')
                I.types[k] = cls
                c.kids[a] = k
                st.heap[(c.obj, a)] = k
                for b, balts in allattrs.items():
                    bv = list(balts.values())
                    if all(v.kind == 'const' and v.value is not None and isinstance(v.value, bool) for v in bv) and len(bv) == 1:
                        st.heap[(k, b)] = g.const(bv[0].value)
                        continue
                    if (c.obj, b) in st.heap and b in ns.ctor and st.heap[(c.obj, b)].op in ('cls', 'const', 'fn'):
                        st.heap[(k, b)] = st.heap[(c.obj, b)]
                        continue
                    n = g.raw('attr0', k, b, 0)
                    self.facts_of(g, n, bv)
                    st.heap[(k, b)] = n
            else:
                n = g.param('self.' + a)
                self.facts_of(g, n, vs)
                st.heap[(c.obj, a)] = n
                c.attrs[a] = n

    def facts_of(self, g, n, alts):
        if any(v.kind == 'const' and v.value is None for v in alts):
            vals = [v for v in alts if v.kind == 'value']
            return
        ds = {v.value for v in alts if v.kind == 'value'}
        f = {'nonnull': True}
        if ds and all(v.kind == 'value' for v in alts):
            kinds, ranks, dts = {d[0] for d in ds}, {d[1] for d in ds}, {d[2] for d in ds}
            if len(kinds) == 1 and None not in kinds and 'obj' not in kinds:
                f['kind'] = next(iter(kinds))
            if len(ranks) == 1 and None not in ranks:
                f['rank'] = next(iter(ranks))
            if len(dts) == 1 and None not in dts:
                f['dtype'] = next(iter(dts))
        g.set_fact(n, **f)

    def query(self, tname, method, state, kind='ndarray'):
        """`method` on a fitted node in the given state ('leaf', 'inner', 'leaf child') or on an unfitted tree ('unfitted')"""
        key = ('query', tname, method, state, kind)

        def build(c):
            I = self.new_interp(tname)
            c.I, c.g = I, I.g
            g = I.g
            st = State()
            c.obj, c.params, st = self.make_tree(I, st, tname, {})
            c.ctor_events = len(I.events)
            if state != 'unfitted':
                self.place(c, I, st, tname, state, c.params)
            c.before = st.copy()
            f, owner = self.P.cls(tname).find(method)
            if not isinstance(f, Func):
                raise Unsupported('no method ' + method)
            c.func = f
            args = {}
            c.X = None
            ps = [a.arg for a in f.node.args.args if a.arg != 'self']
            nd = len(f.node.args.defaults)
            for i, p in enumerate(ps):
                if i == 0 and method in ('predict', 'predict_proba', 'prediction_paths', '_get_raw_leaf_data'):
                    X, _ = self.data_params(I, kind)
                    c.X = args[p] = X
                elif i >= len(ps) - nd:
                    pass
                else:
                    raise Unsupported('parameter {} of {}'.format(p, method))
            c.state, c.value = I.run(f, c.obj, args, st)
            c.rawvalue = c.value
            c.args = args
            if c.state is not None:
                c.value = I.deref(c.value, c.state)
        c = self.get(key, build)
        c.tname, c.kind, c.method, c.qstate = tname, kind, method, state
        return c

    def bind_roles(self, f, nodes, names):
        ps = [a.arg for a in f.node.args.args if a.arg != 'self']
        out = {}
        for i, (n, name) in enumerate(zip(nodes, names)):
            if name in ps:
                out[name] = n
            elif i < len(ps):
                out[ps[i]] = n
        return out

    def step(self, tname, func, state, template, tgraph, tag):
        """a recursive function on a node in the given state with arguments of which only the shape (constant / container kind) is known;
        template: parameter name -> node of the calling context's graph"""
        key = ('step', tname, func.qualname, state, tag)

        def build(c):
            I = self.new_interp(tname)
            c.I, c.g = I, I.g
            g = I.g
            st = State()
            c.obj, c.params, st = self.make_tree(I, st, tname, {})
            c.ctor_events = len(I.events)
            self.place(c, I, st, tname, state, c.params)
            c.before = st.copy()
            c.func = func
            c.args = {}
            for p, n in template.items():
                if not is_node(n):
                    continue
                if n.op == 'const':
                    c.args[p] = g.const(n.args[0])
                    continue
                k, r, d = tgraph.kind(n), tgraph.rank(n), tgraph.dtype(n) if hasattr(tgraph, 'dtype') else None
                a = g.param('arg.' + p, nonnull=True)
                f = {}
                if k not in (None, 'unknown'):
                    f['kind'] = k
                if r is not None and k != 'str':
                    f['rank'] = r
                if isinstance(d, str):
                    f['dtype'] = d
                if f:
                    g.set_fact(a, **f)
                c.args[p] = a
            c.state, c.value = I.run(func, c.obj, c.args, st)
            if c.state is not None:
                c.rawvalue = c.value
                c.value = I.deref(c.value, c.state)
        c = self.get(key, build)
        c.tname, c.qstate = tname, state
        return c
