"""Obligations about one training step (C03 - C09 and parts of C24): normal forms first, random interpretation where they differ."""
import time

import numpy as np
import scipy.sparse as sp

from . import vals as V
from .contexts import TREES, family, is_clf
from .fitmodel import FitModel
from .graph import is_node
from .report import Skip, brief
from .scen_fit import RULES, Scenario, near_ties, r_best, r_scanned, r_split
from .termeval import BadValue, CantEval, same, short

KINDS = ('ndarray', 'csr', 'csc')


class StepCheck:
    """all obligations of one training-step context"""
    def __init__(self, C, tname, kind, inner, prune=False, prior=True, tier='quick', context=None):
        self.C, self.tname, self.kind, self.inner = C, tname, kind, inner
        self.tier = tier
        self.label = '{} {} {}{}'.format(tname, kind, 'inner node' if inner else 'root', '' if prior else ', default prior')
        self.clf = is_clf(tname)
        self.perp = family(tname) == 'perp'
        if context is not None:
            c = context
        elif inner:
            c = C.inner_fit(tname, kind, prune=prune)
        else:
            c = C.fit(tname, kind, prune=prune, prior=prior)
        self.c = c
        self.error = c.error
        self.results = []            # (property, obligation, status, where, detail)
        if not self.error:
            self.m = FitModel(c, C.P.cls(tname))
            inn = C.inner_fit(tname, kind, prune=False)
            self.m.roles = getattr(inn, 'roles', {})
            self.g, self.I = c.g, c.I

    # ------------------------------------------------------------------ interpretations of this context
    def bases(self):
        c = self.c
        count = 72 if self.tier == 'quick' else 400
        g = self.g
        terms = list(self.m.heap.values()) + [v for e in self.m.rcalls for v in e.vals.values() if is_node(v)] + [x for e in self.m.rcalls for x, _ in e.pc]
        if self.m.loop is not None:
            terms += [b for m, f, b in self.m.loop_back().values()] + [self.m.loop['trip']]
            terms += [x for br in self.m.loop['breaks'] for x, _ in br[1]] + [x for br in self.m.loop['rets'] for x, _ in br[1]]
        consts = V.constants(g, [t for t in terms if is_node(t)])[:12] if self.deviates else []
        self.consts = consts

        def extra(v, r, X, y, i):
            if self.m.SI is not None:
                n = X.shape[0]
                rows = np.sort(r.permutation(n)[:max(1 if not self.clf else 2, int(r.integers(1, n + 1)))])
                SI = np.array([rows[np.argsort(X[rows, j], kind='stable')] for j in range(X.shape[1])])
                v[self.m.SI] = SI
            if 'side' in [getattr(x, 'args', [None])[0] for x in self.c.args.values() if x.op == 'param'] if hasattr(self.c, 'args') else False:
                for x in self.c.args.values():
                    if x.op == 'param' and x.args[0] == 'side':
                        v[x] = 'side'
            if not self.perp:
                self.hyper_leaves(v, r, X, y, i)
        c.extra_leaves = extra
        return V.fit_base(c, self.clf, seed=7, count=count, consts=consts, min_dim=1 if self.perp else 2, edge=self.perp)

    def hyper_leaves(self, v, r, X, y, i):
        """values of the search result"""
        n, d = X.shape
        N = r.normal(size=d)
        if i % 4 == 1:
            N = np.array([(3.0, 4.0, 0.0, 0.0)[j % 4] for j in range(d)])
        N = N / np.linalg.norm(N)
        a, b = r.integers(0, n, size=2)
        O = 0.5 * (X[a] + X[b])
        if i % 7 == 3:
            O = O + 100 * N           # everything on one side
        if i % 7 == 5:
            O = X[a].copy()           # a point exactly on the plane
            N = np.eye(d)[int(r.integers(0, d))] * (1 if i % 2 else -1)
        none = i % 9 == 8
        best = 5.0 + r.normal()
        for x in self.search_attrs():
            a = x.args[1]
            if 'normal' in a:
                v[x] = None if none else N
            elif 'origin' in a:
                v[x] = None if none else O
            elif 'log_p' in a and 'no_split' not in a:
                v[x] = best

    def search_attrs(self):
        if not hasattr(self, '_sa'):
            out = set()
            seen = set()
            for t in list(self.m.heap.values()) + [v for e in self.m.rcalls for v in e.vals.values() if is_node(v)] + [x for e in self.m.rcalls for x, _ in e.pc]:
                for n in self.g.walk(t, seen):
                    if n.op == 'attr0' and n.args[0].op == 'new' and self.I.type_of(n.args[0]) is not self.C.P.cls(self.tname):
                        out.add(n)
            self._sa = sorted(out, key=lambda n: n.id)
        return self._sa

    def scenarios(self):
        """interpretations with their expected and actual outcome (only computed when some obligation is not proved)"""
        if self.scen is None:
            self.scen, self.why = [], {}
            t0 = time.time()
            bases = self.bases()
            if self.perp and self.deviates:
                self.near_keep = list(near_ties(self, bases[:40], self.consts))
                self.near = {id(v) for v in self.near_keep}
                bases = bases[:30] + self.near_keep + bases[30:]
            for b in bases:
                try:
                    self.scen.append(Scenario(self, b))
                except Skip:
                    continue
                except (CantEval, BadValue) as ex:
                    self.why[str(ex)] = self.why.get(str(ex), 0) + 1
                    if isinstance(ex, CantEval) and not self.scen and sum(self.why.values()) > 6:
                        break
                if time.time() - t0 > max(5.0, min(self.budget, StepCheck.left)):
                    break
            StepCheck.left -= time.time() - t0
        return self.scen

    scen = None
    near = ()               # valuations with scores that almost tie
    budget = 60             # seconds for the interpretations of one context
    left = 240.0            # seconds for the interpretations of all contexts

    def vectors(self):
        """{feature: (number of candidates, scores or None)} of the search loop's argmax under an interpretation: [(scenario, {..})]"""
        m, g = self.m, self.g
        if m.loop is None or m.loop.get('back') is None:
            return None
        pos = g.raw('pos', m.loop['id'])
        cand = []
        seen = set()
        for n, (mu, f, b) in m.loop_back().items():
            for x in g.walk(b, seen):
                if x.op in ('argmax', 'max') and x.args[0].op != 'list':
                    cand.append(x.args[0])
        cand = [x for x in dict.fromkeys(cand)]
        if len(cand) != 1:
            return None
        return cand[0], pos

    def check_search(self, R):
        """C04/C05/C06 of axis-parallel search: candidates and scores per feature"""
        out = {'C04': None, 'C06': None}
        vc = self.vectors()
        if vc is None:
            return out
        V, pos = vc
        trip = self.m.loop['trip']
        n4 = n6 = 0
        for s in self.scenarios():
            for j in range(s.d):
                # the position at which the feature is scanned: positions are the features in the repository's loop
                ev = s.o.ev.sub({pos: j})
                exp = s.perdim[j]
                try:
                    v = np.asarray(ev(V), dtype=float)
                except (CantEval, BadValue):
                    continue
                if v.ndim != 1:
                    return out
                if exp is None:
                    if len(v) != 0:
                        return dict(C04='{} candidates on feature {} that has none for {}'.format(len(v), j, brief(s.o.leaves)), C06=out['C06'])
                    continue
                cs, sc = exp
                n4 += 1
                if len(v) != len(cs):
                    return dict(C04='{} candidates instead of {} on feature {} for {}'.format(len(v), len(cs), j, brief(s.o.leaves)), C06=out['C06'])
                n6 += 1
                if not same(v, sc, 1e-8):
                    return dict(C06='scores {} instead of {} on feature {} for {}'.format(short(v), short(sc), j, brief(s.o.leaves)), C04=True)
        if n4:
            out['C04'] = True
        if n6:
            out['C06'] = True
        return out

    def check(self, prop, R):
        """adds the obligations of `prop` in this context to the report"""
        if self.error:
            R.add('{}: training step'.format(self.label), 'unknown', None, 'not analysed: ' + self.error)
            return
        if not hasattr(self, 'ok'):
            self.prove()
        loc = (self.c.func.module.rel, self.c.func.node.lineno)
        R.saw(self.c)
        rules = list(RULES.get(prop, ()))
        need = []
        for name, rule, obl in rules:
            obl = [o for o in obl if o in self.names()]
            if obl and all(self.ok.get(o) for o in obl):
                for o in obl:
                    key = (self.label, o)
                    if key not in R.seen:
                        R.seen.add(key)
                        R.add('{}: {}'.format(self.label, o), 'proved', loc, 'identical to the normal form of the specification')
            else:
                need.append((name, rule, obl))
        attrib = None
        if prop in ('C04', 'C06') and self.perp:
            if self.ok.get('search'):
                R.add('{}: search'.format(self.label), 'proved', loc, 'transition of the search loop identical to the normal form of the specification')
            else:
                attrib = self.attrib(R)
                v = attrib[prop]
                R.add('{}: search'.format(self.label), {None: 'unknown', True: 'equal'}.get(v, 'refuted'), loc, v if isinstance(v, str) else 'candidates and scores agree' if v else 'no single score vector in the search loop')
        for name, rule, obl in need:
            self.apply(prop, name, rule, R, loc)
        if prop in ('C04', 'C06') and self.perp and attrib is not None and attrib[prop] is None:
            # candidates and scores cannot be told apart: the choice itself must be right
            for name, rule in (('split iff the best candidate beats not splitting', r_split), ('split at a best candidate', r_best)):
                self.apply(prop, name, rule, R, loc)
        if prop == 'C04' and self.perp and attrib is not None and attrib['C04'] is True and attrib['C06'] is True:
            self.apply(prop, 'all features are scanned', r_scanned, R, loc)

    def attrib(self, R):
        if not hasattr(self, '_attrib'):
            self._attrib = self.check_search(R)
        return self._attrib

    def apply(self, prop, name, rule, R, loc):
        label = '{}: {}'.format(self.label, name)
        n = 0
        cant = None
        for s in self.scenarios():
            try:
                r = rule(s)
            except (CantEval, BadValue, Skip) as ex:
                cant = str(ex)
                continue
            except Exception as ex:
                cant = '{}: {}'.format(type(ex).__name__, ex)
                continue
            if r is None:
                continue
            n += 1
            if r is not True:
                R.add(label, 'refuted', loc, '{} for {}'.format(r, brief(s.o.leaves)))
                StepCheck.left = min(StepCheck.left, 60.0)          # a violation is found: less time for the other contexts
                return
        if n:
            R.add(label, 'equal', loc, 'normal forms differ; {} interpretations agree'.format(n))
        else:
            R.add(label, 'unknown', loc, cant or '; '.join(self.why) or 'no interpretation in the domain')

    # ------------------------------------------------------------------ normal forms
    deviates = False

    def under(self, S, t):
        if is_node(t) and t.op == 'gamma' and t.args[0] is S:
            return t.args[1]
        return None

    def prove(self):
        """{obligation: True/False (normal form identical to the specification)}"""
        ok = {}
        try:
            (self.prove_perp if self.perp else self.prove_hyper)(ok)
        except Exception as ex:          # a shape the recogniser does not know: nothing is proved
            self.proof_error = '{}: {}'.format(type(ex).__name__, ex)
        self.ok = ok
        self.deviates = not all(ok.get(k) for k in self.names())
        return ok

    def names(self):
        base = ['search', 'split iff improved', 'reported scores', 'no-split score', 'rows of child 1', 'rows of child 2', 'division', 'prior of child 1', 'prior of child 2',
                'leaf child 1', 'leaf child 2', 'training of child 1', 'training of child 2', 'settings of child 1', 'settings of child 2', 'prior in force', 'posterior', 'counts', 'erased if not split']
        if not self.perp:
            base.remove('search')
        else:
            base.append('feature name')
        return base

    def common(self, ok, S, y_node, rows, n_rows):
        """obligations shared by both families; rows: {child: (targets node, number of rows node)}"""
        m, g, c, sp_ = self.m, self.g, self.c, self.m.spec
        reg = not self.clf
        P = c.params
        prior = m.root('prior_')
        pn = P['prior']
        if pn.op == 'const' and pn.args[0] is None:
            pn = sp_.nf('reg_default_prior' if reg else 'clf_default_prior', y_node)
        ok['prior in force'] = prior is pn
        ok['posterior'] = m.root('posterior_') is self.unwrap(sp_.nf('posterior', pn, y_node, 1, reg))
        ok['counts'] = m.root('n_data_') is n_rows and m.root('n_dim_') is g.dim(c.X, 1)
        nosplit = sp_.nf('no_split', P['partition_prior'], P['level'], pn, y_node, reg)
        ok['no-split score'] = nosplit is not None and self.under(S, m.root('log_p_data_no_split_')) is nosplit
        self.nosplit_nf = nosplit
        kids = {}
        for i in (1, 2):
            k = kids[i] = self.under(S, m.root('child{}_'.format(i)))
            y_k, n_k = rows[i]
            cp = sp_.nf('child_prior', pn, y_k, P['delta'], reg)
            if k is None or k.op != 'new':
                continue
            rc = [e for e in m.rcalls if e.receiver is k]
            cond = None
            if len(rc) == 1:
                pcs = [x for x in rc[0].pc if x[0].op != 'loop']
                if (S, True) in pcs:
                    rest = pcs[pcs.index((S, True)) + 1:]
                    want = sp_.nf('train_further', n_k, y_k)
                    cond = rest[0][0] if len(rest) == 1 and rest[0][1] else None
                    ok['training of child {}'.format(i)] = cond is not None and cond is want
            def leaf(a):
                t = self.under(S, m.attr(k, a))
                if t is not None and t.op == 'gamma' and t.args[0] is cond and t.args[1].op == 'attr0' and t.args[1].args[0] is k:
                    return self.unwrap(t.args[2])
                return None
            cpu = self.unwrap(cp)
            ok['prior of child {}'.format(i)] = leaf('prior') is cpu and leaf('prior_') is cpu
            ok['leaf child {}'.format(i)] = leaf('posterior_') is not None and leaf('posterior_') is self.unwrap(sp_.nf('posterior', cp, y_k, 1, reg)) \
                and leaf('n_data_') is n_k and leaf('n_dim_') is g.dim(c.X, 1)
            st = self.settings()
            ok['settings of child {}'.format(i)] = all(leaf(a) is n for a, n in st.items()) and self.I.type_of(k) is self.C.P.cls(self.tname)
        ok['erased if not split'] = True
        for a in ('child1_', 'child2_', 'log_p_data_no_split_', 'best_log_p_data_split_') + (('split_value_', 'split_feature_name_') if self.perp else ('best_hyperplane_normal_', 'best_hyperplane_origin_')):
            t = m.root(a)
            if not (is_node(t) and t.op == 'gamma' and t.args[0] is S and t.args[2] is g.none):
                ok['erased if not split'] = False
        return kids

    def settings(self):
        """constructor parameter -> expected value at a child"""
        out = {}
        for n, p in self.c.params.items():
            if n == 'level':
                out[n] = self.g.mk('add', p, self.g.const(1))
            elif n != 'prior':
                out[n] = p
        return out

    def unwrap(self, n, memo=None):
        """the same value without tuple()/asarray() wrappers where only the elements matter"""
        memo = {} if memo is None else memo
        while is_node(n) and n.op in ('astuple', 'asarray'):
            n = n.args[0]
        return self._rebuild(n, memo, True)

    def _rebuild(self, n, memo, top):
        g = self.g
        if not is_node(n) or n.op in ('const', 'param', 'new', 'loop', 'fin', 'mu', 'pos'):
            return n
        if (n, top) in memo:
            return memo[(n, top)]
        memo[(n, top)] = n
        elem = set()                         # argument positions where only the elements matter
        if n.op == 'gamma' and top:
            elem = {1, 2}
        elif n.op in ('add', 'sub', 'mul', 'div'):
            elem = {k for k in (0, 1) if g.kind(n.args[1 - k]) == 'ndarray' or n.args[1 - k].op in ('sum', 'bincount', 'cumsum') or self._wrapped(n.args[k]) is False}
        elif n.op in ('index', 'dim', 'betalnv', 'sum', 'log', 'gammaln', 'pow', 'neg'):
            elem = {0}
        elif n.op == 'tuple':
            elem = set(range(len(n.args))) if top else set()
        args = tuple(self.unwrap(x, memo) if k in elem else self._rebuild(x, memo, False) for k, x in enumerate(n.args))
        r = n
        if any(x is not y for x, y in zip(args, n.args)):
            r = g.mk(n.op, *args)
        memo[(n, top)] = r
        return r

    def _wrapped(self, n):
        """may the value be a tuple"""
        if n.op == 'gamma':
            return self._wrapped(n.args[1]) or self._wrapped(n.args[2])
        return n.op in ('astuple', 'tuple')

    def prove_perp(self, ok):
        m, g, c, s = self.m, self.g, self.c, self.m.spec
        P = c.params
        reg = not self.clf
        Xd = g.mk('toarray', c.X) if self.kind != 'ndarray' else c.X
        SI = m.SI if m.SI is not None else s.nf('sort_all', Xd)
        y0 = g.index(c.y, g.index(SI, g.const(0)))
        n_rows = g.dim(c.X, 0) if m.SI is None else g.dim(m.SI, 1)
        S = m.root('child1_').args[0]
        back = m.loop_back()
        fd, fb = self.under(S, m.root('split_dimension_')), self.under(S, m.root('best_log_p_data_split_'))
        byfin = {f: n for n, (mu, f, b) in back.items() if f is not None}
        rest = [f for f in byfin if f not in (fd, fb)]
        fi = rest[0] if len(rest) == 1 else None
        if fi is None or fd not in byfin or fb not in byfin:
            return
        prior = m.root('prior_')
        info = m.loop
        pos = g.raw('pos', info['id'])
        mu = {r: back[byfin[f]][0] for r, f in (('i', fi), ('d', fd), ('b', fb))}
        new = {r: back[byfin[f]][2] for r, f in (('i', fi), ('d', fd), ('b', fb))}
        tr = s.nf('perp_transition', Xd, c.y, g.index(SI, pos), pos, mu['b'], mu['i'], mu['d'], P['partition_prior'], P['level'], prior, P['split_precision'], reg)
        self.tr = tr
        ok['search'] = tr is not None and tr.op == 'tuple' and tr.args[0] is new['b'] and tr.args[1] is new['i'] and tr.args[2] is new['d'] \
            and info['trip'] is g.dim(c.X, 1) and not info['breaks'] and not info['rets'] and g.num(mu['i'].args[2]) == -1
        ok['split iff improved'] = S is g.mk('lt', g.const(0), fi) and ok['search']
        order = g.index(SI, fd)
        I = {1: g.index(order, g.slice(None, fi)), 2: g.index(order, g.slice(fi, None))}
        sub = {i: s.nf('sub_order', SI, I[i], g.dim(c.X, 1)) for i in (1, 2)}
        rows = {i: (g.index(c.y, I[i]), g.dim(sub[i], 1)) for i in (1, 2)}
        kids = self.common(ok, S, y0, rows, n_rows)
        ok['reported scores'] = ok.get('no-split score') and mu['b'].args[2] is self.nosplit_nf and ok['search']
        for i in (1, 2):
            rc = [e for e in m.rcalls if e.receiver is kids[i]]
            r = m.roles
            if len(rc) == 1 and r.get('SI'):
                v = rc[0].vals
                xx = v[r['X']]
                ok['rows of child {}'.format(i)] = v[r['SI']] is sub[i] and v[r['y']] is c.y and (xx is c.X or (xx.op in ('csc', 'csr') and xx.args[0] is c.X))
        v1 = g.index(Xd, g.index(I[1], g.const(-1)), fd)
        v2 = g.index(Xd, g.index(I[2], g.const(0)), fd)
        want = s.nf('split_value', v1, v2)
        ok['division'] = want is not None and self.under(S, m.root('split_value_')) is want
        ok['feature name'] = self.under(S, m.root('split_feature_name_')) is g.index(c.names, fd)

    def prove_hyper(self, ok):
        m, g, c, s = self.m, self.g, self.c, self.m.spec
        reg = not self.clf
        Xd = g.mk('toarray', c.X) if self.kind != 'ndarray' else c.X
        # the split condition: nested choices, innermost alternative is the split
        t = m.root('best_hyperplane_normal_')
        conds = []
        while t.op == 'gamma':
            if t.args[2] is g.none:
                conds.append((t.args[0], True))
                t = t.args[1]
            elif t.args[1] is g.none:
                conds.append((t.args[0], False))
                t = t.args[2]
            else:
                return
        N = t
        O = m.root('best_hyperplane_origin_')
        for cc, pol in conds:
            O = O.args[1 if pol else 2]
        if N.op != 'attr0' or O.op != 'attr0' or N.args[0] is not O.args[0] or N.args[0].op != 'new':
            return
        S = None
        mask = s.nf('behind', g.mk('csc', c.X) if self.kind == 'csr' else c.X, N, O)
        I = {1: g.mk('nonzero', mask), 2: g.mk('nonzero', g.mk('not', mask))}
        self.under = lambda S_, t_: self._under_all(conds, t_)
        want = [(g.mk('is', N, g.none), False), (g.mk('nonempty', g.dim(I[1], 0)), True), (g.mk('nonempty', g.dim(I[2], 0)), True)]
        flat = []
        for cc, pol in conds:
            if cc.op == 'and' and pol:
                flat += [(x, True) for x in cc.args]
            elif cc.op == 'not':
                flat.append((cc.args[0], not pol))
            else:
                flat.append((cc, pol))
        ok['split iff improved'] = set(flat) == set(want)
        ok['division'] = ok['split iff improved']
        rows = {i: (g.index(c.y, I[i]), g.dim(I[i], 0)) for i in (1, 2)}
        # pc of recursive calls starts with the split conditions
        self.conds = conds
        kids = self.common_hyper(ok, conds, rows)
        for i in (1, 2):
            rc = [e for e in m.rcalls if e.receiver is kids.get(i)]
            r = m.roles
            if len(rc) == 1:
                v = rc[0].vals
                xs = {g.index(c.X, I[i]), g.index(g.mk('csc', c.X), I[i]), g.index(g.mk('csr', c.X), I[i])}
                ok['rows of child {}'.format(i)] = v[r['X']] in xs and v[r['y']] is g.index(c.y, I[i])
        ns = self.under(None, m.root('log_p_data_no_split_'))
        b = self.under(None, m.root('best_log_p_data_split_'))
        ok['reported scores'] = bool(ok.get('no-split score')) and b is not None and b.op == 'attr0' and b.args[0] is N.args[0] and 'best_log_p' in b.args[1]

    def _under_all(self, conds, t):
        for cc, pol in conds:
            if not (is_node(t) and t.op == 'gamma' and t.args[0] is cc):
                return None
            t = t.args[1 if pol else 2]
        return t

    def common_hyper(self, ok, conds, rows):
        m, g, c, s = self.m, self.g, self.c, self.m.spec
        reg = not self.clf
        P = c.params
        pn = P['prior']
        if pn.op == 'const' and pn.args[0] is None:
            pn = s.nf('reg_default_prior' if reg else 'clf_default_prior', c.y)
        ok['prior in force'] = m.root('prior_') is pn
        ok['posterior'] = self.unwrap(m.root('posterior_')) is self.unwrap(s.nf('posterior', pn, c.y, 1, reg))
        ok['counts'] = m.root('n_data_') is g.dim(c.X, 0) and m.root('n_dim_') is g.dim(c.X, 1)
        nosplit = s.nf('no_split', P['partition_prior'], P['level'], pn, c.y, reg)
        ok['no-split score'] = nosplit is not None and self.under(None, m.root('log_p_data_no_split_')) is nosplit
        kids = {}
        pol = [(a, b) for a, b in conds]
        for i in (1, 2):
            k = kids[i] = self.under(None, m.root('child{}_'.format(i)))
            y_k, n_k = rows[i]
            cp = s.nf('child_prior', pn, y_k, P['delta'], reg)
            if k is None or k.op != 'new':
                continue
            rc = [e for e in m.rcalls if e.receiver is k]
            cond = None
            if len(rc) == 1:
                pcs = [x for x in rc[0].pc if x[0].op != 'loop']
                cond = pcs[-1][0] if pcs and pcs[-1][1] else None
                ok['training of child {}'.format(i)] = cond is not None and cond is s.nf('train_further', n_k, y_k) and pcs[-1 - len(conds):-1] == list(conds)

            def leaf(a):
                t = self.under(None, m.attr(k, a))
                if t is not None and t.op == 'gamma' and t.args[0] is cond and t.args[1].op == 'attr0' and t.args[1].args[0] is k:
                    return self.unwrap(t.args[2])
                return None
            cpu = self.unwrap(cp)
            ok['prior of child {}'.format(i)] = leaf('prior') is cpu and leaf('prior_') is cpu
            lp = leaf('posterior_')
            ok['leaf child {}'.format(i)] = lp is not None and lp is self.unwrap(s.nf('posterior', cp, y_k, 1, reg)) and leaf('n_data_') is n_k and leaf('n_dim_') is g.dim(c.X, 1)
            st = self.settings()
            ok['settings of child {}'.format(i)] = all(leaf(a) is n for a, n in st.items()) and self.I.type_of(k) is self.C.P.cls(self.tname)
        ok['erased if not split'] = True
        for a in ('child1_', 'child2_', 'log_p_data_no_split_', 'best_log_p_data_split_', 'best_hyperplane_normal_', 'best_hyperplane_origin_'):
            t = m.root(a)
            for cc, p in conds:
                if not (t.op == 'gamma' and t.args[0] is cc and t.args[2 if p else 1] is g.none):
                    ok['erased if not split'] = False
                    break
                t = t.args[1 if p else 2]
        return kids
