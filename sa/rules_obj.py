"""Evaluation of one hyperplane direction: the objective of the hyperplane search, analysed in the state in which training hands it to the optimiser
(C04 candidates, C05 choice, C06 scores, C23 returned value and direction; C11 via rules_state)."""
import time

import numpy as np
import scipy.sparse as sp

from . import termeval, vals as V
from .contexts import TREES, Ctx, family, is_clf
from .graph import is_node
from .interp import Unsupported
from .loader import Func
from .registry import contexts, guarded, rule
from .report import Skip, brief
from .spec import Spec, py
from .termeval import BadValue, CantEval, Eval, same, short

HYPER = [t for t in TREES if family(t) == 'hyper']
TOL = 1e-8


def search_event(c):
    """the call that hands an object of the package to the optimiser"""
    for e in c.evs('dyncall'):
        if e.seq < c.ctor_events:
            continue
        for a in list(e.args) + list(e.kwargs.values()):
            if is_node(a) and a.op == 'new' and c.I.type_of(a) is not None:
                return e, a
    return None, None


class Objective:
    """summary of one evaluation: value returned, and the attributes of the objective afterwards"""
    def __init__(self, C, tname, kind, inner, later):
        self.C, self.tname, self.kind, self.later = C, tname, kind, later
        self.label = '{} {} {}{}: evaluation of a direction'.format(tname, kind, 'inner node' if inner else 'root', ', later in the search' if later else '')
        self.clf = is_clf(tname)
        c = self.c = C.inner_fit(tname, kind) if inner else C.fit(tname, kind)
        self.error = c.error
        if self.error:
            return
        I, g = self.I, self.g = c.I, c.g
        e, o = search_event(c)
        if e is None:
            self.error = 'no search found in training'
            return
        self.o, self.event = o, e
        st = e.state.copy()
        f, owner = I.type_of(o).find('compute')
        if not isinstance(f, Func):
            self.error = 'the objective has no method compute'
            return
        self.func = f
        ps = [a.arg for a in f.node.args.args][1:]
        self.u = g.param('u', kind='ndarray', rank=1, dtype='float64', nonnull=True)
        self.fresh = {}
        try:
            if later:
                s1, _ = I.run(f, o, {ps[0]: self.u}, st.copy())
                if s1 is None:
                    raise Unsupported('never returns')
                for (ob, a), v in list(s1.heap.items()):
                    if ob is not o or v is st.heap.get((ob, a)):
                        continue
                    v = I.deref(v, s1)
                    k, r = g.kind(v), g.rank(v)
                    if k in ('csr', 'csc') or (k == 'ndarray' and r == 2):
                        st.heap[(o, a)] = s1.heap[(ob, a)]
                        continue
                    n = g.param('search.' + a)
                    self.fresh[a] = n
                    leaf = next((x for x in self.alts(v) if x is not g.none and x.op != 'undef' and g.rank(x) is not None), None)
                    if leaf is not None and g.rank(leaf) == 1:
                        g.set_fact(n, kind='ndarray', rank=1)
                    elif leaf is not None and g.rank(leaf) == 0:
                        g.set_fact(n, kind='float', rank=0, nonnull=True)
                    st.heap[(o, a)] = n
            self.before = st.copy()
            n0 = len(I.events)
            s, v = I.run(f, o, {ps[0]: self.u}, st)
            self.events = I.events[n0:]
        except Unsupported as ex:
            self.error = str(ex)
            return
        if s is None:
            self.error = 'never returns'
            return
        self.state, self.value = s, I.deref(v, s)
        self.attrs = {a: I.deref(x, s) for (ob, a), x in s.heap.items() if ob is o}
        self.start = {a: I.deref(x, self.before) for (ob, a), x in self.before.heap.items() if ob is o}
        self.roles()
        self.prove()

    def alts(self, n):
        while is_node(n) and n.op == 'gamma':
            for x in self.alts(n.args[1]):
                yield x
            n = n.args[2]
        yield n

    def roles(self):
        """attributes of the objective that training copies into the node"""
        g = self.g
        self.role = {}
        for a, r in (('best_hyperplane_normal_', 'normal'), ('best_hyperplane_origin_', 'origin'), ('best_log_p_data_split_', 'best')):
            v = self.c.state.heap.get((self.c.obj, a))
            if v is None:
                continue
            for x in self.alts(self.I.deref(v, self.c.state)):
                if x.op == 'attr0' and x.args[0] is self.o:
                    self.role[r] = x.args[1]
                elif x.op == 'attr0':
                    pass
        rest = [a for a in self.attrs if a not in self.role.values() and 'distance' in a]
        if len(rest) == 1:
            self.role['distance'] = rest[0]

    # ------------------------------------------------------------------ normal form
    def prove(self):
        c, g = self.c, self.g
        P = c.params
        s = Spec(c)
        self.spec = s
        self.ok = {}
        pn = P['prior']
        if pn.op == 'const' and pn.args[0] is None:
            pn = s.nf('reg_default_prior' if not self.clf else 'clf_default_prior', c.y)
        self.pn = pn
        self.nosplit = s.nf('no_split', P['partition_prior'], P['level'], pn, c.y, not self.clf)
        flag = None
        for e in c.evs('getattr'):
            if e.name == 'search_space_is_unit_hypercube':
                flag = e.value
                break
        self.flag = flag
        if not all(r in self.role for r in ('normal', 'origin', 'best', 'distance')) or flag is None or self.nosplit is None:
            return
        d = s.nf('direction', self.u, flag)
        self.dir_nf = d
        X = c.X
        if self.kind == 'csr':
            X = g.mk('csc', X)
        before = [self.start[self.role[r]] for r in ('best', 'distance', 'normal', 'origin')]
        t = s.nf('objective', X, c.y, d, P['partition_prior'], P['level'], pn, self.nosplit, P['split_precision'], not self.clf, *before) if d is not None else None
        if t is None or t.op != 'tuple':
            return
        self.nf = t
        ok = t.args[0] is self.value and all(t.args[1 + i] is self.attrs[self.role[r]] for i, r in enumerate(('best', 'distance', 'normal', 'origin')))
        self.ok['all'] = ok
        if not self.later:
            self.ok['start'] = before[0] is self.nosplit and before[2] is g.none and before[3] is g.none

    # ------------------------------------------------------------------ interpretations
    def scored(self):
        """term of the candidate scores"""
        g = self.g
        seen = set()
        cand = []
        for t in [self.value] + [self.attrs[a] for a in self.role.values()]:
            for x in g.walk(t, seen):
                if x.op in ('argmax', 'max') and x.args[0].op not in ('list', 'tuple'):
                    cand.append(x.args[0])
        cand = list(dict.fromkeys(cand))
        return cand[0] if len(cand) == 1 else None

    def scenarios(self, tier):
        if hasattr(self, '_sc'):
            return self._sc
        c, g = self.c, self.g
        out = []
        self.why = {}
        has_sphere = any(x.op == 'sphere' for t in [self.value] + list(self.attrs.values()) for x in g.walk(t, set()))

        def extra(v, r, X, y, i):
            n, d = X.shape
            hyper = bool(i % 3) and has_sphere
            if self.flag is not None and self.flag.op != 'const':
                v[self.flag] = hyper
            u = r.uniform(0, 1, d - 1) if hyper else r.normal(size=d)
            if i % 6 == 0 and not hyper:
                u = np.eye(d)[int(r.integers(0, d))] * (2 if i % 12 else -0.5)
            if i % 15 == 0 and not hyper:
                u = np.zeros(d)
            if i % 16 == 1 and not hyper and d > 1:
                u[0] = np.nan
            v[self.u] = u
            if getattr(self.c, 'args', None):
                for x in self.c.args.values():
                    if x.op == 'param' and x.args[0] == 'side':
                        v[x] = 'side'
        c.extra_leaves = extra
        count = 200 if tier == 'quick' else 800
        self.consts = V.constants(g, [t for t in [self.value] + list(self.attrs.values()) if is_node(t)])[:12]
        base = V.fit_base(c, self.clf, seed=13, count=count, min_dim=2, consts=self.consts)
        for k in self.consts:
            for q in (0.5, 0.9, 1.1, 2.0):
                for b in base[1:5]:
                    b = dict(b)
                    b[self.u] = np.where(np.isnan(b[self.u]), 1.0, b[self.u])
                    nrm = np.linalg.norm(b[self.u])
                    if not (self.flag is not None and b.get(self.flag)) and nrm:
                        b[self.u] = b[self.u] / nrm * k * q
                        base.append(b)
        c.extra_leaves = None
        t0 = time.time()
        for i, b in enumerate(base):
            try:
                out.append(Sc(self, b, i))
            except Skip:
                continue
            except (CantEval, BadValue) as ex:
                self.why[str(ex)] = self.why.get(str(ex), 0) + 1
                if isinstance(ex, CantEval) and not out and sum(self.why.values()) > 6:
                    break
            if time.time() - t0 > 40:
                break
        self._sc = out
        return out


class Sc:
    def __init__(self, m, leaves, i):
        self.m, self.leaves = m, leaves
        self.tie, self.others, self.farther = False, [], None
        c = m.c
        ev = Eval(leaves, I=m.I)
        X = leaves[c.X]
        self.X = X = X.toarray() if sp.issparse(X) else np.asarray(X)
        self.y = y = leaves[c.y]
        p = lambda n: ev(c.params[n])
        reg = not m.clf
        prior = p('prior')
        self.level, self.p, self.prec = p('level'), p('partition_prior'), p('split_precision')
        self.nosplit = py.no_split(self.p, self.level, prior, y, reg)
        u = np.array(leaves[m.u])
        hyper = leaves.get(m.flag, m.flag.args[0] if m.flag is not None and m.flag.op == 'const' else False)
        self.hyper = hyper
        v = np.nan_to_num(termeval.sphere(u) if hyper else u)
        self.degenerate = bool(np.all(v == 0))
        if self.degenerate:
            v = v.copy()
            v[0] = 1
        v = self.N = v / np.linalg.norm(v)
        proj = X @ v
        self.order = np.argsort(proj, kind='stable')
        if m.later and i % 4 == 3 and len(y) > 5:
            # targets that follow the direction: it is better than not splitting
            z = np.array(y)
            z[self.order] = np.sort(y)
            self.y = y = leaves[c.y] = z
        ps = proj[self.order]
        gap = np.diff(ps)
        unit = min(1.0, float(np.max(np.abs(X))) or 1.0) + np.max(np.abs(ps))
        if np.any((gap != 0) & (np.abs(gap - self.prec) < 1e-9 * (unit + np.abs(gap)))) or np.any((gap != 0) & (gap < 1e-11 * unit)):
            if np.count_nonzero(v) > 1:
                raise Skip()
        self.cuts = py.cuts(ps, self.prec)
        self.scores = py.scores(self.p, self.level, prior, y[self.order], X.shape[1], self.cuts, reg) if len(self.cuts) else None
        if not np.isfinite(self.nosplit) or self.scores is not None and not np.all(np.isfinite(self.scores)):
            raise Skip()
        top = self.nosplit if self.scores is None else float(np.max(self.scores))
        self.top = top
        # state of the search so far
        if m.later:
            b = [max(self.nosplit, top - 1.0), max(self.nosplit, top) + 1.0, max(self.nosplit, top), self.nosplit, max(self.nosplit, top - 1e-5), max(self.nosplit, top) + 1e-5][(i + i // 6) % 6]
            if i % 4 == 3:
                # exactly as good as the code's own score of this direction
                try:
                    w = dict(leaves)
                    for at, n in m.fresh.items():
                        w[n] = -np.inf if at == m.role.get('best') else np.ones(X.shape[1]) if at in (m.role.get('normal'), m.role.get('origin')) else 0.0 if 'eval' not in at else 7
                    ret = -float(Eval(w, I=m.I)(m.value))
                    if close(ret, top) and ret > self.nosplit and self.scores is not None:
                        b, self.tie = ret, True
                except (CantEval, BadValue, TypeError, ValueError):
                    pass
            r = np.random.default_rng(i)
            self.oldN, self.oldO = r.normal(size=X.shape[1]), r.normal(size=X.shape[1])
            if not (b > self.nosplit):
                self.oldN = self.oldO = None
            for a, n in m.fresh.items():
                if a == m.role.get('best'):
                    leaves[n] = b
                elif a == m.role.get('normal'):
                    leaves[n] = self.oldN
                elif a == m.role.get('origin'):
                    leaves[n] = self.oldO
                else:
                    leaves[n] = [0.0, 5.0, 1e6][(i // 2) % 3] if 'eval' not in a else self.count(i)
                    if 'eval' not in a:
                        if self.tie and (leaves[n] == 5.0 or i % 16 == 7):
                            self.earlier(r, leaves, a, n, b)
                        self.others.append(leaves[n])
        else:
            b, self.oldN, self.oldO = self.nosplit, None, None
        self.before = b
        self.ev = Eval(leaves, I=m.I)
        self.ret = self.ev(m.value)
        self.best = self.get('best')
        self.normal, self.origin = self.get('normal'), self.get('origin')

    def earlier(self, r, leaves, a, n, b):
        """what the evaluation of a similar, equally scoring direction leaves behind"""
        m = self.m
        for k in range(12):
            w = dict(leaves)
            for at, x in m.fresh.items():
                w[x] = -np.inf if at == m.role.get('best') else np.ones(self.X.shape[1]) if at in (m.role.get('normal'), m.role.get('origin')) else 0.0 if 'eval' not in at else 7
            u = np.array(leaves[m.u], dtype=float)
            u = u + r.normal(size=u.shape) * [0.3, 0.1, 0.03][k % 3]
            if self.hyper:
                u = np.clip(u, 0, 1)
            w[m.u] = u
            try:
                e = Eval(w, I=m.I)
                if -float(e(m.value)) != b:
                    continue
                N, O = np.array(e(m.attrs[m.role['normal']]), dtype=float), np.array(e(m.attrs[m.role['origin']]), dtype=float)
                d = float(e(m.attrs[a]))
                w = dict(w)
                w[m.u] = np.array(leaves[m.u])
                e = Eval(w, I=m.I)
                N2, O2 = np.array(e(m.attrs[m.role['normal']]), dtype=float), np.array(e(m.attrs[m.role['origin']]), dtype=float)
            except (CantEval, BadValue, TypeError, ValueError, KeyError):
                return
            far = [float(np.sum(np.abs(self.X @ x - np.dot(x, y)))) for x, y in ((N, O), (N2, O2))]
            if not abs(far[0] - far[1]) > 1e-6 * (1 + far[0]):
                continue
            leaves[n] = d
            self.farther = far[1] > far[0]
            return

    def count(self, i):
        """number of evaluations so far"""
        q = np.random.default_rng(1000 + i)
        if q.random() < 0.5:
            return 7
        k = [int(x) + j for x in self.m.consts if x == int(x) for j in (-2, -1, 0, 1)]
        return int(q.choice(k)) if k else 7

    def get(self, r):
        a = self.m.role.get(r)
        if a is None:
            raise CantEval('no attribute for ' + r)
        n = self.m.attrs[a]
        return self.ev(n)

    def changed(self):
        return not (same(self.normal, self.oldN) and same(self.origin, self.oldO))

    def division(self):
        """number of points on the near side of the stored hyperplane if it divides the points at a position of the order, else None"""
        N, O = np.asarray(self.normal, dtype=float), np.asarray(self.origin, dtype=float)
        if N.shape != (self.X.shape[1],) or O.shape != N.shape:
            return 'shape'
        d = self.X @ N - np.dot(N, O)
        side = d < 0
        if np.min(np.abs(d)) < 1e-9 * (min(1.0, float(np.max(np.abs(self.X))) or 1.0) + np.max(np.abs(d))):
            raise Skip()
        k = int(side.sum())
        if k == 0 or k == len(side):
            return None
        return k if set(np.nonzero(side)[0]) == set(self.order[:k]) else None


def close(a, b):
    return same(a, b, TOL)


def o_nothing(s):
    """C04: a direction without candidates contributes nothing"""
    if len(s.cuts):
        return None
    if s.changed() or not close(s.best, s.before):
        return 'a direction without any candidate changes the result of the search'
    return True


def o_score(s):
    if s.scores is None:
        return None
    if s.changed() and not close(s.best, s.top):
        return 'recorded score {} instead of {}'.format(short(s.best), short(s.top))
    return True


def o_keep(s):
    """C05"""
    if not s.best >= s.before - TOL * (1 + abs(s.before)):
        return 'the score of the search result falls from {} to {}'.format(short(s.before), short(s.best))
    if s.changed() and s.top < s.before - TOL * (1 + abs(s.before)):
        return 'a result scoring {} is replaced by one scoring {}'.format(short(s.before), short(s.top))
    if s.scores is not None and s.top > s.before + TOL * (1 + abs(s.before)):
        if not s.changed():
            return 'a direction scoring {} does not replace the result scoring {}'.format(short(s.top), short(s.before))
        if not close(s.best, s.top):
            return 'recorded score {} instead of {}'.format(short(s.best), short(s.top))
    return True


def o_tie(s):
    """C05: of equally scoring hyperplanes the one further away from the points stays"""
    if s.tie and len(s.others) == 1 and s.farther is not None and s.oldN is not None:
        if s.changed() != s.farther:
            return 'an equally scoring hyperplane {} the points than the stored one {} it'.format(*(('further away from', 'does not replace') if s.farther else ('closer to', 'replaces')))
        return True
    if not s.tie or len(s.others) != 1 or s.others[0] == 5.0 or s.degenerate or s.oldN is None or float(np.ptp(s.X @ s.N)) < 1e-3:
        return None
    far = s.others[0] > 0
    if s.changed() == far:
        return 'an equally scoring hyperplane {} to the points {} the stored one'.format('closer' if far else 'further away', 'replaces' if far else 'does not replace')
    return True


def o_division(s):
    """the stored hyperplane divides the points as the candidate that was scored"""
    if not s.changed() or s.scores is None:
        return None
    if s.normal is None or s.origin is None:
        return 'normal or origin is None'
    k = s.division()
    if k == 'shape':
        return 'normal or origin does not have one entry per feature'
    if k is None:
        return 'the stored hyperplane does not divide the points at a candidate'
    w = np.nonzero(s.cuts == k)[0]
    if len(w) == 0:
        return 'the stored hyperplane divides the points where there is no candidate'
    if s.scores[w[0]] < s.top - TOL * (1 + abs(s.top)):
        return 'the stored hyperplane is a candidate scoring {} although one scores {}'.format(short(s.scores[w[0]]), short(s.top))
    return True


def o_place(s):
    if not s.changed() or s.scores is None or s.normal is None or s.origin is None:
        return None
    k = s.division()
    if k is None or isinstance(k, str):
        return None
    return True if k in set(s.cuts.tolist()) else 'the stored hyperplane divides the points where there is no candidate'


def o_value(s):
    want = -s.top
    return True if close(s.ret, want) else 'returns {} instead of the negated {} {}'.format(short(s.ret), 'score of not splitting' if s.scores is None else 'best score', short(want))


def o_unit(s):
    if not s.changed() or s.normal is None:
        return None
    N = np.asarray(s.normal, dtype=float)
    if N.shape != (s.X.shape[1],):
        return 'normal of shape {} for {} features'.format(N.shape, s.X.shape[1])
    if abs(np.linalg.norm(N) - 1) > 1e-9:
        return 'normal of length {}'.format(np.linalg.norm(N))
    if not s.degenerate and not (close(N, s.N) or close(N, -s.N)):
        return 'normal {} instead of {}'.format(short(N), short(s.N))
    return True


ORULES = {
    'C04': [('a direction without candidates contributes nothing', o_nothing), ('the result is a candidate', o_place)],
    'C05': [('a result is never replaced by a worse one', o_keep), ('equally scoring results: the one further away from the points stays', o_tie), ('the stored hyperplane is the best candidate', o_division)],
    'C06': [('recorded score', o_score)],
    'C23': [('the objective returns the negated best score', o_value), ('the direction is the unit vector of the given point', o_unit)],
}


def vector_rules(m, prop, tier):
    """C04 / C06: number and values of the candidate scores; None (no answer) / True / text"""
    v = m.scored()
    if v is None:
        return None
    n = 0
    for s in m.scenarios(tier):
        try:
            x = np.asarray(s.ev(v), dtype=float)
        except (CantEval, BadValue, TypeError, ValueError):
            continue
        if x.ndim != 1:
            return None
        want = 0 if s.scores is None else len(s.cuts)
        if s.scores is None:
            continue
        if s.degenerate:
            continue
        n += 1
        if len(x) != want:
            return '{} candidates instead of {} for {}'.format(len(x), want, brief(s.leaves)) if prop == 'C04' else None
        if prop == 'C06' and not close(x, s.scores):
            return 'scores {} instead of {} for {}'.format(short(x), short(s.scores), brief(s.leaves))
    return True if n else None


def models(R, tier):
    C = contexts()
    for t in HYPER:
        for k in ('ndarray', 'csr', 'csc'):
            for inner in (False, True):
                if inner and k == 'csr':
                    continue
                if inner and tier == 'quick' and k == 'csc':
                    continue
                for later in (False, True):
                    key = ('objective', t, k, inner, later)
                    if key not in C.cache:
                        C.cache[key] = Objective(C, t, k, inner, later)
                    yield C.cache[key]


def check(R, m, prop, tier):
    if m.error:
        R.add(m.label, 'unknown', None, 'not analysed: ' + m.error)
        return
    R.saw(m.c)
    loc = (m.func.module.rel, m.func.node.lineno)
    if prop == 'C05' and not m.later:
        if m.ok.get('start'):
            R.add('{}: the search starts from not splitting'.format(m.label), 'proved', loc, 'identical to the normal form of the specification')
    if m.ok.get('all') and (m.later or m.ok.get('start') or prop in ('C06', 'C23')):
        for name, f in ORULES[prop]:
            R.add('{}: {}'.format(m.label, name), 'proved', loc, 'identical to the normal form of the specification')
        return
    if prop in ('C04', 'C06'):
        v = vector_rules(m, prop, tier)
        R.add('{}: {}'.format(m.label, 'candidates' if prop == 'C04' else 'scores'), {None: 'unknown', True: 'equal'}.get(v, 'refuted'), loc, v if isinstance(v, str) else '')
    for name, f in ORULES[prop]:
        label = '{}: {}'.format(m.label, name)
        n, cant = 0, None
        for s in m.scenarios(tier):
            try:
                with np.errstate(all='ignore'):
                    r = f(s)
            except (CantEval, BadValue, Skip) as ex:
                cant = str(ex)
                continue
            except Exception as ex:
                cant = '{}: {}'.format(type(ex).__name__, ex)
                continue
            if r is None:
                continue
            n += 1
            if r is not True:
                R.add(label, 'refuted', loc, '{} for {}'.format(r, brief(s.leaves)))
                break
        else:
            if n:
                R.add(label, 'equal', loc, 'normal forms differ; {} interpretations agree'.format(n))
            else:
                R.add(label, 'unknown', loc, cant or '; '.join(m.why) or 'no interpretation in the domain')


def objective_rules(prop):
    def f(R, tier):
        for m in models(R, tier):
            guarded(R, m.label, check, R, m, prop, tier)
    f.__name__ = 'evaluation of hyperplane directions'
    return f


for p in ORULES:
    rule(p)(objective_rules(p))
