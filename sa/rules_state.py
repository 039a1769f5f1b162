"""Parameters (C10), the caller's data (C11) and what an earlier fit leaves behind (C13)."""
import numpy as np

from . import alias
from . import vals as V
from .contexts import TREES, is_clf
from .fitmodel import UNSET, FitModel, Outcome, Rec
from .graph import is_node
from .loader import Class, Func
from .registry import contexts, guarded, rule
from .report import Skip, brief
from .rules_life import all_queries, kinds_of, prune_ctx, reach, states_of
from .rules_opt import closure, optimizers, results, solves
from .termeval import BadValue, CantEval, Eval, same, short


def ctx_loc(c):
    return (c.func.module.rel, c.func.node.lineno) if getattr(c, 'func', None) is not None else None


def root_of(e):
    """alias roots of what an event writes to"""


# ------------------------------------------------------------------------------------------------ C13
REFIT = ('inner', 'leaf', 'pruned')


@rule('C13')
def refitting(R, tier):
    C = contexts()
    R.rules.append('value graph of fit on a tree that was fitted before (its learned attributes are unknown): no value that fit stores, decides by or hands on depends on one of them; '
                   'where a term mentions one, its value under two different earlier fits is compared')
    for t in TREES:
        for kind in ('ndarray', 'csc') + (('csr',) if tier != 'quick' else ()):
            for state in REFIT:
                for prune, prior in ((False, True), (True, True), (False, False)):
                    name = '{} {} fitted before as {}{}{}'.format(t, kind, state, ', with pruning' if prune else '', '' if prior else ', default prior')
                    guarded(R, name, refit_one, R, C, t, kind, state, prune, prior, name)
    from .rules_opt import keeps_state, solves
    R.rules.append('what a search stores in its optimiser, which a second fit uses again, is not read by the next search')
    for s in solves(C):
        if not s.error:
            guarded(R, s.label, keeps_state, R, s, 'C13')


def refit_one(R, C, t, kind, state, prune, prior, name):
    if state == 'pruned':
        from .rules_life import pruned_state
        pruned_state(C, t)
        if not C.states(t).states.get('pruned'):
            return
    if not C.states(t).states.get(state):
        return R.add(name, 'unknown', None, 'no model of the state')
    c = C.fit(t, kind, prune=prune, prior=prior, refit=state)
    fresh = C.fit(t, kind, prune=prune, prior=prior)
    loc = ctx_loc(c)
    if c.error or fresh.error:
        return R.add(name, 'unknown', loc, c.error or fresh.error)
    for q in c.I.funcs_seen:
        R.analysed.add(q)
    stale = set(n for n in c.stale.values() if n.op in ('param', 'attr0'))
    final = {a: c.I.deref(v, c.state) for (o, a), v in c.state.heap.items() if o is c.obj}
    want = {a for (o, a) in fresh.state.heap if o is fresh.obj}
    # attributes that only an earlier fit has set
    left = [a for a in final if a not in want and a in c.stale]
    roots = results(c) + [v for a, v in final.items()] + [x for e in c.evs('raise') if e.seq >= c.ctor_events for x, q in e.pc]
    nodes = closure(c, roots)
    hot = {x for x in nodes if x in stale}
    constant = [a for a in final if a in c.stale and c.stale[a].op == 'const' and final[a] is c.stale[a] and a in want and
                not any(e.kind == 'setattr' and e.obj is c.obj and e.name == a and e.seq >= c.ctor_events for e in c.I.events)]
    if not hot and not left and not constant:
        return R.add(name, 'proved', loc, '{} values examined, none depends on the earlier fit'.format(len(roots)))
    evaluate_refit(R, C, c, fresh, t, kind, state, prune, name, loc, stale, final, hot)


def bases(C, t, c, seed, count):
    from .rules_fit import StepCheck
    chk = StepCheck(C, t, c.kind, False, context=c)

    def extra(v, r, X, y, i):
        if not chk.perp:
            chk.hyper_leaves(v, r, X, y, i)
    c.extra_leaves = extra
    return chk.m, V.fit_base(c, chk.clf, seed=seed, count=count, min_dim=1 if chk.perp else 2)


def alike(a, b, tol):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return type(a) is type(b) and a == b
    if isinstance(a, Obj) or isinstance(b, Obj):
        return a is b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    try:
        return same(a, b, tol)
    except TypeError:       # texts and numbers
        return False


def earlier(C, t, seed):
    """values of the learned attributes after an earlier fit: two lists of alternatives"""
    key = ('earlier', t, seed)
    if key not in C.cache:
        c = C.fit(t, 'ndarray')
        m, base = bases(C, t, c, seed, 14)
        out = []
        for i, v in enumerate(base):
            try:
                v = dict(v)
                v[c.names] = ['{} {}'.format('xyz'[i % 3], j) for j in range(len(v[c.names]))]
                o = Outcome(m, v, ())
                d = {}
                for a in C.states(t).known():
                    try:
                        x = o.get(a)
                        if not is_node(x) and x is not UNSET and not isinstance(x, Rec):
                            d[a] = x
                    except (CantEval, BadValue):
                        pass
                d['split'] = o.split
                out.append(d)
            except (CantEval, BadValue, Skip):
                continue
        C.cache[key] = out
    return C.cache[key]


def evaluate_refit(R, C, c, fresh, t, kind, state, prune, name, loc, stale, final, hot):
    m, base0 = bases(C, t, c, 1, 30)
    mf, base1 = bases(C, t, fresh, 1, 30)
    raises = [e for e in c.evs('raise') if e.seq >= c.ctor_events]
    fraises = [e for e in fresh.evs('raise') if e.seq >= fresh.ctor_events]
    old = [d for d in earlier(C, t, 11) if d['split'] == (state == 'inner')] or earlier(C, t, 11)
    if not old:
        return R.add(name, 'unknown', loc, 'no earlier fit could be evaluated')
    n = bad = 0

    def leaves(base, d):
        v = dict(base)
        for a, x in c.stale.items():
            if x.op == 'param':
                if a in d and d[a] is not None:
                    v[x] = d[a]
                elif c.I.types.get(x) is not None:
                    v[x] = Obj(a)
        return v
    why = {}
    for i, (base, fbase) in enumerate(zip(base0, base1)):
        seen = []
        for k in (0, 1):
            d = old[(i + k) % len(old)]
            try:
                o = Outcome(m, leaves(base, d), ())
                r = {}
                for e in raises:
                    try:
                        on = m.event_on(e, o.ev)
                    except BadValue:
                        # the condition itself has no value (e.g. arrays of different lengths are compared)
                        r = {'raises': 'ValueError'}
                        break
                    if on:
                        r = {'raises': e.exc}
                        break
                if r:
                    seen.append(r)
                    continue
                for a in final:
                    if a not in c.stale and (c.obj, a) in c.refit_ctor.heap:
                        continue
                    node = m.pick(final[a], o.ev)
                    if node in stale and a in c.stale:
                        return R.add(name, 'refuted', node.loc or loc, 'attribute {} keeps the value of the earlier fit, e.g. for {}'.format(a, brief(base)))
                    r[a] = 'obj' if node.op == 'new' else ('rec' if node.op == 'attr0' and node.args[0].op == 'new' else o.ev(node))
                for j, e in enumerate(m.rcalls):
                    on = m.event_on(e, o.ev)
                    r['call {}'.format(j)] = on
                    if on:
                        rc = m.pick(e.receiver, o.ev)
                        if rc in stale:
                            return R.add(name, 'refuted', e.where, 'a child of the earlier fit is trained again')
                        for q, x in e.vals.items():
                            if is_node(x):
                                r['call {} {}'.format(j, q)] = o.ev(x)
                seen.append(r)
            except (CantEval, BadValue, Skip) as ex:
                why[str(ex)[:80]] = why.get(str(ex)[:80], 0) + 1
                bad += 1
                break
        if len(seen) == 2:
            n += 1
            ex = [q.get('raises') for q in seen]
            if ex[0] != ex[1]:
                return R.add(name, 'refuted', loc, 'the outcome depends on the earlier fit: {} or {} for {}'.format(*['raises ' + str(x) if x else 'succeeds' for x in ex], brief(base)))
            for a in sorted(set(seen[0]) | set(seen[1])):
                if not alike(seen[0].get(a), seen[1].get(a), 1e-9):
                    return R.add(name, 'refuted', loc, '{} depends on the earlier fit: {} or {} for {}'.format(a, short(seen[0].get(a)), short(seen[1].get(a)), brief(base)))
            # a value that is set by fitting a new tree
            try:
                f = Outcome(mf, fbase, ())
                fr = next((e.exc for e in fraises if mf.event_on(e, f.ev)), None)
                if fr != seen[0].get('raises'):
                    return R.add(name, 'refuted', loc, 'fitting the tree again {} but fitting a new tree {} for {}'.format(*['raises ' + str(x) if x else 'succeeds' for x in (seen[0].get('raises'), fr)], brief(base)))
                if fr:
                    continue
                for a in final:
                    if (c.obj, a) in c.refit_ctor.heap:
                        continue
                    x = f.get(a)
                    if x is UNSET:
                        if seen[0][a] is not None:
                            return R.add(name, 'refuted', loc, 'attribute {} is left from the earlier fit; fitting a new tree does not set it'.format(a))
                        continue
                    if is_node(x) or isinstance(x, Rec) or seen[0][a] in ('obj', 'rec') if isinstance(seen[0][a], str) else is_node(x):
                        if is_node(x) != (isinstance(seen[0][a], str) and seen[0][a] == 'obj') and not isinstance(x, Rec):
                            return R.add(name, 'refuted', loc, 'attribute {} differs from fitting a new tree for {}'.format(a, brief(base)))
                        continue
                    if not alike(x, seen[0][a], 1e-9):
                        return R.add(name, 'refuted', loc, 'attribute {} is {} but {} for a new tree, for {}'.format(a, short(seen[0][a]), short(x), brief(base)))
            except (CantEval, BadValue, Skip):
                pass
    R.add(name, 'equal' if n >= 10 else 'unknown', loc, '{} interpretations agree for different earlier fits ({} not evaluable: {}); mentioned: {}'.format(n, bad, why, ', '.join(sorted(str(x)[:30] for x in hot))))


class Obj:
    def __init__(self, a):
        self.a = a

    def __repr__(self):
        return '<earlier {}>'.format(self.a)


def fresh_node(c, fresh, n):
    if n is c.X:
        return fresh.X
    if n is c.y:
        return fresh.y
    if n is c.names:
        return fresh.names
    if n is c.verbose:
        return fresh.verbose
    for k, p in c.params.items():
        if p is n:
            return fresh.params[k]
    return None


# ------------------------------------------------------------------------------------------------ C10
class Opaque:
    def __repr__(self):
        return '<some object>'


def settings(C, t):
    """{parameter: default node or None}"""
    f, _ = C.P.cls(t).find('__init__')
    if not isinstance(f, Func):
        return None, {}
    return f, [x.arg for x in f.node.args.args[1:] + f.node.args.kwonlyargs]


def sample_values():
    return [None, True, False, 0, 1, 2, -1, 0.0, 0.5, 0.99, 1.0, 'text', (1, 2), [1.0, 2.0], [3, 4], np.array([1.0, 2.0]), np.array([1, 2]), np.float64(0.25), np.int64(3), np.float32(0.1), Opaque()]


@rule('C10')
def parameters(R, tier):
    C = contexts()
    R.rules.append('value graph of the constructors: what is stored under the name of a parameter is that parameter itself; effect and alias analysis of fit, pruning and all queries: it is never stored again with '
                   'another value nor written in place; fit returns the tree on every path that returns')
    for t in TREES:
        guarded(R, t, stored_as_given, R, C, t)
        for kind in ('ndarray', 'csc', 'csr'):
            for prune, prior, opt in ((False, True, True), (True, True, True), (False, False, False)):
                name = '{} fit {}{}{}'.format(t, kind, ', with pruning' if prune else '', '' if prior else ', defaults')
                guarded(R, name, fit_keeps, R, C, t, C.fit(t, kind, prune=prune, prior=prior, optimizer=opt), name, True)
        for kind in ('ndarray', 'csc'):
            name = '{} training of an inner node {}'.format(t, kind)
            guarded(R, name, fit_keeps, R, C, t, C.inner_fit(t, kind), name, False)
        for s in states_of(C, t):
            name = '{} pruning of a {}'.format(t, s)
            guarded(R, name, prune_keeps, R, C, t, s, name)
        for m in all_queries(C, t):
            for kind in kinds_of(m)[:2]:
                for s in states_of(C, t):
                    name = '{} {} {} on a {}'.format(t, m, kind, s)
                    guarded(R, name, query_keeps, R, C, t, m, kind, s, name)


def stored_as_given(R, C, t):
    f, ps = settings(C, t)
    if f is None:
        return R.add('{} constructor'.format(t), 'unknown', None, 'no constructor')
    loc = (f.module.rel, f.node.lineno)
    R.analysed.add(f.qualname)
    if f.node.args.vararg or f.node.args.kwarg:
        R.add('{} constructor: parameters are named'.format(t), 'refuted', loc, 'parameters passed as *args or **kwargs cannot be read back')
    for x in ('get_params', 'set_params', '__setattr__', '__getattribute__', '_get_param_names', '__sklearn_clone__'):
        d, own = C.P.cls(t).find(x)
        if isinstance(d, Func):
            R.add('{}: {}'.format(t, x), 'unknown', (d.module.rel, d.node.lineno), 'overridden')
    c = C.ctor(t)
    if c.error:
        return R.add('{} constructor'.format(t), 'unknown', loc, c.error)
    st = c.after_ctor
    for e in c.I.events[:c.ctor_events]:
        if e.kind in alias.WRITES:
            for r in alias.roots(e.target, c.g, st.content):
                if r in c.params.values():
                    R.add('{} constructor: {}'.format(t, r.args[0].replace('ctor_', '')), 'refuted', e.where, 'the constructor writes into the object that is passed in')
    for p in ps:
        name = '{} constructor: {}'.format(t, p)
        n = st.heap.get((c.obj, p))
        if n is None:
            got, own = C.P.cls(t).find(p)
            R.add(name, 'unknown' if got is not None else 'refuted', loc, 'no attribute {} is stored'.format(p))
            continue
        n = c.I.deref(n, st)
        pn = c.params[p]
        if n is pn:
            R.add(name, 'proved', loc, 'stored as given')
            continue
        bad = tried = 0
        for v in sample_values() + [C_default(f, p)]:
            if v is NODEFAULT:
                continue
            try:
                x = Eval({**{q: Opaque() for q in c.params.values()}, pn: v}, I=c.I)(n)
            except BadValue:
                continue
            except CantEval:
                bad += 1
                continue
            tried += 1
            if x is not v:
                R.add(name, 'refuted', n.loc or loc, 'given {!r} the attribute is {!r}'.format(v, x) if repr(x) != repr(v) else 'given {!r} the attribute is another object'.format(v))
                break
        else:
            R.add(name, 'equal' if tried and not bad else 'unknown', loc, '{} values'.format(tried))


NODEFAULT = object()


def C_default(f, p):
    import ast
    a = f.node.args
    pos = a.args
    i = [x.arg for x in pos].index(p) if p in [x.arg for x in pos] else None
    d = None
    if i is not None:
        k = i - (len(pos) - len(a.defaults))
        d = a.defaults[k] if k >= 0 else None
    if d is None:
        return NODEFAULT
    try:
        return ast.literal_eval(d)
    except ValueError:
        return NODEFAULT


def based(c, n, depth=0):
    """objects whose storage a value may share, through attributes such as .data and .values"""
    out = set()
    for r in alias.roots(n, c.g, c.state.content if c.state is not None else None):
        if r.op == 'attr0' and depth < 6:
            if r.args[1] in STORAGE:
                b = r.args[0]
                if b.op in ('csc', 'csr'):
                    b = b.args[0] if c.g.kind(b.args[0]) == b.op else None
                if b is not None:
                    out |= based(c, b, depth + 1)
            else:
                out.add(r)
        else:
            out.add(r)
    return out


STORAGE = {'values', 'data', 'indices', 'indptr', 'array', '_values', 'flat', 'real', 'base', 'iloc', 'loc', 'iat', 'at', 'A', 'A1'}
ARRAYS = ('ctor_prior', 'ctor_optimizer')               # parameters that may be objects with storage of their own


def param_roots(c, e):
    """parameters of the tree an event may write into"""
    ps = set(c.params.values())
    return {r for r in based(c, e.target) if r in ps and (not e.d.get('maybe') or r.args[0] in ARRAYS)}


def fit_keeps(R, C, t, c, name, root):
    loc = ctx_loc(c)
    if c.error:
        return R.add(name, 'unknown', loc, c.error)
    for q in c.I.funcs_seen:
        R.analysed.add(q)
    for e in c.I.events[c.ctor_events:]:
        if e.kind in alias.WRITES:
            for r in param_roots(c, e):
                return R.add(name, 'refuted', e.where, 'the parameter {} is modified in place'.format(r.args[0].replace('ctor_', '')))
    keeps(R, C, t, c, name, loc, c.obj)
    if root:
        v = c.I.deref(c.value, c.state) if is_node(c.value) else c.value
        alts = leaves_of(v)
        if all(x is c.obj for x in alts):
            R.add('{}: result'.format(name), 'proved', loc, 'the tree itself')
        else:
            o = [x for x in alts if x is not c.obj]
            sure = all(x.op in ('const', 'new', 'tuple', 'list') for x in o)
            R.add('{}: result'.format(name), 'refuted' if sure else 'unknown', loc, 'fit returns {}'.format(', '.join(str(x)[:60] for x in o)))


def leaves_of(n):
    if not is_node(n):
        return [n]
    if n.op == 'gamma':
        return leaves_of(n.args[1]) + leaves_of(n.args[2])
    return [n]


def keeps(R, C, t, c, name, loc, obj):
    """final value of every parameter"""
    f, ps = settings(C, t)
    for p in ps:
        first = c.after_ctor.heap.get((obj, p)) if hasattr(c, 'after_ctor') else c.params.get(p)
        last = c.state.heap.get((obj, p))
        if last is first or first is None:
            continue
        last = c.I.deref(last, c.state) if last is not None else None
        if last is None or last.op == 'undef':
            R.add('{}: {}'.format(name, p), 'refuted', loc, 'the parameter is removed')
            continue
        # attr0: the value after a recursive call, which keeps it by the obligations about the recursive functions
        alts = [x for x in leaves_of(last) if x is not first and not (x.op == 'attr0' and x.args[0] is obj and x.args[1] == p)]
        if not alts:
            continue
        ev = next((e for e in c.I.events if e.kind == 'setattr' and e.obj is obj and e.name == p and e.seq >= c.ctor_events), None)
        where = ev.where if ev is not None else loc
        # another value on some path: is it certainly another one
        st = 'unknown'
        for x in alts:
            nodes = set(c.g.walk(x, set()))
            if x.op == 'const' and first.op == 'param' or x.op == 'new' or c.X in nodes or c.y in nodes or any(n.op in ('dyn', 'fin') for n in nodes):
                st = 'refuted'
        if st == 'unknown':
            for x in alts:
                for v in sample_values():
                    try:
                        r = Eval({first: v}, I=c.I)(x)
                    except (CantEval, BadValue):
                        continue
                    if r is not v:
                        st = 'refuted'
        R.add('{}: {}'.format(name, p), st, where, 'the parameter is replaced by {}'.format(', '.join(str(x)[:60] for x in alts)))
        return
    R.add('{}: parameters'.format(name), 'proved', loc, '{} parameters keep their values'.format(len(ps)))


def prune_keeps(R, C, t, s, name):
    c = prune_ctx(C, t, s)
    if c is None:
        return
    if c.error:
        return R.add(name, 'unknown', None, c.error)
    query_rule(R, C, t, [(c, 'pruning')], name, ctx_loc(c))


def query_keeps(R, C, t, m, kind, s, name):
    c, ks = reach(C, t, m, s, kind)
    if ks is None:
        return R.add(name, 'unknown', None, c.error)
    query_rule(R, C, t, ks, name, ctx_loc(c))


def query_rule(R, C, t, ks, name, loc):
    f, ps = settings(C, t)
    for k, what in ks:
        for e in k.I.events[k.ctor_events:]:
            if e.kind == 'setattr' and e.name in ps and (e.obj is k.obj or k.I.type_of(e.obj) is C.P.cls(t)) and e.value is not k.before.heap.get((e.obj, e.name)):
                return R.add(name, 'refuted', e.where, '{} stores the parameter {}'.format(what, e.name))
            if e.kind in alias.WRITES:
                for r in param_roots(k, e):
                    return R.add(name, 'refuted', e.where, '{} modifies the parameter {} in place'.format(what, r.args[0].replace('ctor_', '')))
    R.add(name, 'proved', loc, '{} contexts'.format(len(ks)))


# ------------------------------------------------------------------------------------------------ C11
FIT_KINDS = ('raw', 'ndarray', 'csc', 'csr')


@rule('C11')
def callers_data(R, tier):
    C = contexts()
    R.rules.append('may-alias and effect analysis: the target of every element store, in-place operation and list update in training, searches, evaluations and queries shares no storage with an object of the caller')
    for t in TREES:
        for kind in FIT_KINDS:
            for prune, prior in ((False, True), (True, True), (False, False)):
                name = '{} fit {}{}{}'.format(t, kind, ', with pruning' if prune else '', '' if prior else ', default prior')
                guarded(R, name, fit_writes, R, C, t, C.fit(t, kind, prune=prune, prior=prior), name, None)
        for kind in ('ndarray', 'csc'):
            name = '{} training of an inner node {}'.format(t, kind)
            guarded(R, name, inner_writes, R, C, t, kind, name)
        for s in states_of(C, t):
            name = '{} pruning of a {}'.format(t, s)
            guarded(R, name, prune_writes, R, C, t, s, name)
        for m in all_queries(C, t):
            for kind in (('raw',) + kinds_of(m) if len(kinds_of(m)) > 1 else kinds_of(m)):
                for s in states_of(C, t):
                    name = '{} {} {} on a {}'.format(t, m, kind, s)
                    guarded(R, name, query_writes, R, C, t, m, kind, s, name)
    for s in solves(C):
        guarded(R, s.label, search_writes, R, s)
    from .rules_obj import models
    for m in models(R, tier):
        if not m.error:
            guarded(R, m.label, evaluation_writes, R, m)
    guarded(R, 'mapping to the sphere', sphere_writes, R, C)


def users(c, extra=()):
    """{alias root: name of the caller's object}"""
    out = {}
    for n, what in ((getattr(c, 'X', None), 'the matrix X'), (getattr(c, 'y', None), 'the targets y'), (getattr(c, 'names', None), 'the feature names')):
        if is_node(n):
            out[n] = what
    for p, n in getattr(c, 'params', {}).items():
        if n.op == 'param':
            out[n] = 'the parameter ' + p
    for n, what in extra:
        out[n] = what
    return out


def written(c, events, own):
    """first write into one of the caller's objects: (event, name)"""
    n = 0
    for e in events:
        if e.kind == 'setattr' and is_node(e.obj):
            n += 1
            for r in same_object(e.obj):
                if r in own and r.op == 'param' and not r.args[0].startswith('ctor_'):
                    return e, own[r], n
        if e.kind not in alias.WRITES:
            continue
        n += 1
        for r in based(c, e.target):
            if r in own:
                if e.d.get('maybe') and r.op == 'param' and r.args[0].startswith('ctor_') and r.args[0] not in ARRAYS:
                    continue
                return e, own[r], n
    return None, None, n


def same_object(n, depth=0):
    """the objects a value may be (not just share storage with)"""
    if not is_node(n) or depth > 12:
        return set()
    if n.op == 'gamma':
        return same_object(n.args[1], depth + 1) | same_object(n.args[2], depth + 1)
    if n.op in ('asarray', 'astype_nocopy'):
        return same_object(n.args[0], depth + 1)
    return {n}


def report_writes(R, c, events, own, name, loc):
    e, what, n = written(c, events, own)
    if e is not None:
        return R.add(name, 'refuted', e.where, 'writes into {}'.format(what))
    R.add(name, 'proved', loc, '{} writes examined'.format(n))


def fit_writes(R, C, t, c, name, extra):
    loc = ctx_loc(c)
    if c.error:
        return R.add(name, 'unknown', loc, c.error)
    for q in c.I.funcs_seen:
        R.analysed.add(q)
    report_writes(R, c, c.I.events[c.ctor_events:], users(c), name, loc)


def passed_on(c, own):
    """parameters of recursive functions that receive an object of the caller: {name: what}"""
    out = {}
    for e in c.evs('rcall'):
        for p, n in e.vals.items():
            if is_node(n):
                for r in based(c, n):
                    if r in own:
                        out[p] = own[r]
    return out


def inner_writes(R, C, t, kind, name):
    root, c = C.fit(t, kind), C.inner_fit(t, kind)
    loc = ctx_loc(c)
    if c.error or root.error:
        return R.add(name, 'unknown', loc, c.error or root.error)
    on = passed_on(root, users(root))
    own = {n: on[p] for p, n in c.args.items() if p in on}
    report_writes(R, c, c.I.events[c.ctor_events:], own, name, loc)


def prune_writes(R, C, t, s, name):
    c = prune_ctx(C, t, s)
    if c is None or c.error:
        return
    report_writes(R, c, c.I.events[c.ctor_events:], users(c), name, ctx_loc(c))


def query_writes(R, C, t, m, kind, s, name):
    if kind == 'raw':
        c, ks = C.query(t, m, s, 'raw'), None
        if c.error:
            return R.add(name, 'unknown', None, c.error)
        ks = [(c, m)]
    else:
        c, ks = reach(C, t, m, s, kind)
    if ks is None:
        return R.add(name, 'unknown', None, c.error)
    on = passed_on(c, users(c))
    for k, what in ks:
        own = users(k) if k is c else {n: on[p] for p, n in getattr(k, 'args', {}).items() if p in on and is_node(n)}
        e, w, n = written(k, k.I.events[k.ctor_events:], own)
        if e is not None:
            return R.add(name, 'refuted', e.where, '{} writes into {}'.format(what, w))
    R.add(name, 'proved', ctx_loc(c), '{} contexts'.format(len(ks)))


def search_writes(R, s):
    loc = (s.func.module.rel, s.func.node.lineno)
    if s.error:
        return R.add('{}: search'.format(s.label), 'unknown', loc, s.error)
    s.state = s.after
    report_writes(R, s, s.events_all(), {s.X: 'the matrix X', s.y: 'the targets y'}, '{}: search'.format(s.label), loc)


def evaluation_writes(R, m):
    own = users(m.c)
    own[m.u] = 'the candidate that is evaluated'
    report_writes(R, m, m.events, own, m.label, (m.func.module.rel, m.func.node.lineno))


def sphere_writes(R, C):
    f = sphere_function(C)
    if f is None:
        return R.add('mapping to the sphere', 'unknown', None, 'function not found')
    from .sphere import summary
    for D in (1, 2, 3, 4):
        for rank in (1, 2):
            for half in (True, False):
                c = summary(C, f, D, rank, half)
                name = 'mapping to the sphere: {} dimensions, {}{}'.format(D, 'one point' if rank == 1 else 'many points', ', half sphere' if half else '')
                if c.error:
                    R.add(name, 'unknown', None, c.error)
                    continue
                report_writes(R, c, c.I.events, {c.points: 'the hypercube points'}, name, (f.module.rel, f.node.lineno))


def sphere_function(C):
    for m in C.P.modules.values():
        if 'hypercube_to_hypersphere_surface' in m.functions:
            return m.functions['hypercube_to_hypersphere_surface']
    return None
