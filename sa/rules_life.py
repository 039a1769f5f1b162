"""Obligations about the life of a tree: node values that queries need (C16), rejection of unfitted trees and wrong widths (C14), read-only queries (C25), pruning (C18)."""
import numpy as np

from . import alias
from .contexts import TREES, family, is_clf
from .graph import is_node
from .loader import Class, Func
from .nodestate import Attr
from .qsim import N, filled, populate, Raised, Sim, walk
from .registry import contexts, guarded, rule
from .rules_query import dense, directed, depth_of, importance, leaf_of, answer, queries, steps_of, text_ok, trees, where_inner
from .vals import constants, fit_base
from .termeval import BadValue, CantEval, Eval

MATRIX = ('predict', 'predict_proba', 'prediction_paths', '_get_raw_leaf_data')


def all_queries(C, t):
    """query methods the package gives to tree class t: public ones and the text conversions"""
    cls = C.P.cls(t)
    out = []
    for c in [k for k in cls.mro() if isinstance(k, Class)]:
        for m, f in c.methods.items():
            if m in out or not isinstance(cls.find(m)[0], Func) or cls.find(m)[0].is_abstract:
                continue
            if (not m.startswith('_') and m != 'fit') or m in ('__str__', '__repr__', '_get_raw_leaf_data'):
                out.append(m)
    return sorted(out)


def reach(C, t, m, state, kind):
    """all contexts that query m on a node in `state` leads to: [(context, description)]"""
    c = C.query(t, m, state, kind)
    if c.error:
        return c, None
    out = [(c, '{} on {}'.format(m, state))]
    if state in ('inner',):
        S, c, ks = steps_of(C, t, kind, m)
        out += [(q, '{} on {}'.format(q.func.qualname, q.qstate)) for q, k, e in ks]
    return c, out


def kinds_of(m):
    return ('ndarray', 'csc', 'csr') if m in MATRIX else ('ndarray',)


def states_of(C, t):
    pruned_state(C, t)
    return [s for s in ('leaf', 'leaf child', 'inner', 'pruned') if C.states(t).states.get(s)]


def undef_in(n, g, memo):
    return is_node(n) and any(x.op == 'undef' for x in g.walk(n))


# ---------------------------------------------------------------------------------------------------------------- pruning function
def prune_event(C, t):
    """the call by which fit starts pruning (None: fit(prune=True) does nothing more than fit(prune=False))"""
    a, b = C.fit(t, 'ndarray', prune=True), C.fit(t, 'ndarray', prune=False)
    if a.error or b.error:
        raise CantEval(a.error or b.error)
    kb = {e.func.qualname for e in b.evs('icall')}
    for e in a.evs('icall'):
        if e.func.qualname not in kb and e.receiver is a.obj and a.I.may_write(e.func):
            return e
    return None


def prune_ctx(C, t, state):
    e = prune_event(C, t)
    if e is None:
        return None
    a = C.fit(t, 'ndarray', prune=True)
    tag = tuple((p, repr(n.args[0]) if n.op == 'const' else (a.g.kind(n), a.g.rank(n))) for p, n in sorted(e.vals.items()) if is_node(n))
    return C.step(t, e.func, state, {p: n for p, n in e.vals.items() if is_node(n)}, a.g, tag)


def pruned_state(C, t):
    """adds the state of a node whose split was removed, if it differs from a leaf"""
    ns = C.states(t)
    if 'pruned' in ns.states:
        return
    ns.states['pruned'] = {}
    try:
        c = prune_ctx(C, t, 'inner')
    except CantEval:
        return
    if c is None or c.error or c.state is None:
        return
    wr = {}
    for e in c.evs('setattr'):
        if e.seq >= c.ctor_events and e.obj is c.obj:
            wr[e.name] = e.value
    if not wr:
        return
    st = {}
    for a, alts in ns.states['inner'].items():
        if a in wr:
            v = wr[a]
            st[a] = {('w',): Attr('const', v.args[0]) if v.op == 'const' else Attr('value', ('obj', None, None))}
        else:
            st[a] = dict(alts)
    ns.states['pruned'] = st


# ---------------------------------------------------------------------------------------------------------------- C16
@rule('C16')
def values_present(R, tier):
    C = contexts()
    R.rules.append('every attribute read that the summaries of a query contain, on every node state a fit can produce (derived from the final heaps of training), meets an attribute that is always set; '
                   'no other exception is raised than those for an unfitted tree or a wrong width')
    for t in TREES:
        ns = C.states(t)
        if ns.error or not ns.states['leaf'] or not ns.states['inner']:
            R.add('{}: node states'.format(t), 'unknown', None, ns.error or 'no model of the nodes')
            continue
        for m in all_queries(C, t):
            for kind in kinds_of(m):
                for s in states_of(C, t):
                    name = '{} {} {} on a {}'.format(t, m, kind, s)
                    guarded(R, name, present_one, R, tier, C, t, m, kind, s, name)


def width_cond(c):
    """the test that the batch has the trained width"""
    if c.X is None or 'n_dim_' not in c.attrs:
        return None
    return c.g.mk('eq', c.attrs['n_dim_'], c.g.dim(c.X, 1))


def refuses(c, e):
    """raise event e happens only for a wrong width"""
    w = width_cond(c) if hasattr(c, 'method') else None
    if w is None:
        return False
    for x, p in e.pc:
        if x is w and not p:
            return True
        if x.op == 'not' and x.args[0] is w and p:
            return True
    return False


def present_one(R, tier, C, t, m, kind, s, name):
    c, ks = reach(C, t, m, s, kind)
    if ks is None:
        return R.add(name, 'unknown', None, c.error)
    bad = []
    for k, what in ks:
        R.saw(k)
        for e in k.I.events[k.ctor_events:]:
            if e.kind == 'undefread':
                bad.append((e, 'reads {} which a {} may not have'.format(e.name, k.qstate)))
            elif e.kind == 'raise' and not refuses(k, e):
                bad.append((e, 'raises {}'.format(e.exc)))
            elif e.kind in ('getattr',) and is_node(e.d.get('value')) and e.value.op == 'gamma' and undef_in(e.value, k.g, None):
                bad.append((e, 'may read the missing {}'.format(e.name)))
        if k.state is None:
            bad.append((None, '{} never returns'.format(what)))
    if not bad:
        none = none_arith(ks) or unsure_reads(C, t, ks)
        if not none:
            return R.add(name, 'proved', where_of_ctx(c), '{} contexts without a read of a missing value'.format(len(ks)))
        bad.append((None, none))
    S = Sim(C, t, kind)
    n = 0
    why = None
    for i, (tr, dims, r) in enumerate(trees(C, t, 24, tier, depth=3, sub=5)):
        if s == 'inner' and not tr.kids or s != 'inner' and tr.kids:
            continue
        tr = put_state(C, t, tr, s)
        for X in ([queries(r, t, tr, dims, i, empty=False)] if m in MATRIX else [None]):
            if X is not None and kind != 'ndarray':
                X = np.nan_to_num(X, posinf=3.0, neginf=-3.0)
            try:
                S.budget = 5000
                run_query(S, m, tr, X)
                n += 1
            except CantEval as ex:
                why = str(ex)
            except BadValue as ex:
                if 'is not set' in str(ex) or 'NoneType' in str(ex):
                    return R.add(name, 'refuted', where(bad), '{} ({})'.format(ex, bad[0][1]))
                why = str(ex)
                try:
                    S.budget = 5000
                    run_query(S, m, filled(tr), X)
                except (CantEval, BadValue, Raised):
                    continue
                return R.add(name, 'refuted', where(bad), '{} if the value is missing ({})'.format(ex, bad[0][1]))
            except Raised as ex:
                return R.add(name, 'refuted', where(bad), '{}: {}'.format(bad[0][1], ex))
    if n:
        return R.add(name, 'equal', where(bad), 'no missing value is met under {} interpretations ({})'.format(n, bad[0][1]))
    return R.add(name, 'unknown', where(bad), why or bad[0][1])


ARITH = ('add', 'sub', 'mul', 'div', 'pow', 'lt', 'le', 'matmul', 'index', 'neg', 'abs', 'sum', 'dot', 'argmax')


def none_arith(ks):
    for k, what in ks:
        terms = [k.value] if is_node(k.value) else []
        terms += [x for e in k.I.events[k.ctor_events:] for x, p in e.pc]
        terms += [v for e in k.I.events[k.ctor_events:] if e.kind == 'rcall' for v in e.vals.values() if is_node(v)]
        for tm in terms:
            for x in k.g.walk(tm):
                if x.op in ARITH and x.args and is_node(x.args[0]) and x.args[0] is k.g.none:
                    return '{} of None in {}'.format(x.op, what)
    return None


def unsure_reads(C, t, ks):
    """an attribute that is None or missing on some nodes in a state and set on others, and read there"""
    ns = C.states(t)
    for k, what in ks:
        sch = ns.states.get(k.qstate) or {}
        mixed = {a for a, alts in sch.items() if a not in ns.ctor and len({v.kind == 'unset' or v.kind == 'const' and v.value is None for v in alts.values()}) > 1}
        for e in k.I.events[k.ctor_events:]:
            if e.kind == 'getattr' and e.obj is k.obj and e.name in mixed:
                return 'reads {}, which not every {} has'.format(e.name, k.qstate)
    return None


def where_of_ctx(c):
    return (c.func.module.rel, c.func.node.lineno)


def where(bad):
    return bad[0][0].where if bad and bad[0][0] is not None else None


def put_state(C, t, tr, s):
    if s in ('leaf child', 'pruned') and not tr.kids:
        sch = C.states(t).states[s]
        attrs = {}
        for a, alts in sch.items():
            vs = list(alts.values())
            if any(v.kind == 'unset' for v in vs):
                continue
            if len(vs) == 1 and vs[0].kind == 'const':
                attrs[a] = vs[0].value
            elif a in tr.attrs:
                attrs[a] = tr.attrs[a]
        out = N(s, attrs, tr.params, {})
        out.absent = frozenset(C.states(t).known() - set(sch))
        return out
    return tr


def run_query(S, m, tr, X=None):
    c = S.C.query(S.tname, m, tr.state, S.kind)
    if c.error:
        raise CantEval(c.error)
    if m == 'prediction_paths':
        return S.replay(m, tr, X)
    return S.entry(m, tr, **({'X': X} if X is not None else {}))[0]


# ---------------------------------------------------------------------------------------------------------------- C14
@rule('C14')
def rejected(R, tier):
    C = contexts()
    R.rules.append('on an unfitted tree no path of a query returns and every raise is ValueError; with a matrix, every returning path of a query is conditioned on its width being the trained one, and the other paths raise ValueError')
    for t in TREES:
        for m in all_queries(C, t):
            name = '{} {} on an unfitted tree'.format(t, m)
            guarded(R, name, unfitted_one, R, C, t, m, name)
            if m in MATRIX:
                for kind in kinds_of(m):
                    for s in ('leaf', 'inner'):
                        name = '{} {} {} on a {}: wrong width'.format(t, m, kind, s)
                        guarded(R, name, width_one, R, tier, C, t, m, kind, s, name)


def value_error(C, exc):
    """is the exception class (source text) a ValueError: True / False / None (not known)"""
    import builtins
    if exc is None:
        return None
    last = exc.split('.')[-1]
    if last in ('NotFittedError', 'LinAlgError', 'AxisError'):
        return last != 'LinAlgError' or None
    b = getattr(builtins, last, None)
    if isinstance(b, type) and issubclass(b, BaseException):
        return issubclass(b, ValueError)
    for m in C.P.modules.values():
        k = getattr(m, 'classes', {}).get(last)
        if k is not None:
            return k.is_subclass('ValueError') or None
    return None


def happens(C, c, pc):
    """does the path condition hold for some unfitted tree and matrix: True / False / None"""
    if not pc:
        return True
    r = np.random.default_rng(3)
    hit = False
    for k in range(6):
        lv = {}
        if c.X is not None:
            lv[c.X] = np.round(r.normal(size=(int(r.integers(1, 4)), int(r.integers(1, 4)))), 1)
        for n, pn in c.params.items():
            if pn.op == 'param':
                lv[pn] = {'level': 0, 'delta': 0.0, 'partition_prior': 0.9, 'split_precision': 0.0, 'prune': False, 'prior': np.array([1.0, 2.0])}.get(n, 'value')
        ev = Eval(lv, {}, I=c.I)
        try:
            if all(ev._truth(ev(x)) == p for x, p in pc if x.op != 'loop'):
                hit = True
        except (CantEval, BadValue):
            return None
        except Exception:
            return None
    return hit


def unfitted_one(R, C, t, m, name):
    c = C.query(t, m, 'unfitted')
    R.saw(c)
    if c.error:
        return R.add(name, 'unknown', None, c.error)
    w = where_of_ctx(c)
    if m == 'is_fitted':
        if c.state is not None and c.value is c.g.false:
            return R.add(name, 'proved', w, 'false')
        return R.add(name, 'refuted' if c.state is not None and c.value.op == 'const' else 'unknown', w, 'is_fitted of an unfitted tree is not False')
    und = [e for e in c.evs('undefread') if e.seq >= c.ctor_events]
    raises = [e for e in c.evs('raise') if e.seq >= c.ctor_events]
    if m in ('__str__', '__repr__'):
        for e in raises + und:
            if happens(C, c, e.pc):
                return R.add(name, 'refuted', e.where, 'converting an unfitted tree to text fails')
        return R.add(name, 'unknown' if und or raises or c.state is None else 'proved', w, 'returns a text')
    # outcomes of the paths: answers, reads of values that do not exist, exceptions
    outs = [(e.seq, e, 'reads {} of an unfitted tree before rejecting it'.format(e.name)) for e in und]
    outs += [(e.seq, e, 'raises {} instead of ValueError'.format(e.exc)) for e in raises if value_error(C, e.exc) is not True]
    if c.state is not None:
        outs += [(e.seq, e, 'an unfitted tree is answered') for e in c.evs('return') if e.seq >= c.ctor_events and e.fn == c.func.qualname and len(e.stack) == 1]
    why = None
    for q, e, msg in sorted(outs, key=lambda x: x[0]):
        # an earlier exception on every such path?
        stopped = [r for r in raises if r.seq < q and all(any(x is y and p == pp for y, pp in e.pc) for x, p in r.pc)]
        if stopped and value_error(C, stopped[0].exc) is True:
            continue
        h = happens(C, c, e.pc)
        unsure = e.kind == 'raise' and value_error(C, e.exc) is None
        if h and not unsure:
            # the condition must not imply that an earlier exception was raised
            if any(happens(C, c, r.pc) is not False for r in raises if r.seq < q and r is not e and r.pc):
                why = msg
                continue
            return R.add(name, 'refuted', e.where, msg)
        if h is None or unsure:
            why = msg
    if why:
        return R.add(name, 'unknown', w, why)
    good = [r for r in raises if value_error(C, r.exc) is True]
    if c.state is None and good:
        return R.add(name, 'proved', good[0].where, 'every path raises ValueError')
    if c.state is not None and not outs:
        return R.add(name, 'refuted', w, 'an unfitted tree is answered')
    return R.add(name, 'unknown', w, 'some path returns')


def width_one(R, tier, C, t, m, kind, s, name):
    c = C.query(t, m, s, kind)
    R.saw(c)
    if c.error:
        return R.add(name, 'unknown', None, c.error)
    w = width_cond(c)
    raises = [e for e in c.evs('raise') if e.seq >= c.ctor_events]
    ok = [e for e in raises if refuses(c, e)]
    if w is not None and ok and all(value_error(C, e.exc) for e in ok):
        first = ok[0]
        uncond = all((x is w and not p) or (x.op == 'not' and x.args[0] is w and p) for x, p in first.pc)
        calls = [e for e in c.evs('rcall') if e.seq >= c.ctor_events and e.seq < first.seq]
        mut = [e for e in c.I.events[c.ctor_events:first.seq] if e.kind in ('setitem', 'inplace', 'listmut') and any(r is not None and r.op == 'param' for r in alias.roots(e.target, c.g))]
        if uncond and not calls and not mut:
            return R.add(name, 'proved', first.where, 'raised for every wrong width, and for no other')
    # interpretation
    S = Sim(C, t, kind)
    n = 0
    for i, (tr, dims, r) in enumerate(trees(C, t, 30, tier, depth=2, sub=9)):
        if bool(tr.kids) != (s == 'inner'):
            continue
        try:
            ks = [int(k) for k in S.constants() if k == int(k) and 2 <= k <= 3000]
        except Exception:
            ks = []
        for wrong in [dims + 1, dims - 1, dims + 3, 2 * dims, 0] + [k + j for k in ks[:4] for j in (0, 1)] * (i < 8):
            if wrong < 0 or wrong == dims:
                continue
            for rows in [1, 3, 0] + [k + j for k in ks[:4] for j in (0, 1)] * (i < 8 and wrong in (dims + 1, dims - 1)):
                X = np.round(r.normal(size=(rows, wrong)), 1)
                try:
                    S.budget = 2000
                    run_query(S, m, tr, X)
                except Raised as ex:
                    if value_error(C, ex.exc) is None:
                        return R.add(name, 'unknown', where_of_ctx(c), str(ex))
                    if not value_error(C, ex.exc):
                        return R.add(name, 'refuted', None, '{} for {} columns instead of {}'.format(ex, wrong, dims))
                    n += 1
                    continue
                except CantEval as ex:
                    return R.add(name, 'unknown', where_of_ctx(c), str(ex))
                except BadValue as ex:
                    continue
                return R.add(name, 'refuted', where_of_ctx(c), '{} columns are answered by a tree trained with {}'.format(wrong, dims))
    return R.add(name, 'equal' if n else 'unknown', where_of_ctx(c), 'rejected under {} interpretations'.format(n))


# ---------------------------------------------------------------------------------------------------------------- C25
@rule('C25')
def read_only(R, tier):
    C = contexts()
    R.rules.append('effect analysis of every context a query leads to: no store to an attribute of a tree node, no element store whose target may share storage with the tree, a class, a module or a default argument; '
                   'the returned value shares no storage with them')
    for t in TREES:
        for m in all_queries(C, t):
            for kind in kinds_of(m):
                for s in ['unfitted'] + states_of(C, t):
                    if s == 'unfitted' and kind != 'ndarray':
                        continue
                    name = '{} {} {} on a {}'.format(t, m, kind, s if s != 'unfitted' else 'unfitted tree')
                    guarded(R, name, read_only_one, R, C, t, m, kind, s, name)


def own(c, r):
    """is r (an alias root) part of the tree or of longer-lived state"""
    if r is None:
        return False
    if r.op in ('global', 'classvar', 'clsattr', 'default', 'cls'):
        return True
    if r.op == 'param':
        return r.args[0].startswith(('self.', 'ctor_'))
    if r.op == 'attr0':
        return True
    return r is c.obj


def read_only_one(R, C, t, m, kind, s, name):
    c, ks = reach(C, t, m, s, kind)
    if ks is None:
        return R.add(name, 'unknown', None, c.error)
    n = 0
    for k, what in ks:
        R.saw(k)
        fresh = {x for x in ()}
        for e in k.I.events[k.ctor_events:]:
            n += 1
            if e.kind in ('setattr', 'delattr'):
                o = e.obj
                rs = {o} if o.op in ('new', 'cls', 'ext') else alias.roots(o, k.g)
                tp = k.I.type_of(o)
                if o is k.obj or o.op in ('cls', 'fn') or any(own(k, r) for r in rs) or (tp is C.P.cls(t)):
                    return R.add(name, 'refuted', e.where, '{} stores attribute {} of the tree'.format(what, e.name))
            elif e.kind == 'setglobal':
                return R.add(name, 'refuted', e.where, '{} stores the global {}'.format(what, e.name))
            elif e.kind in ('setitem', 'inplace', 'listmut'):
                for r in alias.roots(e.target, k.g, k.state.content if k.state is not None else None):
                    if own(k, r) or r.op in ('global', 'default'):
                        return R.add(name, 'refuted', e.where, '{} modifies {} in place'.format(what, describe(r)))
        if k is c and k.state is not None and is_node(k.rawvalue):
            for r in alias.roots(k.rawvalue, k.g, k.state.content, deep=True):
                if own(k, r):
                    return R.add(name, 'refuted', where_of_ctx(c), 'the result of {} shares storage with {}'.format(m, describe(r)))
    R.add(name, 'proved', where_of_ctx(c), '{} effects and reads in {} contexts'.format(n, len(ks)))


def describe(r):
    if r.op == 'param':
        return r.args[0].replace('ctor_', 'self.')
    if r.op == 'attr0':
        return 'attribute {} of a node'.format(r.args[1])
    return '{} {}'.format(r.op, r.args[:2])


# ---------------------------------------------------------------------------------------------------------------- C18
class Mut(Sim):
    """interpretation of a recursive function that changes nodes: its events in order"""
    def snap(self, root):
        return {id(x): (dict(x.attrs), dict(x.kids)) for x in walk(root)}

    def mutate(self, c, node, lv, root=None):
        self.contexts.add(c)
        self.depth += 1
        if self.depth > 80:
            raise CantEval('too deep')
        snaps = {0: self.snap(node)}

        def attr0(ev, n, env):
            o = ev.ev(n.args[0], env)
            if not isinstance(o, N):
                raise CantEval('attribute of ' + type(o).__name__)
            ep = max(k for k in snaps if k <= n.args[2])
            attrs, kids = snaps[ep].get(id(o), (o.attrs, o.kids))
            a = n.args[1]
            if a in kids:
                return kids[a]
            if a in attrs:
                return attrs[a]
            return o.get(a)
        ev = self.evaluator(c, node, lv)
        ev.opfun['attr0'] = attr0
        done = {}
        late = ev.opfun['rcall']

        def rcall(ev2, n, env):
            return done[n] if n in done else late(ev2, n, env)
        ev.opfun['rcall'] = rcall
        cond = lambda e: all(ev._truth(ev(x)) == p for x, p in e.pc if x.op != 'loop')
        for e in c.I.events[c.ctor_events:]:
            if e.kind not in ('setattr', 'rcall', 'raise', 'setitem', 'inplace', 'listmut', 'delattr'):
                continue
            if any(x.op == 'loop' for x, p in e.pc):
                if e.kind in ('setattr', 'rcall'):
                    raise CantEval('effects in a loop')
                continue
            if not cond(e):
                continue
            if e.kind == 'raise':
                raise Raised(e.exc, e.where)
            if e.kind == 'setattr':
                o = ev(e.obj)
                if not isinstance(o, N):
                    continue
                v = ev(e.value)
                o.kids.pop(e.name, None)
                o.attrs.pop(e.name, None)
                if isinstance(v, N):
                    o.kids[e.name] = v
                else:
                    o.attrs[e.name] = v
                if not o.kids:
                    o.state = leaf_like(self.C, self.tname, o)
                continue
            if e.kind == 'rcall':
                if c.I.may_write(e.func):
                    child = ev(e.receiver)
                    if not isinstance(child, N):
                        raise CantEval('receiver')
                    self.budget -= 1
                    if self.budget < 0:
                        raise CantEval('too many calls')
                    k = self.step_ctx(c, e, child.state)
                    klv = {a: ev(e.vals[p]) for p, a in k.args.items() if a.op != 'const'}
                    self.mutate(k, child, klv)
                    snaps[e.value.args[2] + 1] = self.snap(node)
                else:
                    done[e.value] = ev(e.value)
                continue
            rs = alias.roots(e.target, c.g)
            if any(own(c, r) for r in rs):
                raise CantEval('in-place change of node values')
        self.depth -= 1


def leaf_like(C, t, o):
    """the leaf state whose constant attributes node o has"""
    ns = C.states(t)
    for s in ('leaf', 'leaf child'):
        sch = ns.states[s]
        consts = {a: list(v.values())[0].value for a, v in sch.items() if a not in ns.ctor and len(v) == 1 and list(v.values())[0].kind == 'const'}
        if sch and all(a in o.attrs and not isinstance(o.attrs[a], np.ndarray) and (o.attrs[a] is v or o.attrs[a] == v) for a, v in consts.items()):
            return s
    return 'pruned'


def predicted(t, x):
    p = x.attrs['posterior_']
    return int(np.argmax(p)) if is_clf(t) else p[0]


def prune_spec(t, x):
    """the tree without splits that change nothing"""
    if not x.kids:
        return ('leaf', id0(x))
    a, b = prune_spec(t, x.kids['child1_']), prune_spec(t, x.kids['child2_'])
    if a[0] == 'leaf' and b[0] == 'leaf' and predicted(t, x.kids['child1_']) == predicted(t, x.kids['child2_']) == predicted(t, x):
        return ('leaf', id0(x))
    return ('split', id0(x), a, b)


def id0(x):
    return id(x)


def shape(x):
    if not x.kids or any(k not in x.kids for k in ('child1_', 'child2_')):
        return ('leaf', id0(x))
    return ('split', id0(x), shape(x.kids['child1_']), shape(x.kids['child2_']))


def text(s, d=0):
    return 'leaf' if s[0] == 'leaf' else '({} {})'.format(text(s[2]), text(s[3]))


def same_predictions(t, r, tree):
    """make equal predictions frequent"""
    populate(r, tree, len(tree.attrs['posterior_']), is_clf(t), same=True)


@rule('C18')
def pruning(R, tier):
    C = contexts()
    R.rules.append('pruning is started on every successful path of fit iff the option is set; every store that removes a split is guarded by: both children are leaves and both predict what the node predicts; '
                   'the summary of the pruning function, replayed over random trees, gives exactly the tree without splits that change nothing')
    for t in TREES:
        guarded(R, t + ' option', prune_option, R, C, t)
        guarded(R, t + ' removal', prune_guard, R, C, t)
        guarded(R, t + ' result', prune_result, R, tier, C, t)


def prune_option(R, C, t):
    name = '{}: pruning happens iff the option is set'.format(t)
    a, b = C.fit(t, 'ndarray', prune=True), C.fit(t, 'ndarray', prune=False)
    if a.error or b.error:
        return R.add(name, 'unknown', None, a.error or b.error)
    R.saw(a)
    e = prune_event(C, t)
    w = (a.func.module.rel, a.func.node.lineno)
    if e is None:
        # the option makes no difference in calls; does it make one in effects?
        wa = [(x.name, x.where) for x in a.evs('setattr')]
        wb = [(x.name, x.where) for x in b.evs('setattr')]
        if wa == wb:
            return R.add(name, 'refuted', w, 'no call and no store of fit depends on the pruning option')
        return R.add(name, 'unknown', w, 'pruning function not identified')
    ret = [x for x in a.evs('return') if x.fn == a.func.qualname]
    if ret and all(all(any(c is d and p == q for d, q in r.pc) for c, p in e.pc) for r in ret):
        return R.add(name, 'proved', e.where, 'called on every returning path with the option, on none without')
    extra = [(c, p) for c, p in e.pc if not all(any(c is d and p == q for d, q in r.pc) for r in ret)]
    # skipped under a further condition: harmless only if there is nothing to prune
    n = 0
    for v in fit_base(a, is_clf(t), seed=5, count=30, consts=constants(a.g, [c for c, p in extra])[:12], min_dim=1 if family(t) == 'perp' else 2):
        y, X = v[a.y], v[a.X]
        if len(y) < 4 or len(np.unique(y)) < 2 or len(np.unique(X, axis=0)) < 4:
            continue
        ev = Eval(dict(v), {}, I=a.I)
        try:
            if not all(ev._truth(ev(c)) == p for c, p in extra):
                return R.add(name, 'refuted', e.where, 'no pruning for data with {} rows and {} features'.format(*X.shape))
            n += 1
        except (CantEval, BadValue):
            return R.add(name, 'unknown', e.where, 'pruning depends on a further condition')
    return R.add(name, 'equal' if n else 'unknown', e.where, 'a further condition holds under {} interpretations'.format(n))


def leaf_conj(c, pc):
    """flattened conjunction of a path condition"""
    out = []
    work = list(pc)
    while work:
        x, p = work.pop()
        if x.op == 'and' and p or x.op == 'or' and not p:
            work += [(a, p) for a in x.args]
        elif x.op == 'not':
            work.append((x.args[0], not p))
        elif x.op == 'gamma' and p and x.args[2] is c.g.false:
            work += [(x.args[0], True), (x.args[1], True)]
        else:
            out.append((x, p))
    return out


def prune_guard(R, C, t):
    name = '{}: a split is removed only between two leaves that predict what the node predicts'.format(t)
    c = prune_ctx(C, t, 'inner')
    if c is None:
        return
    if c.error:
        return R.add(name, 'unknown', None, c.error)
    R.saw(c)
    g = c.g
    n = 0
    leafattr = 'split_value_' if family(t) == 'perp' else 'best_hyperplane_normal_'

    def val(o):
        p = c.attrs['posterior_'] if o is None else g.raw('attr0', o, 'posterior_', 0)
        return p

    for e in c.evs('setattr'):
        if e.seq < c.ctor_events:
            continue
        if e.obj is not c.obj:
            return R.add(name, 'unknown', e.where, 'stores to another node')
        cj = leaf_conj(c, e.pc)
        leaves = set()
        eqs = []
        for x, p in cj:
            if p and x.op == 'is' and x.args[1] is g.none and x.args[0].op == 'attr0' and x.args[0].args[1] == leafattr and x.args[0].args[2] == 0:
                leaves.add(x.args[0].args[0])
            if p and x.op == 'eq':
                eqs.append(set(x.args))
        kids = set(c.kids.values())
        if not kids <= leaves:
            return R.add(name, 'unknown', e.where, 'not guarded by both children being leaves')
        groups = []
        for s in eqs:
            hit = [q for q in groups if q & s]
            new = set(s)
            for q in hit:
                new |= q
                groups.remove(q)
            groups.append(new)
        pred = lambda p: (g.mk('argmax', p, g.none) if is_clf(t) else g.mk('index', p, g.const(0)))
        want = {pred(val(None))} | {pred(val(k)) for k in kids}
        if not any(want <= q for q in groups):
            return R.add(name, 'unknown', e.where, 'not guarded by equal predictions')
        n += 1
    if n:
        return R.add(name, 'proved', where_of_ctx(c), '{} stores'.format(n))
    R.add(name, 'unknown', where_of_ctx(c), 'no store')


def prune_result(R, tier, C, t):
    c = prune_ctx(C, t, 'inner')
    if c is None:
        return
    name = '{}: result of pruning'.format(t)
    if c.error:
        return R.add(name, 'unknown', None, c.error)
    e = prune_event(C, t)
    pruned_state(C, t)
    S = Mut(C, t)
    n = merged = 0
    w = where_of_ctx(c)
    base = 80 if tier == 'quick' else 600

    def cases():
        yield from trees(C, t, base, tier, depth=4, sub=17)
        r = np.random.default_rng(31)
        for tr, dims, rows in directed(C, t, S.constants()):
            if rows is None or rows < 10:
                yield tr, dims, r
    for i, (tr, dims, r) in enumerate(cases()):
        same_predictions(t, r, tr)
        want = prune_spec(t, tr)
        before = text(shape(tr))
        S.budget = 4000
        S.depth = 0
        try:
            k = prune_ctx(C, t, tr.state)
            if k.error:
                return R.add(name, 'unknown', w, k.error)
            S.mutate(k, tr, {})
        except CantEval as ex:
            if i >= base:
                continue
            return R.add(name, 'unknown', w, 'no interpretation of ' + str(ex))
        except BadValue as ex:
            return R.add(name, 'refuted', w, 'no value: {} on {}'.format(ex, before))
        except Raised as ex:
            return R.add(name, 'refuted', w, '{} on {}'.format(ex, before))
        n += 1
        got = shape(tr)
        if got != want:
            return R.add(name, 'refuted', w, '{} instead of {} for {}'.format(text(got), text(want), before))
        if text(want) != before:
            merged += 1
            Q = Sim(C, t)
            specs = [('get_n_leaves', lambda: sum(1 for x in walk(tr) if not x.kids)), ('get_depth', lambda: depth_of(tr)), ('feature_importance', lambda: importance(t, tr, dims))]
            for m, spec in specs:
                try:
                    Q.budget = 4000
                    v = Q.entry(m, tr)[0]
                except CantEval as ex:
                    continue
                except (BadValue, Raised) as ex:
                    return R.add(name, 'refuted', w, '{} after pruning: {}'.format(m, ex))
                if not np.allclose(np.asarray(v, dtype=float), np.asarray(spec(), dtype=float)):
                    return R.add(name, 'refuted', w, '{} after pruning is {} instead of {}'.format(m, v, spec()))
    R.add(name, 'equal', w, 'exactly the removable splits are removed in {} random trees, {} of them pruned'.format(n, merged))
