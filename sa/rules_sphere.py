"""C22: the mapping of hypercube points onto the sphere, by an abstract interpretation of its value-graph summary for given numbers of dimensions."""
import ast

import numpy as np

from .loader import Func
from .registry import contexts, guarded, rule
from .rules_state import sphere_function
from .sphere import Abstract, Elem, TooBig, abstract_points, as_rows, p_add, p_key, p_mul, p_const, summary
from .vals import constants
from .termeval import BadValue, CantEval, Eval, short


@rule('C22')
def onto_the_sphere(R, tier):
    C = contexts()
    R.rules.append('summary of the mapping for D = 1..{} as array terms; abstract interpretation with elements (term, dependences, interval, polynomial normal form): the squares of the '
                   'coordinates of every vector add up to 1 algebraically; each vector depends on all coordinates of its own point and on nothing else; with the half sphere requested the '
                   'first coordinate has a lower bound of 0; deviating terms by random interpretation'.format(9 if tier == 'thorough' else 6))
    f = sphere_function(C)
    if f is None:
        return R.add('mapping to the sphere', 'unknown', None, 'function not found')
    R.analysed.add(f.qualname)
    for D in range(1, 10 if tier == 'thorough' else 7):
        for half in (True, False):
            for rank, N in ((1, 1), (2, 1), (2, 2), (2, 3)):
                name = 'D={}, {}{}'.format(D, 'a plain vector' if rank == 1 else '{} points'.format(N), ', half sphere' if half else '')
                guarded(R, name, one, R, C, f, D, rank, N, half, name)
    # numbers of dimensions and points at which the code may behave differently: around the numbers that occur in it
    ks = sorted({x.value for q in reached(C, f) for x in ast.walk(q.node) if isinstance(x, ast.Constant) and isinstance(x.value, int) and not isinstance(x.value, bool) and x.value > 2})
    more = sorted({D for k in ks if k <= 60 for D in (k - 1, k, k + 1, 2 * k - 1, 2 * k, 2 * k + 1, 2 * k + 2) if D > 6})
    for D in more[:24]:
        for half in (True, False):
            name = 'D={}, 3 points{}'.format(D, ', half sphere' if half else '')
            guarded(R, name, one, R, C, f, D, 2, 3, half, name)
    for D in range(1, 5):
        for half in (True, False):
            c = summary(C, f, D, 2, half)
            if c.error:
                continue
            for N in sorted({n for k in list(constants(c.g, [c.value])) + ks if 6 < k <= 200000 and k == int(k) for n in ((int(k), int(k) + 1) if k < 3000 else (int(k) + 1,))})[:12]:
                name = 'D={}, {} points{}'.format(D, N, ', half sphere' if half else '')
                guarded(R, name, many, R, c, D, N, half, name)


def reached(C, f):
    """the function and the functions of its module that it calls"""
    out, work = [], [f]
    while work:
        q = work.pop()
        if q in out:
            continue
        out.append(q)
        for x in ast.walk(q.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                t = q.module.functions.get(x.func.id)
                if isinstance(t, Func):
                    work.append(t)
    return out


def many(R, c, D, N, half, name):
    """random interpretation for a large number of points"""
    where = c.value.loc
    rng = np.random.RandomState(N % 1000 + D)
    u = rng.rand(N, D)
    try:
        v, sh = numbers(c, u, N, D)
        w, _ = numbers(c, u[-2:], 2, D)
    except CantEval as ex:
        return R.add(name, 'unknown', where, str(ex))
    except BadValue as ex:
        return R.add(name, 'refuted', where, 'no value for {} points: {}'.format(N, ex))
    if v is None:
        return R.add(name, 'refuted', where, 'the shape for {} points of {} dimensions is {}'.format(N, D, sh))
    v = v.astype(float)
    if not np.allclose((v ** 2).sum(axis=1), 1, rtol=0, atol=1e-9):
        k = int(np.argmax(np.abs((v ** 2).sum(axis=1) - 1)))
        return R.add(name, 'refuted', where, 'the vector of {} has length {}'.format(short(u[k]), short(np.sqrt((v[k] ** 2).sum()))))
    if w is not None and not np.allclose(v[-2:], w.astype(float), rtol=0, atol=1e-9):
        return R.add(name, 'refuted', where, 'the vector of {} depends on the number of points'.format(short(u[-1])))
    if half and (v[:, 0] < -1e-12).any():
        return R.add(name, 'refuted', where, 'negative first coordinate')
    R.add(name, 'equal', where, 'random interpretation')


def samples(N, D, rank, count=40):
    rng = np.random.RandomState(20 + D)
    out = []
    for k in range(count):
        u = rng.rand(N, D)
        if k % 4 == 1:
            u = rng.choice([0.0, 1.0, 0.5, 0.25, 0.75], size=(N, D))
        elif k % 4 == 2:
            u[:, rng.randint(D)] = rng.choice([0.0, 1.0, 1e-9, 1 - 1e-9])
        elif k % 4 == 3:
            u[:] = rng.choice([0.0, 1.0], size=(N, D)) if k % 8 == 3 else u[:1]
        out.append(u[0] if rank == 1 else u)
    return out


def one(R, C, f, D, rank, N, half, name):
    loc = (f.module.rel, f.node.lineno)
    c = summary(C, f, D, rank, half)
    if c.error:
        return R.add(name, 'unknown', loc, c.error)
    where = c.value.loc or loc
    allowed(R, c, N, D, rank, half, name, loc)
    rows = why = None
    try:
        rows = as_rows(Abstract({c.points: abstract_points(N, D, rank)}, I=c.I)(c.value), N, D)
        if rows is None:
            why = 'shape'
    except (CantEval, BadValue) as ex:
        why = str(ex)
    unit(R, c, rows, why, N, D, rank, name, where)
    own_point(R, c, rows, why, N, D, rank, name, where)
    if half:
        positive(R, c, rows, why, N, D, rank, name, where)
    elif rows is not None and rank == 2 and N == 1:
        lo = min(e.lo if isinstance(e, Elem) else e for e in rows[:, 0])
        R.add('{}: the whole sphere'.format(name), 'refuted' if lo >= 0 else 'proved', where, 'the first coordinate is never below {:.3g}'.format(lo))


def allowed(R, c, N, D, rank, half, name, loc):
    """no point of the hypercube is rejected"""
    for e in c.I.events:
        if e.kind not in ('assert', 'raise'):
            continue
        for u in samples(N, D, rank):
            E = Eval({c.points: u}, I=c.I)
            try:
                if not E.holds([p for p in e.pc]):
                    continue
                if e.kind == 'raise' or not E._truth(E(e.cond)):
                    return R.add('{}: no point is rejected'.format(name), 'refuted', e.where, 'the point {} is rejected'.format(short(u)))
            except (CantEval, BadValue):
                break
    R.add('{}: no point is rejected'.format(name), 'proved', loc, 'no rejecting path')


def numbers(c, u, N, D):
    v = Eval({c.points: u}, I=c.I)(c.value)
    return as_rows(v, N, D), np.shape(v)


def unit(R, c, rows, why, N, D, rank, name, where):
    name += ': length one'
    if rows is not None:
        try:
            for r in rows:
                s = {}
                for e in r:
                    p = e.poly() if isinstance(e, Elem) else p_const(e)
                    s = p_add(s, p_mul(p, p))
                if p_key(s) != p_key(p_const(1)):
                    why = 'the sum of squares is no constant'
                    break
            else:
                return R.add(name, 'proved', where, 'the squares of {} coordinates add up to 1'.format(D + 1))
        except TooBig:
            why = 'terms too large'
    n = 0
    for u in samples(N, D, rank):
        try:
            v, sh = numbers(c, u, N, D)
        except CantEval as ex:
            return R.add(name, 'unknown', where, '{}; {}'.format(why, ex))
        except BadValue as ex:
            return R.add(name, 'refuted', where, 'no value for {}: {}'.format(short(u), ex))
        if v is None:
            return R.add(name, 'refuted', where, 'the shape for {} points of {} dimensions is {}'.format(N, D, sh))
        if not np.allclose((v.astype(float) ** 2).sum(axis=1), 1, rtol=0, atol=1e-9):
            return R.add(name, 'refuted', where, 'the vector of {} has length {}'.format(short(u), short(np.sqrt((v.astype(float) ** 2).sum(axis=1)))))
        n += 1
    R.add(name, 'equal', where, '{} interpretations ({})'.format(n, why))


def atoms(p, out):
    """coordinates u[i, j] that occur in a normal form"""
    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'u':
                out.add((x[1], x[2]))
            for y in x:
                walk(y)
    for m in p:
        walk(m)


def own_point(R, c, rows, why, N, D, rank, name, where):
    name += ': all coordinates of its own point'
    if rows is not None:
        try:
            ok = True
            for i, r in enumerate(rows):
                own = {(i, j) for j in range(D)}
                deps, occ = set(), set()
                for e in r:
                    if isinstance(e, Elem):
                        deps |= e.deps
                        atoms(e.poly(), occ)
                if own - deps:
                    return R.add(name, 'refuted', where, 'the vector of point {} does not depend on coordinate {}'.format(i, sorted(own - deps)[0][1]))
                ok = ok and deps == own and occ >= own
                if not deps <= own:
                    why = 'depends on point {}'.format(sorted(deps - own)[0][0])
            if ok:
                return R.add(name, 'proved', where, 'dependences of {} vectors'.format(N))
        except TooBig:
            why = 'terms too large'
    rng = np.random.RandomState(3)
    used = np.zeros(D, bool)
    for u in samples(N, D, rank):
        try:
            v, sh = numbers(c, u, N, D)
            if v is None:
                return R.add(name, 'unknown', where, 'shape')
            for j in range(D):
                w = np.array(u, float)
                if rank == 1:
                    w[j] = rng.rand()
                else:
                    w[N - 1, j] = rng.rand()
                x, sh = numbers(c, w, N, D)
                if x is None:
                    return R.add(name, 'unknown', where, 'shape')
                if N > 1 and not np.allclose(x[:N - 1].astype(float), v[:N - 1].astype(float), atol=1e-12, equal_nan=True):
                    return R.add(name, 'refuted', where, 'the vector of a point changes with coordinate {} of another point'.format(j))
                used[j] |= not np.allclose(x[N - 1].astype(float), v[N - 1].astype(float), rtol=0, atol=1e-12)
        except (CantEval, BadValue) as ex:
            return R.add(name, 'unknown', where, '{}; {}'.format(why, ex))
    if not used.all():
        return R.add(name, 'refuted', where, 'coordinate {} of the points has no effect'.format(int(np.argmin(used))))
    R.add(name, 'equal', where, 'random interpretation ({})'.format(why))


def positive(R, c, rows, why, N, D, rank, name, where):
    name += ': first coordinate not negative'
    if rows is not None:
        lo = min(e.lo if isinstance(e, Elem) else e for e in rows[:, 0])
        if lo >= 0:
            return R.add(name, 'proved', where, 'lower bound {:.3g}'.format(lo))
        why = 'lower bound {:.3g}'.format(lo)
    for u in samples(N, D, rank, 200):
        try:
            v, sh = numbers(c, u, N, D)
        except (CantEval, BadValue) as ex:
            return R.add(name, 'unknown', where, '{}; {}'.format(why, ex))
        if v is None:
            return R.add(name, 'unknown', where, 'shape')
        if (v[:, 0].astype(float) < -1e-12).any():
            return R.add(name, 'refuted', where, 'the first coordinate of the vector of {} is {}'.format(short(u), short(v[:, 0])))
    R.add(name, 'equal', where, 'random interpretation ({})'.format(why))
