"""Random interpretation of value-graph terms (Gulwani/Necula): two terms with different normal forms are only reported as different if
they also differ under a random interpretation of their leaves.  Works on terms of the value graph only; the program is never run."""
import numpy as np
import scipy.sparse as sp
from scipy.special import betaln, gammaln

from .graph import is_node


class CantEval(Exception):
    pass


class BadValue(Exception):
    """the term has no value under this interpretation (e.g. index out of range)"""


def betalnv(a):
    if isinstance(a, np.ndarray) and a.ndim == 0:
        raise CantEval('betalnv of scalar')
    s = 0.0
    t = 0.0
    for x in a:
        s = s + gammaln(np.asarray(x, dtype=float))
        t = t + np.asarray(x, dtype=float)
    return s - gammaln(t)


def sphere(p, half=True):
    """an arbitrary interpretation of the symbol of the sphere mapping"""
    p = np.asarray(p, dtype=float)
    v = np.concatenate(([p.sum() - 0.4], np.sin(3 * p + np.arange(len(p)) + 0.3)))
    if half:
        v[0] = abs(v[0])
    return v / np.linalg.norm(v)


UN = {'neg': lambda a: -a, 'abs': np.abs, 'sqrt': np.sqrt, 'log': np.log, 'exp': np.exp, 'cos': np.cos, 'sin': np.sin, 'arccos': np.arccos, 'floor': np.floor, 'ceil': np.ceil,
      'tan': np.tan, 'isnan': np.isnan, 'isfinite': np.isfinite, 'isinf': np.isinf, 'sign': np.sign, 'log1p': np.log1p, 'expm1': np.expm1, 'arcsin': np.arcsin, 'rint': np.rint,
      'gammaln': lambda a: gammaln(np.asarray(a, dtype=float)), 'nan_to_num': np.nan_to_num, 'betalnv': betalnv, 'log2': np.log2, 'log10': np.log10}
BIN = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b, 'pow': lambda a, b: a ** b, 'mod': lambda a, b: a % b,
       'floordiv': lambda a, b: a // b, 'maximum': np.maximum, 'minimum': np.minimum, 'arctan2': np.arctan2,
       'betaln': lambda a, b: betaln(np.asarray(a, dtype=float), np.asarray(b, dtype=float)), 'max2': max, 'min2': min,
       'lshift': lambda a, b: a << b, 'xor': lambda a, b: a ^ b}
CMP = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'eq': lambda a, b: a == b}
RED = {'sum': np.sum, 'max': np.max, 'min': np.min, 'mean': np.mean, 'prod': np.prod, 'any': np.any, 'all': np.all, 'argmax': np.argmax, 'argmin': np.argmin}


def wider(f, x, y):
    """an operation of a small-integer array with an integer too large for it: promoted (as NumPy 1 does), no error"""
    try:
        return f(x, y)
    except OverflowError as ex:
        if 'out of bounds' not in str(ex):
            raise
        return f(*[np.asarray(v) if isinstance(v, int) else v for v in (x, y)])


def arr(x):
    if sp.issparse(x):
        raise CantEval('sparse operand')
    return x


class LoopRun:
    """result of a loop: values of its variables, and whether it was left by a return/raise (and by which)"""
    def __init__(self):
        self.vals, self.ret, self.trips, self.broke = {}, None, 0, None


NOTPURE = ('copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'shuffle', 'save', 'load', 'frombuffer', 'fromfile', 'memmap', 'genfromtxt', 'seterr', 'random', 'empty', 'set_', 'test', 'show', 'info',
           'source', 'nditer', 'vectorize', 'apply_', 'fromfunction', 'fromiter', 'piecewise', 'frompyfunc', 'printoptions', 'errstate', 'get', 'put_along_axis')
PUREMETHODS = ('argmax', 'argmin', 'argsort', 'searchsorted', 'cumsum', 'cumprod', 'sum', 'prod', 'mean', 'std', 'var', 'min', 'max', 'any', 'all', 'take', 'repeat', 'round', 'clip', 'nonzero', 'dot', 'tolist',
               'astype', 'copy', 'flatten', 'ravel', 'reshape', 'transpose', 'squeeze', 'item', 'ptp', 'conj', 'diagonal', 'trace')


SPARSEMETHODS = ('tocoo', 'tolil', 'todok', 'todia', 'getcol', 'getrow', 'getnnz', 'count_nonzero', 'nonzero', 'minimum', 'maximum', 'mean', 'multiply', 'power', 'sum', 'min', 'max', 'copy',
                 'transpose', 'dot', 'astype', 'toarray', 'todense', 'tocsr', 'tocsc', 'diagonal', 'reshape')


ONLYSPARSE = ('tocoo', 'tolil', 'todok', 'todia', 'getnnz', 'count_nonzero', 'tocsr', 'tocsc')


def library(name, method):
    """the interpretation of the symbol of a pure library function"""
    if method:
        return (lambda o, *a, **k: getattr(o, name)(*a, **k)) if name in PUREMETHODS else None
    mod, _, f = name.rpartition('.')
    if f.startswith(NOTPURE) or f.startswith('_'):
        return None
    if mod == 'numpy':
        r = getattr(np, f, None)
        return r if callable(r) and not isinstance(r, type) else None
    if mod == 'math':
        import math
        return getattr(math, f, None)
    if mod == 'numpy.linalg':
        return getattr(np.linalg, f, None)
    if mod == 'scipy.special':
        import scipy.special
        return getattr(scipy.special, f, None)
    return None


class Eval:
    MAX_ITER = 100000

    def __init__(self, leaves, opfun=None, I=None):
        self.leaves = dict(leaves)
        self.memo = {}
        self.opfun = opfun or {}
        self.I = I
        self.runs = {}

    def sub(self, extra):
        """evaluator with additional leaves"""
        lv = dict(self.leaves)
        lv.update(extra)
        e = Eval(lv, self.opfun, self.I)
        e.runs = {}
        return e

    # ------------------------------------------------------------------ loops: iterate the transition of the value graph
    def holds(self, pc):
        for c, pol in pc:
            if c.op == 'loop':
                continue
            if self._truth(self.ev(c, {})) != pol:
                return False
        return True

    def run_loop(self, L):
        if L in self.runs:
            return self.runs[L]
        I = self.I
        if I is None or L not in I.g.loops or I.g.loops[L].get('comprehension'):
            raise CantEval('fin')
        g, info = I.g, I.g.loops[L]
        start, back = info['start'], info['back']
        pos = g.raw('pos', L)
        R = LoopRun()
        keys = []                                     # (name, head node, place)
        for n in sorted(info['names']):
            m = start.env.get(n)
            if m is not None and is_node(m) and m.op == 'mu' and m.args[0] == L:
                keys.append((n, m, ('env', n)))
        for k in info['heap']:
            m = start.heap.get(k)
            if m is not None and m.op == 'mu':
                keys.append(('heap:{}:{}'.format(k[0].id, k[1]), m, ('heap', k)))
        for k in info['content']:
            m = start.content.get(k)
            if m is not None and m.op == 'mu':
                keys.append(('content:{}'.format(k.id), m, ('content', k)))

        def node_at(st, place):
            d, k = place
            v = getattr(st, d).get(k)
            return None if v is None else I.deref(v, st)
        vals = {n: self.ev(I.deref(m.args[2], info['init']), {}) for n, m, p in keys}
        trip = info['trip']
        if is_node(trip):
            t = int(self.ev(trip, {}))
        elif info['cond'] is not None:
            t = self.MAX_ITER + 1
        else:
            raise CantEval('loop without trip count')
        npc = len(info['pc']) + 1
        extra_names = sorted(n for n in info['names'] if n not in {k[0] for k in keys})
        last = None
        for k in range(t):
            if k > self.MAX_ITER:
                raise BadValue('loop does not end')
            e = self.sub({m: vals[n] for n, m, p in keys})
            e.leaves[pos] = k
            if info['cond'] is not None and not is_node(trip):
                if not e._truth(e.ev(info['cond'], {})):
                    break
            stop = False
            for kind, pc, st, v, node in info['rets']:
                if e.holds(pc[npc:]):
                    R.ret, stop = (kind, v, node), True
                    R.ret_ev = e
                    break
            if stop:
                R.trips = k
                break
            for kind, pc, st, v, node in info['breaks']:
                if e.holds(pc[npc:]):
                    stop, R.broke = True, k
                    nv = {}
                    for n, m, p in keys:
                        x = node_at(st, p)
                        nv[n] = vals[n] if x is None or x is m else e.ev(x, {})
                    for n in extra_names:
                        x = st.env.get(n)
                        if x is not None:
                            nv[n] = e.ev(I.deref(x, st), {})
                    vals = nv
                    break
            if stop:
                R.trips = k
                break
            if back is None:
                raise BadValue('loop body never completes')
            nv = {}
            for n, m, p in keys:
                x = node_at(back, p)
                nv[n] = vals[n] if x is None or x is m else e.ev(x, {})
            last = (e, k)
            vals = nv
            R.trips = k + 1
        R.vals = dict(vals)
        if last is not None and R.broke is None:
            e = last[0]
            for n in extra_names:
                x = back.env.get(n)
                if x is not None:
                    R.vals[n] = (e, I.deref(x, back))
        self.runs[L] = R
        return R

    def fin(self, n):
        R = self.run_loop(n.args[0])
        if R.ret is not None:
            raise BadValue('loop left by return')
        if n.args[1] not in R.vals:
            raise BadValue('variable {} was never set'.format(n.args[1]))
        v = R.vals[n.args[1]]
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], Eval):
            v = R.vals[n.args[1]] = v[0].ev(v[1], {})
        return v

    def __call__(self, n):
        try:
            with np.errstate(all='ignore'):
                return self.ev(n, {})
        except (CantEval, BadValue):
            raise
        except RecursionError:
            raise CantEval('too deep')
        except Exception as ex:
            raise BadValue('{}: {}'.format(type(ex).__name__, ex))

    def ev(self, n, env):
        if n is None:
            return None
        if not is_node(n):
            raise CantEval('not a node')
        if n in self.leaves:
            return self.leaves[n]
        if n.op == 'bvar':
            if n.args[0] in env:
                return env[n.args[0]]
            raise CantEval('free bvar')
        if not env:
            if n in self.memo:
                return self.memo[n]
            r = self.memo[n] = self._ev(n, env)
            return r
        return self._ev(n, env)

    def _truth(self, v):
        if isinstance(v, np.ndarray) and v.size != 1:
            raise BadValue('truth of array')
        return bool(v)

    def _ev(self, n, env):
        op, a = n.op, n.args
        E = lambda x: self.ev(x, env)
        if op in self.opfun:
            return self.opfun[op](self, n, env)
        if op == 'const':
            return a[0]
        if op == 'fin':
            return self.fin(n)
        if op == 'loopexit':
            R = self.run_loop(a[0])
            return R.ret is not None and (a[1].op == 'const' or bool(R.ret_ev._truth(R.ret_ev.ev(a[1], {}))))
        if op == 'gamma':
            return E(a[1]) if self._truth(E(a[0])) else E(a[2])
        if op == 'ext' and a[0] in ('numpy.nan', 'math.nan', 'numpy.NaN'):
            return np.nan
        if op == 'sphere':
            return sphere(*[E(x) for x in a])
        if op in UN:
            return UN[op](arr(E(a[0])))
        if op in BIN:
            x, y = E(a[0]), E(a[1])
            if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
                if isinstance(x, (list, tuple)) and not isinstance(y, (list, tuple)):
                    x = np.asarray(x)
                elif isinstance(y, (list, tuple)) and not isinstance(x, (list, tuple)):
                    y = np.asarray(y)
                else:
                    raise CantEval('sequence arithmetic')
            return wider(BIN[op], arr(x), arr(y))
        if op in CMP:
            x, y = E(a[0]), E(a[1])
            if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                if op == 'eq':
                    return x == y if isinstance(x, str) == isinstance(y, str) else False
            return CMP[op](arr(x), arr(y))
        if op == 'not':
            v = E(a[0])
            return np.logical_not(v) if isinstance(v, np.ndarray) else not v
        if op in ('and', 'or'):
            x = E(a[0])
            if not isinstance(x, np.ndarray):
                if op == 'and' and not x:
                    return x
                if op == 'or' and x:
                    return x
                return E(a[1])
            return (np.logical_and if op == 'and' else np.logical_or)(x, E(a[1]))
        if op == 'truth':
            v = E(a[0])
            if isinstance(v, (list, tuple, str, dict)):
                return len(v) > 0
            return self._truth(v)
        if op == 'nonempty':
            return E(a[0]) > 0
        if op == 'is':
            x, y = E(a[0]), E(a[1])
            if y is None:
                return x is None
            if x is None:
                return False
            if isinstance(y, bool) and isinstance(x, bool):
                return x is y
            if type(x).__name__ == 'N' and type(y).__name__ == 'N':
                return x is y
            raise CantEval('is')
        if op in ('call', 'mcall') and isinstance(a[1], tuple):
            f = library(a[0], op == 'mcall')
            if f is None and not (op == 'mcall' and a[0] in SPARSEMETHODS):
                raise CantEval(a[0])
            vals = [E(x) for x in a[2:]]
            vals = [v.copy() if isinstance(v, np.ndarray) else v for v in vals]
            if op == 'mcall' and a[0] in ONLYSPARSE and isinstance(vals[0], np.ndarray) and vals[0].dtype != object and vals[0].ndim in (1, 2):
                vals[0] = sp.csc_matrix(vals[0].reshape(-1, 1) if vals[0].ndim == 1 else vals[0])       # a column of a sparse matrix is interpreted as its entries
            if op == 'mcall' and sp.issparse(vals[0]) and a[0] in SPARSEMETHODS and not any(type(v).__name__ in ('N', 'Cell') for v in vals):
                try:
                    return getattr(vals[0].copy(), a[0])(*vals[1:len(vals) - len(a[1])], **dict(zip(a[1], vals[len(vals) - len(a[1]):])))
                except Exception as ex:
                    raise BadValue('{}: {}: {}'.format(a[0], type(ex).__name__, ex))
            if f is None or any(type(v).__name__ in ('N', 'Cell') or sp.issparse(v) for v in vals):
                raise CantEval(a[0])
            if op == 'mcall' and not isinstance(vals[0], (np.ndarray, np.generic)):
                raise CantEval(a[0])
            k = len(vals) - len(a[1])
            try:
                return f(*vals[:k], **dict(zip(a[1], vals[k:])))
            except (CantEval, BadValue):
                raise
            except Exception as ex:
                raise BadValue('{}: {}: {}'.format(a[0], type(ex).__name__, ex))
        if op in ('tuple',):
            return tuple(E(x) for x in a)
        if op in ('list',):
            return [E(x) for x in a]
        if op == 'dim':
            v = E(a[0])
            if isinstance(v, (list, tuple, range, str)):
                if a[1] == 0:
                    return len(v)
                v = np.asarray(v)
            return v.shape[a[1]]
        if op == 'size':
            return np.size(E(a[0]))
        if op == 'ndim':
            return np.ndim(E(a[0]))
        if op == 'shape':
            return E(a[0]).shape
        if op == 'slice':
            return slice(*[None if v is None else int(v) for v in (E(x) for x in a)])
        if op == 'index':
            v, i = E(a[0]), E(a[1])
            if isinstance(v, (list, tuple)) and not isinstance(i, (int, np.integer, slice)):
                v = np.asarray(v)
            if isinstance(v, range) or isinstance(v, (list, tuple)):
                return v[int(i)] if not isinstance(i, slice) else v[i]
            if isinstance(i, list):
                i = np.asarray(i)
            return v[i]
        if op == 'toarray':
            v = E(a[0])
            return v.toarray() if sp.issparse(v) else v
        if op == 'csc':
            return sp.csc_matrix(E(a[0]))
        if op == 'csr':
            return sp.csr_matrix(E(a[0]))
        if op in RED:
            v = E(a[0])
            ax = E(a[1]) if len(a) > 1 else None
            if isinstance(v, range):
                v = list(v)
            v = np.asarray(v) if not isinstance(v, np.ndarray) and not sp.issparse(v) else v
            if sp.issparse(v):
                raise CantEval('reduction of sparse')
            if v.dtype == object and op == 'sum' and v.ndim == 1:
                r = 0
                for x in v:
                    r = r + x
                return r
            return RED[op](v, axis=ax)
        if op == 'cumsum':
            return np.cumsum(arr(E(a[0])))
        if op == 'diff':
            return np.diff(arr(E(a[0])))
        if op == 'argsort':
            return np.argsort(arr(E(a[0])), axis=E(a[1]) if len(a) > 1 else -1, kind='stable')
        if op == 'sort':
            v = E(a[0])
            return sorted(v) if isinstance(v, list) else np.sort(v)
        if op == 'nonzero':
            v = np.atleast_1d(np.asarray(E(a[0])))
            if v.ndim != 1:
                raise CantEval('nonzero of rank != 1')
            return np.nonzero(v)[0]
        if op == 'isin':
            return np.isin(E(a[0]), E(a[1]))
        if op == 'unique':
            return np.unique(E(a[0]))
        if op == 'asset':
            return set(np.asarray(E(a[0])).tolist())
        if op == 'bincount':
            return np.bincount(np.asarray(E(a[0])).astype(int), minlength=int(E(a[1])))
        if op == 'matmul':
            x, y = E(a[0]), E(a[1])
            return x @ np.asarray(y)
        if op == 'norm':
            return np.linalg.norm(E(a[0]), axis=E(a[1]) if len(a) > 1 else None)
        if op in ('zeros', 'ones', 'empty'):
            sh = E(a[0])
            dt = 'float64'
            if len(a) > 1 and is_node(a[1]):
                try:
                    dt = str(E(a[1]))
                    np.dtype(dt)
                except (CantEval, TypeError):
                    dt = 'float64'
            if op == 'empty' and dt == 'object':
                return np.empty(sh, dtype=object)
            if dt == 'object':
                dt = 'float64'
            return np.ones(sh, dtype=dt) if op == 'ones' else np.zeros(sh, dtype=dt)
        if op == 'full':
            return np.full(E(a[0]), E(a[1]))
        if op == 'arange':
            return np.arange(*[E(x) for x in a])
        if op == 'range':
            return range(*[int(E(x)) for x in a])
        if op in ('astuple', 'aslist', 'asarray', 'copy', 'item', 'values'):
            v = E(a[0])
            if op == 'asarray':
                return np.asarray(v)
            if op == 'item':
                return np.asarray(v).item()
            if op == 'astuple':
                return tuple(v) if isinstance(v, (list, tuple, np.ndarray)) and np.ndim(v) > 0 else v if not getattr(self, 'exact', False) else tuple(v)
            if op == 'aslist':
                return list(v) if isinstance(v, (list, tuple, np.ndarray)) and np.ndim(v) > 0 else v if not getattr(self, 'exact', False) else list(v)
            return v
        if op == 'astype':
            v = E(a[0])
            dt = E(a[1])
            if not isinstance(dt, str):
                raise CantEval('dtype')
            return np.asarray(v).astype(dt) if isinstance(v, (int, float, bool)) or not hasattr(v, 'astype') else v.astype(dt)
        if op == 'T':
            return E(a[0]).T
        if op == 'reshape':
            return np.reshape(arr(E(a[0])), E(a[1]))
        if op == 'ravel':
            return np.ravel(arr(E(a[0])))
        if op == 'squeeze':
            return np.squeeze(arr(E(a[0])), axis=E(a[1]) if len(a) > 1 else None)
        if op == 'expand_dims':
            return np.expand_dims(E(a[0]), E(a[1]))
        if op == 'broadcast_to':
            return np.broadcast_to(E(a[0]), E(a[1]))
        if op == 'vstack':
            return np.vstack(E(a[0]))
        if op == 'columnstack':
            return np.column_stack(E(a[0]))
        if op == 'concat':
            return np.concatenate([np.atleast_1d(x) for x in E(a[0])])
        if op == 'where':
            return np.where(*[E(x) for x in a])
        if op == 'clip':
            return np.clip(*[E(x) for x in a])
        if op == 'round':
            return np.round(*[E(x) for x in a])
        if op == 'int':
            return int(E(a[0]))
        if op == 'float':
            return float(E(a[0]))
        if op == 'map':
            k, trip, body, conds = a
            out = []
            for i in range(int(E(trip))):
                e2 = dict(env)
                e2[k] = i
                if all(self._truth(self.ev(c, e2)) for c in conds):
                    out.append(self.ev(body, e2))
            return out
        if op == 'fill':
            init, k, trip, idx, val = a
            v = E(init)
            v = v.copy() if isinstance(v, np.ndarray) else list(v)
            for i in range(int(E(trip))):
                e2 = dict(env)
                e2[k] = i
                j = self.ev(idx, e2)
                v[j] = self.ev(val, e2)
            return v
        if op == 'setitem':
            v = E(a[0])
            v = v.copy() if isinstance(v, np.ndarray) else list(v)
            v[E(a[1])] = E(a[2])
            return v
        if op == 'listcat':
            return list(E(a[0])) + list(E(a[1]))
        if op in ('enumerate',):
            return list(enumerate(E(a[0]), E(a[1])))
        if op == 'zip':
            return list(zip(*[E(x) for x in a]))
        if op == 'text':
            return ''.join(E(x) if x.op != 'fmt' else self.fmt(x, env) for x in a)
        if op == 'fmt':
            return self.fmt(n, env)
        if op == 'join':
            return E(a[0]).join(E(a[1]))
        if op == 'percent':
            return E(a[0]) % E(a[1])
        if op == 'seqmul':
            return E(a[0]) * int(E(a[1]))
        if op == 'str':
            return str(E(a[0]))
        if op == 'dtype':
            return str(np.asarray(E(a[0])).dtype)
        if op == 'item':
            return np.asarray(E(a[0])).item()
        if op == 'set':
            return set(E(x) for x in a)
        if op == 'nnz':
            v = E(a[0])
            if not sp.issparse(v):
                raise CantEval(op)
            return v.nnz
        if op in ('extm', 'attr0') and len(a) >= 2 and a[1] in ('data', 'nnz', 'indices', 'indptr', 'row', 'col', 'A', 'real', 'flat', 'size'):
            v = E(a[0])
            if isinstance(v, np.ndarray) and a[1] == 'data' or not (sp.issparse(v) or isinstance(v, np.ndarray)):
                raise CantEval(op)
            if not hasattr(v, a[1]):
                raise BadValue('no attribute ' + a[1])
            return getattr(v, a[1])
        if op in ('trip', 'elem'):
            v = E(a[0])
            if not isinstance(v, (list, tuple, range, np.ndarray)):
                raise CantEval(op)
            return len(v) if op == 'trip' else v[int(E(a[1]))]
        raise CantEval(op)

    def fmt(self, n, env):
        v = self.ev(n.args[0], env)
        if n.args[2]:
            v = {'r': repr, 's': str, 'a': ascii}[n.args[2]](v)
        return format(v, n.args[1])


def same(x, y, tol=1e-7):
    if x is None or y is None:
        return x is y
    if isinstance(x, str) or isinstance(y, str):
        return isinstance(x, str) and isinstance(y, str) and x == y
    if sp.issparse(x):
        x = x.toarray()
    if sp.issparse(y):
        y = y.toarray()
    if isinstance(x, set) or isinstance(y, set):
        return x == y
    try:
        x, y = np.asarray(x), np.asarray(y)
    except ValueError:
        if len(x) != len(y):
            return False
        return all(same(p, q, tol) for p, q in zip(x, y))
    if x.dtype == object or y.dtype == object:
        if x.shape[:1] != y.shape[:1]:
            return False
        if x.ndim == 0:
            return x.item() is y.item() or x.item() == y.item()
        return all(same(p, q, tol) for p, q in zip(x, y))
    if x.shape != y.shape:
        return False
    if x.dtype.kind in 'bui' and y.dtype.kind in 'bui':
        return bool(np.array_equal(x, y))
    with np.errstate(all='ignore'):
        return bool(np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True))


def compare(x, y, valuations, tol=1e-7, opfun=None):
    """'equal' / ('different', description) / ('unknown', reason)"""
    n = 0
    for leaves in valuations:
        E = Eval(leaves, opfun)
        try:
            vy = E(y)
        except CantEval as ex:
            return 'unknown', 'specification term: ' + str(ex)
        except BadValue as ex:
            continue                     # outside the domain of the specification
        try:
            vx = E(x)
        except CantEval as ex:
            return 'unknown', 'no interpretation of ' + str(ex)
        except BadValue as ex:
            return 'different', 'no value ({})'.format(ex)
        n += 1
        if not same(vx, vy, tol):
            return 'different', 'interpretation {}: {} instead of {}'.format(n, short(vx), short(vy))
    return ('equal', '{} interpretations'.format(n)) if n else ('unknown', 'no interpretation in the domain')


def short(v):
    s = repr(v).replace('\n', ' ')
    return s if len(s) < 120 else s[:117] + '...'
