"""May-alias analysis on value-graph terms: which objects' storage may a value share."""
from .graph import is_node

VIEW = {'T', 'reshape', 'ravel', 'squeeze', 'expand_dims', 'broadcast_to', 'asarray', 'values', 'astype_nocopy', 'swapaxes', 'transpose', 'atleast_1d'}
SCALAR = {'int', 'float', 'str', 'bool', 'none', 'slice'}


def roots(n, g, content=None, deep=False, depth=0, seen=None):
    """nodes (parameters, attributes of objects, default objects) whose storage the value n may share; None in the set: unknown"""
    if seen is None:
        seen = set()
    if not is_node(n) or n in seen or depth > 60:
        return set()
    seen.add(n)
    op = n.op
    R = lambda x: roots(x, g, content, deep, depth + 1, seen)
    if op in ('const', 'cls', 'fn', 'ext', 'extm', 'bound', 'lam', 'pos', 'bvar'):
        return set()
    if op != 'gamma' and g.kind(n) in SCALAR:
        return set()
    if op in ('param', 'attr0', 'default', 'undef', 'global', 'classvar', 'clsattr'):
        return {n}
    if op == 'gamma':
        return R(n.args[1]) | R(n.args[2])
    if op in ('mu',):
        return R(n.args[2]) if len(n.args) > 2 and is_node(n.args[2]) else set()
    if op == 'index':
        i = n.args[1]
        if basic_index(i, g):
            return R(n.args[0])
        return set()
    if op in VIEW:
        return R(n.args[0])
    if op == 'ref':
        c = (content or {}).get(n)
        if deep and c is not None and g.kind(c) != 'ndarray':
            return R(c)
        return set()
    if deep and op in ('list', 'tuple', 'aslist', 'astuple', 'map', 'fill', 'setitem', 'listcat', 'dict', 'seqmul', 'zip'):
        if g.kind(n) == 'ndarray':
            return set()
        out = set()
        for a in n.args:
            if is_node(a):
                out |= R(a)
        return out
    if op in ('aslist', 'astuple', 'copy', 'new', 'ref', 'cell'):
        return set()
    return set()


def basic_index(i, g):
    """indexing that yields a view (integers, slices)"""
    if i.op == 'tuple':
        return all(basic_index(x, g) for x in i.args)
    if i.op == 'slice' or g.kind(i) in ('int', 'slice', 'none'):
        return True
    if i.op in ('const', 'pos', 'bvar'):
        return True
    return False


WRITES = ('setitem', 'inplace', 'listmut')


def writes(events):
    for e in events:
        if e.kind in WRITES:
            yield e, e.target
