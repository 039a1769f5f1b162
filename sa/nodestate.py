"""Attribute states of nodes that a successful fit can produce, derived from the final heaps of the training contexts."""
import numpy as np

from .contexts import TREES, family, is_clf
from .fitmodel import UNSET, Rec
from .graph import is_node
from .report import Skip
from .rules_fit import StepCheck
from .termeval import BadValue, CantEval


class Attr:
    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value           # const / child / value / unset / trained

    def __repr__(self):
        return '{}{}'.format(self.kind, '' if self.value is None else ':{}'.format(self.value))


def describe(v):
    if isinstance(v, np.ndarray):
        return ('ndarray', v.ndim, str(v.dtype))
    if isinstance(v, (tuple, list)):
        return (type(v).__name__, 1, None)
    if isinstance(v, str):
        return ('str', 0, None)
    if isinstance(v, (bool, np.bool_)):
        return ('bool', 0, None)
    if isinstance(v, (int, np.integer)):
        return ('int', 0, None)
    if isinstance(v, (float, np.floating)):
        return ('float', 0, None)
    return ('obj', 0, None)


class NodeStates:
    """states: {name: {attr: set of alternatives}}"""
    def __init__(self, C, tname, tier='quick'):
        self.C, self.tname = C, tname
        self.error = None
        self.states = {'leaf': {}, 'inner': {}, 'leaf child': {}, 'trained child': {}}
        self.where = {}
        self.n = {k: 0 for k in self.states}
        self.sigs = {}                                # (state, below the root?) -> set of frozensets of (attribute, 'set' / 'none')
        for inner in (False, True):
            self.collect(C, tname, inner)

    def collect(self, C, tname, inner):
        key = ('stepcheck', tname, 'ndarray', inner, True)
        s = C.cache.get(key)
        if s is None:
            s = C.cache[key] = StepCheck(C, tname, 'ndarray', inner)
        if s.error:
            self.error = s.error
            return
        if not hasattr(s, 'ok'):
            s.prove()
        s.clf  # noqa
        m = s.m
        ctor = {a for (o, a) in s.c.after_ctor.heap if o is s.c.obj} if hasattr(s.c, 'after_ctor') else {a for (o, a) in m.heap if o is s.c.obj and m.heap[(o, a)] in s.c.params.values()}
        self.ctor = ctor
        done = {k: 0 for k in self.states}
        for sc in s.scenarios():
            o = sc.o
            st = 'inner' if o.split else 'leaf'
            if done[st] < 60:
                done[st] += 1
                self.n[st] += 1
                self.note(st, self.read(s, o, s.c.obj), inner)
            if o.split:
                for i in (1, 2):
                    if is_node(o.k[i]):
                        st = 'leaf child' if o.rcall(i) is None else 'trained child'
                        if done[st] < 60:
                            done[st] += 1
                            self.n[st] += 1
                            self.note(st, self.read(s, o, o.k[i]), True)

    def read(self, s, o, obj):
        out = {}
        m = s.m
        for (ob, a), t in m.heap.items():
            if ob is not obj:
                continue
            n = m.pick(t, o.ev)
            if n.op == 'undef':
                out[a] = Attr('unset')
            elif n.op == 'attr0' and n.args[0].op == 'new' and m.I.type_of(n.args[0]) is m.cls:
                out[a] = Attr('trained')
            elif n.op == 'new':
                out[a] = Attr('child') if m.I.type_of(n) is m.cls else Attr('value', ('obj', None, None))
            elif n.op == 'const':
                out[a] = Attr('const', n.args[0])
            else:
                try:
                    v = o.ev(n)
                    out[a] = Attr('const', None) if v is None else Attr('value', describe(v))
                except (CantEval, BadValue):
                    out[a] = Attr('value', ('obj', None, None))
        return out

    def note(self, st, attrs, below):
        if len(self.sigs.setdefault((st, below), set())) < 40:
            self.sigs[(st, below)].add(frozenset((a, 'none' if v.kind == 'const' and v.value is None else 'set') for a, v in attrs.items() if v.kind != 'unset'))
        d = self.states[st]
        n = self.n[st]
        for a in set(d) | set(attrs):
            v = attrs.get(a)
            if a not in d:
                d[a] = {}
                if n > 1:
                    d[a][('unset', 'None')] = Attr('unset')
            if v is None:
                v = Attr('unset')
            d[a][(v.kind, repr(v.value))] = v

    def known(self):
        """all attributes that some node has"""
        return {a for d in self.states.values() for a in d}

    def leaf_states(self):
        """attribute sets of leaves: {origin: {attr: [alternatives]}}"""
        out = {}
        for k in ('leaf', 'leaf child', 'inner'):
            if self.states[k]:
                out[k] = {a: list(v.values()) for a, v in self.states[k].items()}
        return out
