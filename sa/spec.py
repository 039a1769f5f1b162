"""Normal forms of the specification: functions of specsrc.py interpreted over nodes of a context's graph, and their Python values."""
import os
import sys

from .interp import State
from .loader import Module

HERE = os.path.dirname(os.path.abspath(__file__))
_mod = None


def module():
    global _mod
    if _mod is None:
        m = Module('verif_spec', os.path.join(HERE, 'specsrc.py'))
        m.rel = 'specification'
        _mod = m
    return _mod


from . import specsrc as py          # noqa: E402  (the Python values; specsrc never imports the package)


class Spec:
    def __init__(self, ctx):
        self.c = ctx
        I = ctx.I
        m = module()
        if 'verif_spec' not in I.P.modules:
            I.P.modules['verif_spec'] = m
        I.opaque[m.functions['multivariate_betaln'].node] = 'betalnv'
        I.opaque[m.functions['hypercube_to_hypersphere_surface'].node] = 'sphere'

    def nf(self, name, *args, state=None):
        """normal form of specification function `name` applied to nodes (None if the interpreter has no answer)"""
        I = self.c.I
        f = module().functions[name]
        names = [a.arg for a in f.node.args.args]
        g = I.g
        nodes = [a if hasattr(a, 'op') else g.const(a) for a in args]
        I.mutes += 1
        try:
            st, v = I.run(f, None, dict(zip(names, nodes)), state.copy() if state is not None else State())
            if st is None:
                return None
            return I.deref(v, st)
        except Exception:
            return None
        finally:
            I.mutes -= 1
