"""Which rules decide which property."""
import traceback

from .contexts import Contexts, TREES, family
from .loader import AnchorError
from .report import Report

_C = None


def contexts():
    global _C
    if _C is None:
        _C = Contexts()
    return _C


def guarded(R, name, f, *a):
    """an analysis that gives up is recorded as unknown; it is no verdict about the code"""
    try:
        return f(*a)
    except AnchorError:
        raise
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        R.add(name, 'unknown', None, 'analysis gave up: {}: {} ({}:{})'.format(type(ex).__name__, str(ex)[:200], tb.filename.split('/')[-1], tb.lineno))


def steps(R, tier, prop, trees=TREES):
    from .rules_fit import KINDS, StepCheck
    C = contexts()
    for t in trees:
        for k in KINDS:
            for inner in (False, True):
                if inner and k == 'csr':
                    continue                      # the recursion always sees csc or ndarray
                prune = None if prop == 'C09' and inner else False          # None: any value
                s = C.cache.get(('stepcheck', t, k, inner, prune)) or StepCheck(C, t, k, inner, tier=tier, prune=prune)
                C.cache[('stepcheck', t, k, inner, prune)] = s
                guarded(R, s.label, s.check, prop, R)
        s = StepCheck(C, t, 'ndarray', False, prior=False, tier=tier)
        s.label = '{} ndarray root, default prior'.format(t)
        guarded(R, s.label, s.check, prop, R)


PERP = [t for t in TREES if family(t) == 'perp']

RULES = {}


def rule(*props):
    def deco(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return deco


for p in ('C03', 'C05', 'C06', 'C07', 'C08', 'C09'):
    RULES.setdefault(p, []).append(lambda R, tier, p=p: steps(R, tier, p))
for p in ('C04', 'C24'):
    RULES.setdefault(p, []).append(lambda R, tier, p=p: steps(R, tier, p, PERP))


def run(prop, R, tier):
    from . import rules_query, rules_life, rules_examples, rules_obj, rules_opt, rules_state, rules_sphere, rules_raw, rules_version        # noqa: F401
    if prop not in RULES:
        raise SystemExit('no rules for ' + prop)
    for f in RULES[prop]:
        guarded(R, getattr(f, '__name__', 'rules'), f, R, tier)
