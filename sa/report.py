"""Obligations and their verdicts.

proved   the normal form of the code's value-graph term is the normal form of the specification (or a structural rule is satisfied)
equal    normal forms differ, and random interpretation of both terms finds no difference: not an alarm, recorded as such
unknown  the analysis has no answer (construct without a model): not an alarm, recorded as such
refuted  the rule is violated / the terms differ under an interpretation: alarm
"""
import json
import os
import time

import numpy as np

from .graph import is_node
from .termeval import BadValue, CantEval, Eval, same, short

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Skip(Exception):
    """valuation outside the domain of the specification"""


class Report:
    def __init__(self, prop, tier='quick'):
        self.prop = prop
        self.tier = tier
        self.obs = []
        self.analysed = set()
        self.t0 = time.time()
        self.rules = []
        self.seen = set()

    # ------------------------------------------------------------------ recording
    def add(self, name, status, where=None, detail='', rule=None):
        if isinstance(where, tuple):
            where = '{}:{}'.format(*where)
        self.obs.append(dict(obligation=name, status=status, where=where or '', detail=detail))
        return status

    def fact(self, name, ok, where=None, detail=''):
        """structural rule: ok True / False / None (no answer)"""
        return self.add(name, {True: 'proved', False: 'refuted', None: 'unknown'}[ok], where, detail)

    def saw(self, ctx):
        I = getattr(ctx, 'I', None)
        if I is not None:
            self.analysed |= set(I.funcs_seen)

    def violations(self):
        return [o for o in self.obs if o['status'] == 'refuted']

    # ------------------------------------------------------------------ comparing terms
    def eq(self, name, code, spec, vals, where=None, canon=None, tol=1e-9, opfun=None):
        """code: node;  spec: node, or (python function, [argument nodes], normal form or None);  vals: list of leaf valuations"""
        if not is_node(code):
            return self.add(name, 'unknown', where, 'no term')
        if is_node(spec):
            nf, fn, args = spec, None, None
        else:
            fn, args, nf = spec
        if where is None and code.loc:
            where = code.loc
        if nf is not None and code is nf:
            return self.add(name, 'proved', where, 'identical normal forms')
        n, why = 0, None
        for leaves in vals:
            ev = Eval(leaves, opfun)
            try:
                if fn is None:
                    exp = ev(nf)
                else:
                    with np.errstate(all='ignore'):
                        exp = fn(*[ev(a) if is_node(a) else a for a in args])
                if canon:
                    exp = canon(exp)
            except Skip:
                continue
            except (CantEval, BadValue) as ex:
                why = 'specification arguments: {}'.format(ex)
                continue
            try:
                act = ev(code)
                if canon:
                    act = canon(act)
            except CantEval as ex:
                return self.add(name, 'unknown', where, 'no interpretation of ' + str(ex))
            except Skip:
                continue
            except BadValue as ex:
                return self.add(name, 'refuted', where, 'no value: {} (expected {}) for {}'.format(ex, short(exp), brief(leaves)))
            n += 1
            if not same(act, exp, tol):
                return self.add(name, 'refuted', where, '{} instead of {} for {}'.format(short(act), short(exp), brief(leaves)))
        if n == 0:
            return self.add(name, 'unknown', where, why or 'no interpretation in the domain')
        return self.add(name, 'equal', where, 'normal forms differ; {} interpretations agree'.format(n))

    def holds(self, name, nodes, pred, vals, where=None, normal=False, opfun=None):
        """pred(values of nodes) -> None (not applicable) / True / False or a text for each valuation; normal: recognised normal form"""
        if any(not is_node(x) for x in nodes):
            return self.add(name, 'unknown', where, 'no term')
        if normal:
            return self.add(name, 'proved', where, 'recognised normal form')
        n = 0
        for leaves in vals:
            ev = Eval(leaves, opfun)
            try:
                vs = [ev(x) for x in nodes]
                with np.errstate(all='ignore'):
                    r = pred(*vs)
            except CantEval as ex:
                return self.add(name, 'unknown', where, 'no interpretation of ' + str(ex))
            except (Skip, BadValue):
                continue
            if r is None:
                continue
            n += 1
            if r is not True:
                return self.add(name, 'refuted', where, '{} for {}'.format(r if isinstance(r, str) else 'does not hold', brief(leaves)))
        if n == 0:
            return self.add(name, 'unknown', where, 'no interpretation in the domain')
        return self.add(name, 'equal', where, 'holds under {} interpretations'.format(n))

    # ------------------------------------------------------------------ output
    def counts(self):
        cnt = {}
        for o in self.obs:
            cnt[o['status']] = cnt.get(o['status'], 0) + 1
        return cnt

    def evidence(self, seed):
        cnt = self.counts()
        by = {}
        for o in self.obs:
            by.setdefault(o['status'], []).append('{} [{}] {}'.format(o['obligation'], o['where'], o['detail'])[:400])
        return dict(property=self.prop, tier=self.tier, seed=seed, level='other',
                    coverage=dict(explanation='static analysis of the current source: {} obligations, {} discharged by identical normal forms or structural rules, {} by agreement of deviating terms '
                                  'under random interpretation, {} without an answer, {} refuted; rules: {}'.format(
                                      len(self.obs), cnt.get('proved', 0), cnt.get('equal', 0), cnt.get('unknown', 0), cnt.get('refuted', 0), '; '.join(self.rules) or 'see obligations'),
                                  obligations=len(self.obs), discharged=cnt.get('proved', 0), agreed_under_interpretation=cnt.get('equal', 0), without_answer=cnt.get('unknown', 0),
                                  refuted=cnt.get('refuted', 0), functions_analysed=sorted(self.analysed),
                                  samples=[x for v in by.values() for x in v[:12]], unanswered=by.get('unknown', [])[:40]),
                    assumptions=['Library functions (numpy, scipy, pandas, the standard library) behave as the abstract interpreter models them',
                                 'Real-number identities used by the normal forms: results are compared up to rounding'])


def brief(leaves):
    out = []
    for k, v in leaves.items():
        if is_node(k) and k.op == 'param':
            out.append('{}={}'.format(k.args[0].replace('ctor_', ''), short(v.toarray() if hasattr(v, 'toarray') else v)))
    s = ', '.join(out)
    return s if len(s) < 700 else s[:697] + '...'
