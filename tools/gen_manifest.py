"""Writes /verif/MANIFEST.json (run by hand when a property is claimed, reworded or given up)."""
import json
import os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
FIT = ('value-graph summaries of one training step (gated SSA over the current source) compared with the specification by congruence of normal forms; '
       'deviating terms by random interpretation of the terms')
QRY = 'value-graph summaries of the recursive query functions; structural induction rule over the recursion; deviating terms by random interpretation of the summaries'
TECH = {
    'C01': QRY, 'C02': QRY, 'C03': FIT, 'C04': FIT, 'C05': FIT, 'C06': FIT, 'C07': FIT, 'C08': FIT, 'C09': FIT,
    'C14': 'typestate (unfitted / fitted) and exception analysis of every query path; width test dominance; deviating paths by random interpretation of the summaries',
    'C15': 'path-condition analysis of fit on raw arguments: every path with a bad argument ends in ValueError and no store to the tree precedes any rejection',
    'C21': 'conversion chains of every container and element type on the value graph of fit and of all queries: dtype, shape and row-order equalities against the plain-array run',
    'C26': 'exception-escape analysis of the import by path-enumerating abstract interpretation of the version module (all outcomes of commands and files), settings propagated to their uses and compared with setup.cfg',
    'C16': 'definite-assignment analysis: attribute states of nodes derived from the final heaps of training, against the attribute reads of every query path',
    'C18': 'guard analysis of the stores that remove a split; summary of the pruning function replayed over random abstract trees',
    'C25': 'effect and alias analysis of every query path over its whole call graph',
    'C12': 'taint analysis of every random draw (origin and seed of its generator) and of volatile sources, module and object state over training, searches and queries',
    'C23': 'interval and shape analysis with widening of every vector handed to the objective; polarity (ordering) analysis of the searches; value-graph comparison of one evaluation of the objective',
    'C28': 'interpretation of the path conditions of the raw summaries (value graph) of fit and queries over containers holding numbers without an exact float64',
    'C27': 'type flow and signature binding over the sources of the examples, against the class table of the package',
    'C10': 'value graph of the constructors (what is stored is the parameter itself); effect and alias analysis of parameter attributes and their storage over fit, pruning and all queries',
    'C11': 'may-alias and effect analysis: no write through any alias of an object of the caller, for every container and with nothing known about the containers',
    'C13': 'liveness of learned attributes: summaries of fit on a tree already fitted, with unknown learned attributes, compared with the summary on a new tree; no stale attribute read or surviving',
    'C22': 'abstract interpretation of the array terms of the mapping for given dimensions: dependence sets, intervals, and a polynomial normal form in which the squares of the coordinates add up to 1',
    'C17': QRY, 'C19': QRY, 'C20': QRY, 'C24': 'dependence analysis of the value graph (which results depend on the progress flag and on names), print effects, and rendering of names for every container',
}
NA = {
    'C40': 'bounds on rounding errors depend on magnitudes of run-time data; no sound static bound for the sum formulas and the gamma functions is in reach',
    'C41': 'a distribution statement about a numerical transformation; no static argument over the source decides it',
    'C42': 'termination and quality of the searches depend on numerical convergence (and, for the scipy optimiser, on foreign code)',
    'C43': 'equality of trees under permutation up to ties and rounding relates two runs through sorting of run-time values; floating-point sums make it true only approximately',
    'C44': 'running time as a function of run-time sizes (numpy operations) is not bounded by a static rule in reach',
}
TODO = 'no rule built for it'


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in TECH:
            checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='python3-vt check.py {} --tier thorough'.format(i), evidence_file='evidence/{}.json'.format(i),
                               technique=TECH[i], level='other',
                               level_note='static analysis: every obligation is discharged on the abstract value graph of the current source; the program is never run. '
                                          'Trusted: the models of numpy, scipy and pandas calls in sa/npmodel.py and the abstract interpreter; real-number identities up to rounding.'))
        else:
            na.append(dict(property=i, reason=NA.get(i, TODO)))
    m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
             notes='No hooks in /repo. The analyser (sa/) reads the source of /repo on every run and needs only python3-vt.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed,', len(na), 'not')


main()
