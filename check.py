#!/usr/bin/env python3-vt
"""usage: check.py PROPERTY [--tier quick|thorough] [--list]"""
import json
import os
import sys
import time
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':                 # repeatable runs
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(40000)
import warnings
warnings.filterwarnings('ignore')
import threading                                    # noqa: E402

threading.stack_size(512 * 1024 * 1024)

HERE = os.path.dirname(os.path.abspath(__file__))


def known():
    """{(property, obligation)} of recorded findings"""
    out = set()
    p = os.path.join(HERE, 'known-findings.txt')
    for line in open(p):
        if line.startswith('known: '):
            head, _, rest = line[len('known: '):].strip().partition(' ')
            out.add((head.split('=')[1], rest.split(' :: ')[0]))
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for i, a in enumerate(sys.argv):
        if a == '--tier':
            tier = sys.argv[i + 1]
            args = [x for x in args if x != tier]
        elif a.startswith('--tier='):
            tier = a.split('=')[1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    prop = args[0]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from sa import registry
    from sa.loader import AnchorError
    from sa.report import Report
    t0 = time.time()
    R = Report(prop, tier)
    try:
        registry.run(prop, R, tier)
    except AnchorError as ex:
        print('analysis broken: {}'.format(ex))
        return 2
    ev = R.evidence(seed)
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    kn = known()
    bad, old = [], []
    for o in R.violations():
        (old if (prop, o['obligation']) in kn else bad).append(o)
    ev['violations'] = len(bad)
    replay = os.path.join('evidence', prop + '.violations.txt')
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    full = os.path.join(HERE, replay)
    if os.path.exists(full):
        os.remove(full)
    for o in old:
        print('KNOWN-FINDING: property={} {}'.format(prop, o['obligation']))
    print('{}: {}'.format(prop, ', '.join('{} {}'.format(v, k) for k, v in sorted(R.counts().items()))))
    if '--list' in sys.argv:
        for o in R.obs:
            print('  {status:8} {obligation}  [{where}] {detail}'.format(**o)[:600])
    if bad:
        with open(full, 'w') as f:
            for o in bad:
                f.write('{obligation}\n  at {where}\n  {detail}\n'.format(**o))
        for o in bad[:8]:
            print('  {} at {}: {}'.format(o['obligation'], o['where'], o['detail'])[:500])
        print('VIOLATION property={} replay={}'.format(prop, replay))
        return 1
    return 0


if __name__ == '__main__':
    rc = []

    def go():
        try:
            rc.append(main())
        except Exception:
            traceback.print_exc()
            rc.append(2)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
