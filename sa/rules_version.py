"""C26: importing the package computes its version without raising, with the settings of setup.cfg."""
import configparser
import os

from .escape import C, Escape, Limit, St
from .loader import REPO, AnchorError
from .registry import rule

STYLES = {'pep440-pre': {'{}', '{}.post.dev{}', '0.post.dev{}'},
          'pep440-post': {'{}', '{}.post{}+g{}', '{}.post{}.g{}', '{}.post{}.dev0+g{}', '{}.post{}.dev0.g{}', '0.post{}+g{}', '0.post{}.dev0+g{}'},
          'pep440-old': {'{}', '{}.post{}', '{}.post{}.dev0', '0.post{}', '0.post{}.dev0'},
          'pep440': {'{}', '{}+{}.g{}', '{}.{}.g{}', '{}+{}.g{}.dirty', '{}.{}.g{}.dirty', '0+untagged.{}.g{}', '0+untagged.{}.g{}.dirty'},
          'git-describe': {'{}', '{}-{}-g{}', '{}-dirty', '{}-{}-g{}-dirty'},
          'git-describe-long': {'{}-{}-g{}', '{}', '{}-{}-g{}-dirty', '{}-dirty'}}


def shape(v):
    if v.k == 'C':
        return v.a[0]
    t = v.a[0]
    if t[0] == 'cat':
        return ''.join(p if isinstance(p, str) else '{}' for p in t[1])
    return '{}'


def depth(t):
    """dirname^k(realpath(__file__)) -> k"""
    k = 0
    while isinstance(t, tuple) and t[:2] == ('path', 'dirname'):
        t, k = t[2], k + 1
    while isinstance(t, tuple) and t[0] == 'path' and t[1] in ('realpath', 'abspath', 'normpath'):
        t = t[2]
    return k if t == ('__file__',) else None


@rule('C26')
def version(R, tier):
    root = REPO
    pkg = 'bayesian_decision_tree'
    init = pkg + '/__init__.py'

    def source(path):
        p = os.path.join(root, path)
        return open(p, encoding='utf-8').read() if os.path.isfile(p) else None
    if source(init) is None:
        raise AnchorError(init)
    cfg = configparser.ConfigParser()
    cfg.read(os.path.join(root, 'setup.cfg'))
    want = {k: v.strip().strip('\'"') for k, v in cfg.items('versioneer')} if cfg.has_section('versioneer') else {}
    E = Escape(source, budget=400000 if tier == 'quick' else 4000000)
    st = St()
    try:
        env, outs = E.module(init, st)
    except Limit as ex:
        return R.add('importing the package', 'unknown', init, str(ex))
    R.analysed |= set(E.seen)
    lost = '; '.join('{} (line {})'.format(k, v) for k, v in list(E.unknown.items())[:3])
    # ------------------------------------------------------------ exceptions
    raised = {}
    for k, v, s in outs:
        if k == 'x':
            raised.setdefault((str(v.cls.a[1] if not isinstance(v.cls, str) else v.cls), v.line, v.msg), []).append(s)
    for (cls, line, msg), ss in sorted(raised.items()):
        R.add('no {} leaves the import ({})'.format(cls, msg), 'refuted' if not E.unknown else 'unknown', '{}/_version.py:{}'.format(pkg, line), '{} on {} paths, e.g. when {}; {}'.format(cls, len(ss), facts(ss[0]), lost))
    ok = [(v, s) for k, v, s in outs if k != 'x']
    if not raised:
        R.add('no exception leaves the import', 'unknown' if E.unknown else 'proved', init, '{} paths; {}'.format(len(outs), lost))
    # ------------------------------------------------------------ the version is text
    vs = []
    for _, s in ok:
        v = s.heap[env].get('__version__')
        vs.append((v, s))
    bad = [(v, s) for v, s in vs if v is None or not (v.k in ('S', 'U') or v.k == 'C' and isinstance(v.a[0], str))]
    if bad:
        R.add('__version__ is text on every path', 'refuted' if not E.unknown else 'unknown', init, '{} when {}; {}'.format(bad[0][0], facts(bad[0][1]), lost))
    else:
        R.add('__version__ is text on every path', 'proved' if all(v.k != 'U' for v, _ in vs) else 'unknown', init, '{} paths'.format(len(vs)))
    for line, text in sorted(set(E.findings)):
        R.add('prefixes', 'refuted', '{}/_version.py:{}'.format(pkg, line), text)
    # ------------------------------------------------------------ settings
    here = pkg + '/_version.py'
    R.fact('setup.cfg names the version file', want.get('versionfile_source') == here if want else None, 'setup.cfg', want.get('versionfile_source', ''))
    shapes = {shape(v): s for v, s in vs if v is not None and v.k in ('S', 'C')}
    holes = {x for x in shapes if '{}' in x}
    exp = STYLES.get(want.get('style'))
    clean = not E.unknown
    if exp is None:
        R.add('version style', 'unknown', 'setup.cfg', str(want.get('style')))
    else:
        for x in sorted(holes - exp):
            R.add('version style {}'.format(want['style']), 'refuted', here, 'a version of the form {} is not of this style; when {}'.format(x, facts(shapes[x])))
        if clean:
            for x in sorted(exp - holes):
                R.add('version style {}'.format(want['style']), 'refuted', here, 'no version of the form {} is ever computed'.format(x))
        if not (holes - exp) and (exp <= holes or not clean):
            R.add('version style {}'.format(want['style']), 'proved' if clean else 'unknown', here, ', '.join(sorted(holes)))
    # prefixes
    tests = {}
    for _, s in ok + [(None, s) for k, v, s in outs if k == 'x']:
        for p, val in s.facts.items():
            if p[0] == 'startswith' and isinstance(p[2], str):
                tests.setdefault(p[2], []).append(p[1])
    def about(t, *words):
        return any(w in repr(t) for w in words)
    for setting, words in (('tag_prefix', ('group', 'out')), ('tag_prefix', ('elem',)), ('parentdir_prefix', ('basename',))):
        name = '{} is applied to {}'.format(setting, {'group': 'described tags', 'elem': 'archived tags', 'basename': 'directory names'}[words[0]])
        pre = want.get(setting)
        if not pre:
            R.add(name, 'unknown', 'setup.cfg', 'no setting')
            continue
        hit = [t for t in tests.get(pre, []) if about(t, *words)]
        other = sorted({p for p, ts in tests.items() if p != pre and p not in ('$Format', '$Format:', 'tag: ', want.get('tag_prefix'), want.get('parentdir_prefix')) and any(about(t, *words) for t in ts)})
        if hit:
            R.add(name, 'proved', here, repr(pre))
        elif other:
            R.add(name, 'refuted' if clean else 'unknown', here, '{} instead of {!r}'.format(other, pre))
        else:
            R.add(name, 'unknown', here, 'no such test')
    # commands
    k = len(here.split('/'))
    dirs = {}
    for (line, words, cwd), fs in E.commands:
        if cwd is None or cwd == C(None):
            dirs.setdefault('the current directory', line)
        elif cwd.k == 'S':
            d = depth(cwd.a[0])
            if d is None:
                R.add('commands run in the project directory', 'unknown', '{}:{}'.format(here, line), repr(cwd)[:100])
            elif d != k:
                dirs.setdefault('{} levels above the version file'.format(d), line)
        if words and '--match' in words:
            i = words.index('--match')
            pat = words[i + 1] if i + 1 < len(words) else None
            R.add('tags are matched with tag_prefix', 'proved' if pat == want.get('tag_prefix', '') + '*' else 'refuted' if isinstance(pat, str) and clean else 'unknown', '{}:{}'.format(here, line), repr(pat))
    for d, line in dirs.items():
        R.add('commands run in the project directory', 'refuted' if clean else 'unknown', '{}:{}'.format(here, line), 'a command runs in {} instead of {} levels above'.format(d, k))
    if not dirs and E.commands:
        R.add('commands run in the project directory', 'proved', here, '{} command calls'.format(len(E.commands)))


def facts(s):
    out = []
    for p, v in s.facts.items():
        if p[0] == 'eq' and isinstance(p[1], tuple) and p[1][0] == 'rc':
            out.append('a command (line {}) {}'.format(p[1][1][1], 'succeeds' if v else 'fails'))
        elif p[0] in ('startswith', 'contains', 'endswith', 'nonempty', 'matched', 'isdigit'):
            out.append('{}{} {}'.format('' if v else 'not ', p[0], repr(p[2])[:30] if len(p) > 2 else ''))
    return ', '.join(out[:8])
