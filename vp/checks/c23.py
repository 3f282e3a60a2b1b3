""" packages: versions, tags and what was not released yet """
import logging
import os
import sys
import types
import warnings

from .. import common
from .c21 import environ, git, init

RULE = ('every transition from random versions is checked against the order of versions and a table of what the phases mean; random '
        'repositories with one or more packages, tags and releases; non-trivial when a version has more than a release segment or a package has tags')

PHASES = ['current', 'dev', 'pre', 'a', 'b', 'rc', 'release', 'major', 'minor', 'micro', 'post', 'local']
COMPS = ['release', 'major', 'minor', 'micro']


def main(ctx):
    aug = common.load_library()
    warnings.simplefilter('ignore')
    environ(ctx.scratch)
    from augpathlib import package
    ctx.require('transition', 'greater', 'refused', 'exact', 'truncated', 'current', 'chain', 'folder', 'nested_package', 'tag', 'no_tag',
                'version_tag', 'prefix_tag', 'similar_names', 'version_repo', 'module', 'commits', 'commits_none', 'no_release', 'manifest',
                'latest_released', 'latest_github', 'next', 'next_first', 'outside', 'outside_in_repo')
    i = 0
    while i < ctx.size(400, 20000) and not ctx.time_up():
        versions(ctx, package, ctx.rng('version', i), i)
        i += 1
    i = 0
    while i < ctx.size(60, 1500) and not ctx.time_up():
        packages(ctx, aug, package, ctx.rng('package', i), i)
        i += 1
    os.chdir('/')


def version(r, local=True):
    s = f'{r.randrange(3)}!' if r.random() < .15 else ''
    s += '.'.join(str(r.choice([0, 0, 1, 2, 9, 10, 99])) for _ in range(r.choice([1, 2, 3, 3, 3, 4, 5])))
    k = r.random()
    if k < .3:
        s += r.choice(['a', 'b', 'rc']) + str(r.choice([0, 1, 9, 10]))
    if .2 < k < .5:
        s += f'.post{r.choice([0, 1, 9])}'
    if r.random() < .3:
        s += f'.dev{r.choice([0, 1, 9])}'
    if local and r.random() < .1:
        s += '+' + r.choice(['abc', '1', 'a.1'])
    return s


def inc(release, comp):
    r = list(release)
    i = {'release': len(r) - 1, 'major': 0, 'minor': 1, 'micro': 2}[comp]
    return tuple([*r[:i], r[i] + 1, *[0] * (len(r) - i - 1)])


def versions(ctx, package, r, i):
    from packaging.version import Version
    v = Version(version(r))
    text = str(v)
    state = package.current_state(v)
    want_state = 'local' if v.local else 'post' if v.post is not None else v.pre[0] if v.pre else 'dev' if v.dev is not None else 'release'
    ctx.expect(state == want_state, 'state', lambda: f'{v} is {state}')
    plain = state in ('release', 'post', 'local')
    for phase in PHASES:
        for comp in COMPS:
            wit = lambda: dict(i=i, version=text, phase=phase, comp=comp)
            with ctx.case('version', wit):
                missing = lambda c: {'minor': 2, 'micro': 3}.get(c, 0) > len(v.release)
                bumps = plain and phase in ('dev', 'pre', 'a', 'b', 'rc') or state in ('a', 'b', 'rc') and phase in ('a', 'b', 'rc')
                refused = (phase == 'local' or phase == 'current' and state == 'local'
                           or phase == 'dev' and state in ('a', 'b', 'rc')
                           or phase in ('a', 'b', 'rc') and state in ('a', 'b', 'rc') and state > phase
                           or phase == 'post' and state != 'release'
                           or missing(phase) or bumps and missing(comp))
                try:
                    n = package.next_version(v, phase, comp)
                except (ValueError, TypeError, IndexError) as e:
                    ctx.expect(refused, 'refused', lambda: f'{phase} after {v}: {e!r}', wit)
                    ctx.expect(str(v) == text, 'mutated', lambda: f'{v} was {text}', wit)
                    ctx.count('refused')
                    continue
                ctx.count('transition')
                ctx.expect(str(v) == text, 'mutated', lambda: f'{v} was {text}', wit)
                if phase == 'local':
                    continue
                ctx.expect(not refused, 'not refused', lambda: f'{phase} after {v} is {n}', wit)
                ctx.expect(n > v, 'greater', lambda: f'{phase} after {v} is {n}', wit)
                ctx.expect(n == Version(str(n)) and n.epoch == v.epoch and n.local is None, 'whole', lambda: f'{phase} after {v} is {n}', wit)
                ctx.count('greater')
                rel = inc(v.release, comp) if bumps else None
                want = None
                e = f'{v.epoch}!'
                s = lambda t: '.'.join(str(x) for x in t)
                if phase == 'current':
                    # another one of the same kind
                    want = {'release': lambda: s(inc(v.release, 'release')), 'dev': lambda: f'{s(v.release)}.dev{v.dev + 1}',
                            'post': lambda: f'{s(v.release)}.post{v.post + 1}'}.get(state, lambda: f'{s(v.release)}{state}{v.pre[1] + 1}')()
                    ctx.count('current')
                elif phase in ('major', 'minor', 'micro'):
                    want = s(inc(v.release, phase))
                elif phase == 'release':
                    want = s(inc(v.release, 'release')) if plain else s(v.release)
                    ctx.count('truncated', not plain)
                elif phase == 'post':
                    want = s(v.release) + '.post0'
                elif phase == 'dev' and state == 'dev':
                    want = f'{s(v.release)}.dev{v.dev + 1}'
                elif phase == 'dev':
                    ctx.expect(n.is_devrelease and n.release == rel and n.pre is None and n.post is None, 'kind', lambda: f'{phase} after {v} is {n}', wit)
                    if v.dev is None:
                        want = s(rel) + '.dev0'
                elif v.pre is not None and plain:
                    # a post release of a prerelease goes on counting
                    ctx.expect(n.pre is not None and n.release == rel and n.post is None, 'kind', lambda: f'{phase} after {v} is {n}', wit)
                elif plain or state == 'dev':
                    want = s(rel or v.release) + ('a' if phase == 'pre' else phase) + '0'
                else:
                    k = {'a': 'b', 'b': 'rc', 'rc': 'rc'}[state] if phase == 'pre' else phase
                    ctx.expect(n.pre is not None and n.pre[0] == k and n.post is None and n.dev is None and n.release >= v.release, 'kind',
                               lambda: f'{phase} after {v} is {n}', wit)
                    if phase == 'pre':
                        ctx.expect(n.release == v.release, 'kind', lambda: f'{phase} after {v} is {n}', wit)
                if want is not None:
                    ctx.expect(str(n) == str(Version(e + want)), 'exact', lambda: f'{phase} after {v} is {n}, want {want}', wit)
                    ctx.count('exact')
                ctx.seen((text, phase, comp), len(text) > 5)
    # a life of releases is in order
    seen = [Version(version(r, False))]
    with ctx.case('chain', lambda: dict(i=i, seen=[str(x) for x in seen])):
        for _ in range(12):
            try:
                seen.append(package.next_version(seen[-1], r.choice(PHASES[:-1]), r.choice(COMPS)))
            except (ValueError, IndexError):
                continue
        ctx.expect(seen == sorted(seen) and len(set(seen)) == len(seen), 'chain', lambda: f'{seen}')
        ctx.count('chain')


SETUP = '''
from setuptools import setup
setup(name={name!r}, version={version!r}, packages=[{module!r}])
'''


class Response:
    def __init__(self, url, json):
        self.url, self._json = url, json
        self.ok = json is not None
        self.status_code = 200 if self.ok else 404

    def json(self):
        return self._json


class Requests(types.ModuleType):
    """ what is on pypi and github """
    def __init__(self):
        super().__init__('requests')
        self.pages, self.asked = {}, []

    def get(self, url, **kwargs):
        self.asked.append(url)
        return Response(url, self.pages.get(url))

    def Session(self):
        return self


def packages(ctx, aug, package, r, i):
    from packaging.version import Version
    base = ctx.newdir()
    R = init(ctx.newdir(base=base, name=r.choice(['repo', 'foo', 'a b'])))
    R = os.path.realpath(R)
    log = []
    wit = lambda: dict(i=i, log=log)
    several = r.random() < .6
    names = r.sample(['foo', 'foobar', 'barfoo', 'oo', 'foo_two', 'foo-three'], r.randrange(2, 4)) if several else ['foo']
    root = r.choice([None, *names]) if several else 'foo'
    info = {}
    for n in names:
        d = R if n == root else os.path.join(R, r.choice(['', 'sub']), n if r.random() < .5 else 'd-' + n)
        os.makedirs(os.path.join(d, mod(n)), exist_ok=True)
        info[n] = dict(dir=d, version=version(r, False), manifest=r.random() < .5, commits=[], tag=None, tags=[])
        for f, c in (('setup.py', SETUP.format(name=n, version=info[n]['version'], module=mod(n))), (os.path.join(mod(n), '__init__.py'), ''),
                     (os.path.join(mod(n), 'mod.py'), ''), ('README.md', n)):
            with open(os.path.join(d, f), 'w') as h:
                h.write(c)
        if info[n]['manifest']:
            with open(os.path.join(d, 'MANIFEST.in'), 'w') as h:
                h.write('include README.md\n')
    git(R, 'add', '-A')
    git(R, 'commit', '-q', '-m', 'start')
    for n in names:
        info[n]['commits'] = ['start']
    for k in range(r.randrange(0, 8)):
        n = r.choice(names)
        x = info[n]
        if r.random() < .4:
            v = version(r, False)
            t = ('' if n == root else n + '-') + str(Version(v))
            if t[0] in '0123456789' or n != root:
                if subprocess_ok(R, 'rev-parse', '-q', '--verify', 'refs/tags/' + t):
                    continue
                # one tag for a commit
                git(R, 'commit', '-q', '--allow-empty', '-m', f'release {t}')
                git(R, 'tag', *r.choice([[], ['-m', 'x']]), t)
                x['tag'] = t
                x['tags'].append(t)
                x['commits'] = []
                log.append(('tag', t))
        else:
            f = r.choice([os.path.join(mod(n), 'mod.py'), os.path.join(mod(n), '__init__.py'), 'README.md', 'setup.py'])
            with open(os.path.join(x['dir'], f), 'a') as h:
                h.write(f'\n# {k}\n')
            git(R, 'add', '-A')
            git(R, 'commit', '-q', '-m', f'change {k}')
            x['commits'].append(f'change {k}')
            log.append(('change', k, n, f))
    requests = Requests()
    org, repo = r.choice(['org', 'some-one']), r.choice(['repo', 'foo', 'foo.bar'])
    git(R, 'remote', 'add', 'origin', f'https://github.com/{org}/{repo}.git')
    alltags = [t for x in info.values() for t in x['tags']]
    order = list(reversed([t for t in (e[1] for e in log if e[0] == 'tag')]))
    for n in names:
        x = info[n]
        d = x['dir']
        at = r.choice([d, os.path.join(d, mod(n)), os.path.join(d, mod(n), 'mod.py'), os.path.join(d, mod(n), 'not there', 'x'), os.path.join(d, 'README.md')])
        with ctx.case('package', wit):
            os.chdir(r.choice([R, d, base]))
            p = package.PackagePath(at if r.random() < .6 else os.path.relpath(at))
            log.append(('ask', n, str(p)))
            cwd, level = os.getcwd(), logging.getLogger().level
            ctx.expect(os.fspath(p.folder.absolute()) == d and os.fspath(p.setup_file) == os.path.join(d, 'setup.py'), 'folder', lambda: f'{p.folder}', wit)
            ctx.count('folder')
            ctx.count('nested_package', d != R)
            ctx.expect(p.version_repo == Version(x['version']) and p.arg_packagename == n, 'version_repo',
                       lambda: f'{p.arg_packagename} {p.version_repo}', wit)
            ctx.count('version_repo')
            ctx.expect(os.getcwd() == cwd, 'cwd', lambda: os.getcwd(), wit)
            ctx.expect(logging.getLogger().level == level, 'log level', lambda: f'{logging.getLogger().level}', wit)
            ctx.expect(bool(p.tag_prefix) == (d != R), 'tag_prefix', f'{p.tag_prefix}', wit)
            ctx.expect(p.tag == x['tag'], 'tag', lambda: f'tag of {n} is {p.tag}, want {x["tag"]}', wit)
            ctx.count('tag' if x['tag'] else 'no_tag')
            ctx.count('prefix_tag', bool(x['tag']) and d != R)
            ctx.count('similar_names', len(alltags) > len(x['tags']) and several)
            want = Version(x['tag'][0 if d == R else len(n) + 1:]) if x['tag'] else None
            ctx.expect(p.version_tag == want, 'version_tag', lambda: f'{p.version_tag} is not {want}', wit)
            ctx.count('version_tag', want is not None)
            try:
                got = p.module, p.module_init_file
            except NotImplementedError:
                got = None
            want = (p.folder / n, p.folder / n / '__init__.py') if mod(n) == n else None
            ctx.expect(got == want, 'module', lambda: f'{got}', wit)
            ctx.count('module')
            ctx.expect(os.fspath(p.arg_folder) == os.path.relpath(d, os.path.dirname(R)) and (p.arg_org, p.arg_repo) == (org, repo), 'args',
                       lambda: f'{p.arg_folder} {p.arg_org} {p.arg_repo}', wit)
            # what others changed in the folder of this package counts when there is no list of files
            if root is None or n != root or len(names) == 1 or x['manifest']:
                with open(os.devnull, 'w') as null:
                    out, sys.stdout = sys.stdout, null
                    try:
                        got = p.commits_since_last_release()
                    finally:
                        sys.stdout = out
                got = [g.split(' An Author ', 1)[1].split(' ', 1)[1] for g in got]
                got = [g for g in got if not g.startswith('release ')]
                ctx.expect(got == x['commits'][::-1], 'commits', lambda: f'commits of {n} since {x["tag"]} are {got}, want {x["commits"][::-1]}', wit)
                ctx.count('commits' if got else 'commits_none')
                ctx.count('no_release', not x['tag'])
                ctx.count('manifest', x['manifest'])
            # pypi and github
            released = [str(Version(version(r, False))) for _ in range(r.randrange(4))]
            old = sys.modules.get('requests')
            sys.modules['requests'] = requests
            try:
                latest = max(map(Version, released)) if released else None
                requests.pages.clear()
                if released:
                    requests.pages[f'https://pypi.org/pypi/{n}/json'] = dict(info=dict(version=str(latest)), releases={k: [] for k in released})
                if order:
                    requests.pages[f'https://api.github.com/repos/{org}/{repo}/releases'] = [dict(tag_name=t) for t in order]
                p = package.PackagePath(at)
                ctx.expect(p.version_latest_released == latest == p.version_latest_pypi, 'latest', lambda: f'{p.version_latest_released} of {released}', wit)
                ctx.count('latest_released', latest is not None)
                mine = [t for t in order if t in x['tags']]
                want = Version(mine[0][0 if d == R else len(n) + 1:]) if mine else None
                ctx.expect(p.tag_latest_github == (mine[0] if mine else None) and p.version_latest_github == want, 'github',
                           lambda: f'{p.tag_latest_github} of {order}', wit)
                ctx.count('latest_github', bool(mine))
                phase = r.choice(['current', 'release', 'major', 'pre'])
                try:
                    got = p.version_next(phase)
                except ValueError:
                    got = None
                if latest is None:
                    ctx.expect(got == Version(x['version']), 'next:first', lambda: f'{got}', wit)
                    ctx.count('next_first')
                elif got is not None:
                    ctx.expect(got > latest and got == package.next_version(latest, phase), 'next', lambda: f'{got} after {latest}', wit)
                    ctx.count('next')
            finally:
                if old is None:
                    del sys.modules['requests']
                else:
                    sys.modules['requests'] = old
            ctx.seen((n, tuple(alltags), x['tag'], str(at)), bool(alltags))
    os.chdir(R)
    outer = [os.path.join(base, 'x'), base]
    if root is None:
        # in the repository but in none of its packages
        outer += [R, '.', 'README', 'nope/deeper', 'sub', 'sub/x', os.path.join(R, 'sub', '..', '..', os.path.basename(R))]
    for out in outer:
        with ctx.case('outside', wit):
            try:
                f = package.PackagePath(out).folder
                ctx.expect(False, 'outside', lambda: f'{out}: {f}', wit)
            except ValueError:
                ctx.count('outside')
                ctx.count('outside_in_repo', root is None)
    os.chdir('/')
    common.force_rmtree(base)


def mod(n):
    return n.replace('-', '_')


def subprocess_ok(d, *args):
    return bool(git(d, *args, check=False))
