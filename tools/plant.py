#!/usr/bin/env python3
""" plant.py new BATCH.py [ID..]   make seeded bugs from a batch file and validate each
    plant.py check [ID..]          validate the bugs in /verif/seeded again and run their checks
A batch file defines BUGS: dicts with id, prop, edits [(file, old, new)], needs, breaks, demo. """
import json, os, shutil, subprocess, sys, tempfile
from pathlib import Path
from concurrent.futures import ThreadPoolExecutor

VERIF = Path(__file__).resolve().parent.parent
SEEDED = VERIF / 'seeded'
BASE = 'e761259'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', SKIP_NETWORK='1',
           GIT_AUTHOR_NAME='t', GIT_AUTHOR_EMAIL='t@e.org', GIT_COMMITTER_NAME='t', GIT_COMMITTER_EMAIL='t@e.org')


def sh(*a, **k):
    k.setdefault('capture_output', True)
    return subprocess.run(a, text=True, **k)


def copy():
    d = Path(tempfile.mkdtemp(prefix='vp-plant-', dir='/tmp'))
    sh('cp', '-a', '/repo', str(d / 'repo'), check=True)
    return d


def new(b):
    d = copy()
    try:
        repo = d / 'repo'
        for f, old, repl in b['edits']:
            p = repo / 'augpathlib' / f
            s = p.read_text()
            if s.count(old) != 1:
                return f'{b["id"]}: {f}: {s.count(old)} matches for {old!r}'
            p.write_text(s.replace(old, repl))
        diff = sh('git', '-C', str(repo), 'diff').stdout
        out = SEEDED / b['id']
        shutil.rmtree(out, ignore_errors=True)
        out.mkdir(parents=True)
        (out / 'patch.diff').write_text(diff)
        (out / 'meta.json').write_text(json.dumps(dict(property=b['prop'], needs=b['needs'],
                                                       what_it_breaks=b['breaks']), indent=1) + '\n')
        (out / 'demo.sh').write_text('#!/bin/bash\n# cwd is the repository\n'
                                     'PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec /opt/venv/bin/python '
                                     '"$(dirname "$0")/demo.py"\n')
        os.chmod(out / 'demo.sh', 0o755)
        (out / 'demo.py').write_text(b['demo'].lstrip('\n'))
        shutil.copy(VERIF / 'tools/demo/stack.py', out / 'stack.py')
    finally:
        shutil.rmtree(d)
    return check(b['id'])


def check(id, tests=True):
    out = SEEDED / id
    meta = json.loads((out / 'meta.json').read_text())
    d = copy()
    probs = []
    try:
        repo = d / 'repo'
        files = tempfile.mkdtemp(prefix='vp-planted-', dir='/tmp')
        demo = Path(files) / 'x'
        shutil.copytree(out, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        r = sh('bash', str(demo / 'demo.sh'), cwd=repo, env=ENV, timeout=300)
        if r.returncode:
            probs.append(f'demo fails on unchanged: {r.stdout[-300:]}{r.stderr[-800:]}')
        a = sh('git', '-C', str(repo), 'apply', str(out / 'patch.diff'))
        if a.returncode:
            return f'{id}: PATCH DOES NOT APPLY {a.stderr}'
        orig = set()
        for l in (out / 'patch.diff').read_text().splitlines():
            if l.startswith('--- a/'):
                orig = set(sh('git', '-C', '/repo', 'show', f'{BASE}:{l[6:]}').stdout.splitlines())
                got = False
            elif l.startswith('-') and not l.startswith('---'):
                got = got or l[1:] in orig and l[1:].strip() != ''
                if l[1:] not in orig:
                    probs.append(f'not an original line: {l}')
        if not got:
            probs.append('no original line changed')
        r = sh('bash', str(demo / 'demo.sh'), cwd=repo, env=ENV, timeout=300)
        if r.returncode == 0:
            probs.append('demo passes with the bug')
        why = (r.stderr.strip().splitlines() or ['?'])[-1]
        shutil.rmtree(files)
        if tests:
            t = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                   cwd=repo, env=dict(ENV, PYTHONPATH=str(repo)))
            last = t.stdout.strip().splitlines()[-1]
            if '86 passed' not in last:
                probs.append('tests: ' + last + ' '.join(x for x in t.stdout.splitlines() if x.startswith('FAILED'))[:300])
        caught = []
        for tier in ('quick',):
            ev = d / 'ev'
            c = sh('python3', str(VERIF / 'run.py'), meta['property'],
                   env=dict(os.environ, VP_REPO=str(repo), VP_EVIDENCE=str(ev), VERIF_SEED='1', VERIF_TIER=tier))
            v = [l.strip() for l in c.stdout.splitlines() if l.startswith('  ')]
            caught.append(f'{tier}: rc={c.returncode} {[x[:110] for x in v[:3]]}')
    finally:
        shutil.rmtree(d)
    return f'{id} [{meta["property"]}] {"OK" if not probs else "PROBLEM " + "; ".join(probs)}\n     demo: {why[:160]}\n     ' + ' '.join(caught)


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        ns = {}
        exec(Path(sys.argv[2]).read_text(), ns)
        todo = [b for b in ns['BUGS'] if not sys.argv[3:] or b['id'] in sys.argv[3:]]
        f = new
    else:
        todo = sys.argv[2:] or sorted(p.name for p in SEEDED.iterdir() if p.is_dir())
        f = check
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(f, todo):
            print(r, flush=True)
