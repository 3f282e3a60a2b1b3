""" what is left of a repository when a process ends in the middle of working with it """
import hashlib
import os

from .. import common
from .c21 import Repo, environ, git, put
from .c22 import DECODABLE, disturb, files_of, differ, index_of, is_in, snap, stashes, tree_of
from .c26 import CRASHED, Clock, restore, snapshot

RULE = ('the process is ended right before every change of the file system and before and after every git command of a commit, an addition '
        'or the use of a reference; what is left is examined and a new process goes on; non-trivial when the crash came after at least one change')

SHARDS = 4, 6

OPS = ['commit', 'working tree', 'context', 'context', 'add', 'nested']


class GitClock(Clock):
    def __call__(self, event, args):
        if event == 'subprocess.Popen':
            self.tick((event, *[str(a)[-40:] for a in list(args[1])[:4]]))
        else:
            super().__call__(event, args)

    def after(self, git_class):
        """ also when a command is through """
        real = git_class.execute

        def execute(this, command, *a, **k):
            try:
                return real(this, command, *a, **k)
            finally:
                self.tick(('after', *[str(x)[-40:] for x in command[:4]]))
        git_class.execute = execute


def blob(v):
    data = os.fsencode(v) if isinstance(v, str) else v[0]
    return hashlib.sha1(b'blob %d\0' % len(data) + data).hexdigest()


def there(d, but=lambda path: False):
    """ the content that can still be had, without going through what is dangling """
    out = {blob(v) for v in files_of(d).values()}
    out |= {sha for path, (_, sha) in index_of(d).items() if not but(path)}
    tips = [*git(d, 'for-each-ref', '--format=%(objectname)').decode().split(), *stashes(d)]
    head = git(d, 'rev-parse', '-q', '--verify', 'HEAD', check=False).decode().strip()
    if tips or head:
        objs = git(d, 'rev-list', '--objects', *tips, *([head] if head else []))
        out |= {line.split(b' ', 1)[0].decode() for line in objs.splitlines()}
    return out


def unlock(d):
    n = 0
    for top, _, files in os.walk(os.path.join(d, '.git')):
        for f in files:
            if f.endswith('.lock'):
                os.unlink(os.path.join(top, f))
                n += 1
    return n


def main(ctx):
    aug = common.load_library()
    environ(ctx.scratch)
    ctx.require('crash', 'again', 'inside', 'dirty', 'stash_there', 'moved_head', 'unmoved_head', *sorted(set(OPS)))
    i = 0
    while i < ctx.size(36, 1500) and not ctx.time_up():
        r = ctx.rng('repo', i)
        base = ctx.newdir()
        log = []
        plan = dict(i=i, op=OPS[(i + ctx.shard) % len(OPS)], log=log)
        with ctx.case('crash', lambda: dict(plan)):
            one(ctx, aug, r, base, plan, log, plan['op'])
        os.chdir('/')
        common.force_rmtree(base)
        i += 1
    ctx.assumptions = ['the process ends between two changes of the file system or two git commands, changes that were made are kept (no power loss)']


def one(ctx, aug, r, base, plan, log, op):
    context = op in ('context', 'nested')
    unborn = not context and r.random() < .15
    repo = Repo(ctx, r, ctx.newdir(base=base, name='repo'), n=0 if unborn else None, names=DECODABLE)
    d = repo.d
    wit = lambda: dict(plan)
    if not unborn:
        git(d, 'branch', 'other', r.choice(repo.hist)[0])
        if r.random() < .5:
            git(d, 'checkout', '-q', 'other')
            put(os.path.join(d, r.choice(repo.paths)), b'on other\n')
            git(d, 'add', '-A')
            git(d, 'commit', '-q', '--allow-empty', '-m', 'other')
            git(d, 'checkout', '-q', r.choice(['main', 'other']))
    extra = disturb(ctx, r, repo, log, stash=True)
    p = r.choice([*repo.paths, *repo.paths, *extra[:3], *[x for x in repo.dirs if os.path.isdir(os.path.join(d, x))]])
    if p.endswith('.ign'):
        p = repo.paths[0]
    names = [r.choice(['main', 'other']) for _ in range(2 if op == 'nested' else 1)]
    act = r.choice(['nothing', 'change', 'change', 'commit', 'raise'])
    inner = [b'inner %d ' % k + r.randbytes(8) for k in range(2)]
    plan.update(path=p, names=names, act=act, unborn=unborn)
    if not os.path.isdir(os.path.dirname(os.path.join(d, p).rstrip('/'))):
        ctx.count('skipped')
        return

    class Boom(Exception):
        pass

    def run(clock):
        rp = aug.RepoPath(os.path.join(d, p)) if not context else aug.RepoPath(d)
        if op == 'commit':
            rp.commit('message')
        elif op == 'working tree':
            rp.commit_from_working_tree('message')
        elif op == 'add':
            rp.add_index()
        else:
            def inside(k):
                with rp.repo.getRef(names[k]):
                    clock.tick(('entered', k))
                    if act != 'nothing':
                        put(os.path.join(d, f'inside {k}'), inner[k])
                        clock.tick(('wrote', k))
                    if act == 'commit':
                        git(d, 'add', f'inside {k}')
                        git(d, 'commit', '-q', '-m', 'inside')
                        clock.tick(('committed', k))
                    if k + 1 < len(names):
                        inside(k + 1)
                    if act == 'raise':
                        raise Boom
            try:
                inside(0)
            except Boom:
                pass

    def child(at, fn=run):
        def go():
            clock = GitClock(at)
            aug.RepoPath(d).repo  # imports
            clock.after(aug.RepoPath._git.Git)
            err = None
            with common.guard.observe(clock):
                try:
                    fn(clock)
                except Exception as e:
                    err = f'{type(e).__name__}: {e}'[:500]
            return dict(n=clock.n, log=clock.log, err=err)
        os.chdir(d)
        try:
            return common.fork_child(go)
        finally:
            os.chdir('/')

    before = snap(d)
    # what was added before is replaced when it is added again
    had = there(d, (lambda x: is_in(x, p)) if op in ('working tree', 'add') else (lambda x: False))
    dirty = bool(git(d, 'status', '--porcelain', '--ignored'))
    copy = os.path.join(base, 'copy')
    snapshot(d, copy)
    code, full = child(None)
    if code or full['err']:
        # a path that is nowhere, or changes that git itself does not put back
        plan['full'] = full
        ctx.count('refused')
        now = there(d)
        ctx.expect(had <= now, f'{op}:refused', lambda: f'lost {had - now} by {full}', wit)
        return
    after = snap(d)
    atree = tree_of(d)
    plan['events'] = full['log']
    wrote = [next((n for n, x in enumerate(full['log']) if tuple(x) == ('wrote', k)), None) for k in range(2)]
    points = list(range(full['n']))
    limit = 10 if ctx.tier == 'quick' else 80
    if len(points) > limit:
        points = sorted(r.sample(points, limit))
    for k in points:
        plan['k'] = k
        restore(copy, d)
        code, out = child(k)
        at = lambda: f'before {full["log"][k]} ({k} of {full["n"]})'
        ctx.expect(code == CRASHED, 'repeatable', lambda: f'{at()}: {code} {out}', wit)
        ctx.count('crash')
        ctx.seen((ctx.shard, plan['i'], k), k > 0)
        now = there(d)
        need = had | {blob((inner[n], False)) for n, w in enumerate(wrote) if w is not None and k > w}
        ctx.expect(need <= now, f'{op}:lost', lambda: f'{at()}: lost {need - now}', wit)
        got = snap(d)
        ctx.expect(got['stash'][len(got['stash']) - len(before['stash']):] == before['stash'], f'{op}:stash',
                   lambda: f'{at()}: {before["stash"]} -> {got["stash"]}', wit)
        if not context:
            # the commit is there or not, everything else is as it was
            bad = differ(before, got, ('commit', 'refs', 'index', 'top'))
            ctx.expect(not bad, f'{op}:effect', lambda: f'{at()}: {bad}', wit)
            ctx.expect(got['index'] in (before['index'], after['index']), f'{op}:index', lambda: f'{at()}: {differ(before, got)}', wit)
            new = got['commit'] != before['commit']
            if new:
                msg = git(d, 'log', '-1', '--format=%s')
                ctx.expect(msg == b'message\n', f'{op}:message', lambda: f'{at()}: {msg}', wit)
                ctx.expect(tree_of(d) == atree and git(d, 'rev-parse', '-q', '--verify', 'HEAD^', check=False) == before['commit'],
                           f'{op}:half', lambda: f'{at()}: {tree_of(d)} is not {atree}', wit)
                ctx.count('moved_head')
            else:
                ctx.expect(got['refs'] == before['refs'], f'{op}:refs', lambda: f'{at()}: {differ(before, got)}', wit)
                ctx.count('unmoved_head')
        else:
            ctx.expect(got['head'] in [before['head'], *[b'refs/heads/%s\n' % n.encode() for n in names]], f'{op}:head', lambda: f'{at()}: {got["head"]}', wit)
            for n, v in before['refs'].items():
                ok = got['refs'].get(n) == v or act == 'commit' and n.rpartition('/')[2] in names
                ctx.expect(ok, f'{op}:refs', lambda: f'{at()}: {n} {v} -> {got["refs"].get(n)}', wit)
            if any(w is not None and k > w for w in wrote):
                ctx.count('inside')
        # the next process goes on, with what the lock of the other one leaves to be removed
        ctx.count('locked', bool(unlock(d)))
        if not context:
            if got['commit'] == before['commit']:
                fn = run
                if op != 'commit' and not any(is_in(x, p) for x in {*got['index'], *got['files']}) and not os.path.isdir(os.path.join(d, p)):
                    # there is nothing left to add, its removal from the index is through
                    fn = (lambda clock: aug.RepoPath(os.path.join(d, p)).commit('message')) if op == 'working tree' else (lambda clock: None)
                    ctx.count('removal_added')
                code, out = child(None, fn)
                ctx.expect(code == 0 and not out['err'], f'{op}:again', lambda: f'{at()}: {out}', wit)
                again = snap(d)
                bad = differ(after, again, ('commit', 'refs', 'top'))
                ctx.expect(not bad and tree_of(d) == atree, f'{op}:again', lambda: f'{at()}: {bad}', wit)
                ctx.count('again')
        else:
            def go_on(clock):
                with aug.RepoPath(d).repo.getRef(names[0]):
                    pass
            refs = got['refs']
            code, out = child(None, go_on)
            now = there(d)
            ctx.expect(need <= now, f'{op}:lost after', lambda: f'{at()}: lost {need - now} {out}', wit)
            last = snap(d)
            ctx.expect(last['refs'] == refs, f'{op}:refs after', lambda: f'{at()}: {differ(got, last)}', wit)
            if code == 0 and not out['err']:
                ctx.expect(last['head'] == got['head'] and set(got['stash']) <= set(last['stash']), f'{op}:after', lambda: f'{at()}: {differ(got, last)}', wit)
                ctx.count('again')
        ctx.count('dirty', dirty)
        ctx.count('stash_there', bool(before['stash']))
    ctx.count(op)
    ctx.sample(dict(i=plan['i'], op=op, path=p, changes=full['n'], crashes=len(points)))
