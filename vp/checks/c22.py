""" commits of single paths and working on another branch """
import datetime
import os
import shutil

from .. import common
from .c21 import NAMES, Repo, content, environ, git, put, spell

RULE = ('random repositories with staged, unstaged, untracked, ignored files and stashes; snapshots of commits, index, working tree, '
        'stashes and references before and after; non-trivial when index and working tree differ from HEAD')

# GitPython cannot read an index with names it cannot decode and takes some for names of drives
DECODABLE = [n for n in NAMES if '\udcff' not in n and n != '0:x']


def tree_of(d, rev='HEAD'):
    """ {path: (mode, sha)} of a commit, nothing if there is none """
    out = git(d, 'ls-tree', '-r', '-z', rev, check=False)
    r = {}
    for line in out.split(b'\0')[:-1]:
        meta, p = line.split(b'\t', 1)
        mode, _, sha = meta.decode().split()
        r[os.fsdecode(p)] = mode, sha
    return r


def index_of(d):
    return parse_index(git(d, 'ls-files', '-s', '-z'))


def parse_index(out):
    r = {}
    for line in out.split(b'\0')[:-1]:
        meta, p = line.split(b'\t', 1)
        mode, sha, stage = meta.decode().split()
        r[os.fsdecode(p)] = mode, sha
    return r


def files_of(d):
    r = {}
    for top, dirs, files in os.walk(d):
        if top == d:
            dirs[:] = [x for x in dirs if x != '.git']
            files = [x for x in files if x != '.git']
        for n in files + [x for x in dirs if os.path.islink(os.path.join(top, x))]:
            p = os.path.join(top, n)
            if os.path.islink(p):
                v = os.readlink(p)
            else:
                with open(p, 'rb') as f:
                    v = f.read(), os.stat(p).st_mode & 0o111 != 0
            r[os.path.relpath(p, d)] = v
    return r


def hashed(d, files):
    """ what git would store for files """
    r = {}
    for p, v in files.items():
        data = os.fsencode(v) if isinstance(v, str) else v[0]
        sha = git(d, 'hash-object', '--stdin', input=data).decode().strip()
        r[p] = ('120000' if isinstance(v, str) else '100755' if v[1] else '100644'), sha
    return r


def refs_of(d):
    out = git(d, 'for-each-ref', '--format=%(refname) %(objectname)').decode().splitlines()
    return {k: v for k, v in (x.rsplit(' ', 1) for x in out) if k != 'refs/stash'}


def stashes(d):
    return git(d, 'stash', 'list', '--format=%H').decode().split()


def snap(d):
    return dict(head=git(d, 'symbolic-ref', '-q', 'HEAD', check=False), commit=git(d, 'rev-parse', '-q', '--verify', 'HEAD', check=False),
                refs=refs_of(d), index=index_of(d), files=files_of(d), stash=stashes(d),
                config=open(os.path.join(d, '.git', 'config')).read(),
                top=sorted(x for x in os.listdir(os.path.join(d, '.git'))
                           if x not in ('COMMIT_EDITMSG', 'ORIG_HEAD', 'logs', 'index', 'gc.log', 'AUTO_MERGE')))


def differ(a, b, but=()):
    """ what differs between two snapshots """
    return {k: (a[k], b[k]) if not isinstance(a[k], dict) else {x: (a[k].get(x), b[k].get(x)) for x in {*a[k], *b[k]} if a[k].get(x) != b[k].get(x)}
            for k in a if k not in but and a[k] != b[k]}


def main(ctx):
    aug = common.load_library()
    environ(ctx.scratch)
    ctx.require('commit', 'commit_dir', 'commit_root', 'commit_unborn', 'commit_deleted', 'commit_other_staged', 'commit_unstaged', 'commit_stash',
                'commit_detached', 'commit_nothing', 'date', 'from_working_tree', 'ignored_kept', 'refused', 'hook_looked', 'add', 'add_removed', 'exec', 'link',
                'context', 'context_same', 'only_ignored', 'nested', 'inside_clean', 'inside_changed', 'inside_committed', 'exception', 'refused_checkout',
                'stash_kept', 'staged_restored', 'ignored_restored', 'untracked_restored', 'ref_name', 'ref_name_none', 'no_ref',
                'refused_gone', 'refused_detached', 'same_object', 'switched_inside')
    i = 0
    steps = [commits, commits, contexts, contexts, names]
    while i < ctx.size(80, 2500) and not ctx.time_up():
        steps[i % len(steps)](ctx, aug, ctx.rng('repo', i), i)
        i += 1
    os.chdir('/')


def disturb(ctx, r, repo, log, ignored=True, stash=True, again=True):
    """ staged, unstaged, untracked, ignored changes and stashes """
    d = repo.d
    if ignored:
        with open(os.path.join(d, '.git', 'info', 'exclude'), 'w') as f:
            f.write('*.ign\n')
    head = bool(git(d, 'rev-parse', '-q', '--verify', 'HEAD', check=False))
    extra = [os.path.join(r.choice(repo.dirs), n) for n in r.sample(['new', 'n ew', 'other', 'u.ign', 'v.ign'], 3)]
    if stash and head:
        for k in range(r.randrange(3)):
            put(os.path.join(d, r.choice(repo.paths)), b'stashed %d\n' % k)
            git(d, 'stash', '-q', '--include-untracked')
    for p in [*repo.paths, *extra]:
        full = os.path.join(d, p)
        for _ in range(r.randrange(4)):
            k = r.choice(['write', 'write', 'stage', 'stage', 'mode', 'link', 'remove', 'remove'])
            if k == 'write':
                put(full, r.randbytes(5) if r.random() < .5 else content(r))
            elif k == 'stage' and not p.endswith('.ign'):
                git(d, '--literal-pathspecs', 'add', '-A', '--', p, check=False)
            elif k == 'mode' and os.path.isfile(full) and not os.path.islink(full):
                os.chmod(full, r.choice([0o644, 0o755]))
                ctx.count('exec')
            elif k == 'link':
                put(full, r.choice(['a', 'nowhere', '/nonexistent/place']))
                ctx.count('link')
            elif k == 'remove' and r.random() < .5:
                put(full, None)
            else:
                continue
            log.append((k, p))
    return extra


def is_in(k, p):
    return p == '' or k == p or k.startswith(p + '/')


def commits(ctx, aug, r, i):
    base = ctx.newdir()
    unborn = r.random() < .15
    repo = Repo(ctx, r, ctx.newdir(base=base, name=r.choice(['repo', 'a b', 'rëpo'])), n=0 if unborn else None, names=DECODABLE)
    d = repo.d
    log = []
    wit = lambda: dict(i=i, log=log, hist=repo.hist, paths=repo.paths)
    if not unborn and r.random() < .2:
        git(d, 'checkout', '-q', '--detach', r.choice(repo.hist)[0])
        ctx.count('commit_detached')
        log.append('detached')
    if r.random() < .5:
        git(d, 'branch', 'elsewhere', check=False)
    extra = disturb(ctx, r, repo, log)
    allp = [*repo.paths, *extra]
    for _ in range(r.randrange(2, 8)):
        p = r.choice([*allp, *allp, *repo.dirs])
        full = os.path.join(d, p).rstrip('/')
        if not os.path.isdir(os.path.dirname(full)) or os.path.islink(full) and os.path.lexists(full + '/.git'):
            continue
        if p in repo.paths and r.random() < .25:
            put(full, None)
            log.append(('remove', p))
        if os.path.isdir(full) and r.random() < .5:
            put(os.path.join(full, 'w.ign'), b'ignored')
            log.append(('ignored', p))
        hook = r.random() < .15
        look = not hook and r.random() < .2
        hookfile = os.path.join(d, '.git', 'hooks', 'pre-commit')
        with ctx.case('commit', wit):
            before = snap(d)
            htree = tree_of(d)
            if hook:
                os.makedirs(os.path.dirname(hookfile), exist_ok=True)
                with open(hookfile, 'w') as f:
                    f.write('#!/bin/sh\nexit 1\n')
                os.chmod(hookfile, 0o755)
                before = snap(d)
            elif look:
                # a hook sees what is about to be committed and everything is in place
                os.makedirs(os.path.dirname(hookfile), exist_ok=True)
                with open(hookfile, 'w') as f:
                    f.write(f'#!/bin/sh\ngit ls-files -s -z > {base}/seen\ngit diff --cached --name-only HEAD -- > {base}/diff\n'
                            f'env -u GIT_INDEX_FILE git ls-files -s -z > {base}/real\nexit 0\n')
                os.chmod(hookfile, 0o755)
                before = snap(d)
            rp = spell(ctx, aug, r, full)
            msg = r.choice(['message', 'two\n\nlines', 'ünï', '-m', 'x' * 300])
            date = None
            if r.random() < .4:
                ts, off = r.randrange(10 ** 6, 2 * 10 ** 9), r.choice([0, 60, -330, 720])
                tz = datetime.timezone(datetime.timedelta(minutes=off))
                sign = f'{"-" if off < 0 else "+"}{abs(off) // 60:02}{abs(off) % 60:02}'
                date = f'{ts} {sign}' if r.random() < .6 else datetime.datetime.fromtimestamp(ts, tz)
            wt = r.random() < .4 and not (p.endswith('.ign'))
            log.append(('commit_from_working_tree' if wt else 'commit', p, str(rp), msg, date, hook))
            want_index = dict(before['index'])
            if wt:
                # git add -- path
                known = {k for k in before['index'] if is_in(k, p)}
                there = {k: v for k, v in before['files'].items() if is_in(k, p) and (k in known or not k.endswith('.ign'))}
                if not known and not there and not os.path.isdir(full):
                    try:
                        rp.commit_from_working_tree(msg)
                        ctx.expect(False, 'commit:nothing', f'{p!r} is neither there nor known', wit)
                    except Exception:
                        pass
                    dd = differ(before, snap(d))
                    ctx.expect(not dd, 'commit:nothing', lambda: f'{dd}', wit)
                    ctx.count('commit_nothing')
                    if hook or look:
                        os.unlink(hookfile)
                    continue
                ctx.count('ignored_kept', any(is_in(k, p) and k.endswith('.ign') for k in before['files']))
                ctx.count('commit_deleted', bool(known - set(there)))
                want_index = {k: v for k, v in want_index.items() if not is_in(k, p)}
                want_index.update(hashed(d, there))
            want_tree = {k: v for k, v in htree.items() if not is_in(k, p)}
            want_tree.update({k: v for k, v in want_index.items() if is_in(k, p)})
            # a file where the other has a folder
            for k in list(want_tree):
                if is_in(k, p):
                    continue
                if any(x.startswith(k + '/') for x in want_tree):
                    del want_tree[k]
            try:
                c = (rp.commit_from_working_tree if wt else rp.commit)(msg, **(dict(date=date) if date or r.random() < .5 else {}))
            except rp._git.exc.HookExecutionError:
                ctx.expect(hook, 'commit:hook', 'no hook', wit)
                os.unlink(hookfile)
                dd = differ(before, snap(d), ('top',) + (('index',) if wt else ()))
                ctx.expect(not {k: v for k, v in dd.items()}, 'commit:refused', lambda: f'a refused commit changed {dd}', wit)
                ctx.count('refused')
                continue
            if hook:
                ctx.expect(False, 'commit:hook ignored', 'the hook refused', wit)
                os.unlink(hookfile)
                before['top'] = snap(d)['top']
            if look:
                os.unlink(hookfile)
                for n, w in (('seen', want_tree), ('real', want_index)):
                    with open(os.path.join(base, n), 'rb') as f:
                        seen = parse_index(f.read())
                    ctx.expect(seen == w, 'commit:hook sees', lambda: f'the hook sees in {n} {differ(dict(i=w), dict(i=seen))}', wit)
                if before['commit']:
                    with open(os.path.join(base, 'diff'), 'rb') as f:
                        seen = f.read()
                    ctx.expect(bool(seen) == (want_tree != htree), 'commit:hook diff', lambda: f'the hook sees {seen}', wit)
                ctx.count('hook_looked')
                before['top'] = snap(d)['top']
            after = snap(d)
            got = tree_of(d)
            ctx.expect(got == want_tree, 'commit:tree', lambda: f'commit of {p!r}: ' + repr({k: (got.get(k), want_tree.get(k)) for k in {*got, *want_tree}
                                                                                              if got.get(k) != want_tree.get(k)}), wit)
            dd = differ(before, after, ('commit', 'refs', 'index'))
            ctx.expect(not dd, 'commit:effect', lambda: f'commit of {p!r} also changed {dd}', wit)
            ctx.expect(after['index'] == want_index, 'commit:index', lambda: f'{differ(dict(i=want_index), after and dict(i=after["index"]))}', wit)
            new = after['commit'].decode().strip()
            name = before['head'].decode().strip()
            want_refs = dict(before['refs'], **({name: new} if name else {}))
            ctx.expect(after['refs'] == want_refs, 'commit:refs', lambda: f'{before["refs"]} -> {after["refs"]}', wit)
            ctx.expect(c.hexsha == new, 'commit:returned', lambda: f'{c}', wit)
            info = git(d, 'log', '-1', '--format=%P%x00%at%x00%ai%x00%an%x00%B').decode()
            parents, at, ai, an, body = info.split('\0')
            ctx.expect(parents == before['commit'].decode().strip(), 'commit:parent', lambda: f'{parents}', wit)
            ctx.expect(body.strip() == msg, 'commit:message', lambda: f'{body!r}', wit)
            if date:
                ctx.expect(int(at) == ts and ai[-5:] == sign, 'commit:date', lambda: f'{at} {ai} is not {date}', wit)
                ctx.count('date')
            problems = git(d, 'fsck', '--no-dangling', check=False) if r.random() < .1 else b''
            ctx.expect(not problems, 'commit:fsck', lambda: f'{problems}', wit)
            ctx.count('commit')
            ctx.count('from_working_tree', wt)
            ctx.count('commit_dir', p in repo.dirs and p != '')
            ctx.count('commit_root', p == '')
            ctx.count('commit_unborn', not parents)
            ctx.count('commit_stash', bool(after['stash']))
            ctx.count('commit_other_staged', any(not is_in(k, p) for k in {*want_index, *htree} if want_index.get(k) != htree.get(k)))
            ctx.count('commit_unstaged', any(k in after['files'] and hashed(d, {k: after['files'][k]})[k] != v for k, v in want_index.items() if is_in(k, p)))
            ctx.seen((p, tuple(log[-6:])), want_tree != htree)
            if r.random() < .4:
                k = r.choice(allp)
                put(os.path.join(d, k), r.randbytes(4))
                log.append(('write', k))
                q = aug.RepoPath(d, k)
                b = snap(d)
                q.add_index()
                a = snap(d)
                want = dict(b['index'], **hashed(d, {k: b['files'][k]}))
                ctx.expect(a['index'] == want and not differ(b, a, ('index',)), 'add', lambda: f'add of {k!r}: {differ(b, a)}', wit)
                ctx.count('add')
                if r.random() < .3 and k in index_of(d):
                    put(os.path.join(d, k), None)
                    log.append(('remove', k))
                    q.add_index()
                    del want[k]
                    got = index_of(d)
                    ctx.expect(got == want, 'add:removed', lambda: f'add of removed {k!r}: {differ(dict(i=want), dict(i=got))}', wit)
                    ctx.count('add_removed')
    os.chdir('/')
    common.force_rmtree(base)


class Inside(Exception):
    pass


def contexts(ctx, aug, r, i):
    base = ctx.newdir()
    repo = Repo(ctx, r, ctx.newdir(base=base, name='repo'), names=NAMES)
    d = repo.d
    log = []
    wit = lambda: dict(i=i, log=log, hist=repo.hist, paths=repo.paths)
    branches = ['main', 'other', 'fea/ture']
    git(d, 'branch', 'other', r.choice(repo.hist)[0])
    git(d, 'branch', 'fea/ture', r.choice(repo.hist)[0])
    if r.random() < .6:
        git(d, 'checkout', '-q', 'other')
        put(os.path.join(d, r.choice(repo.paths)), b'on other\n')
        put(os.path.join(d, 'only other'), b'on other\n')
        put(os.path.join(d, 'x.ign'), b'on other\n') if r.random() < .5 else None
        git(d, 'add', '-A', '-f')
        git(d, 'commit', '-q', '-m', 'other')
    git(d, 'checkout', '-q', r.choice(branches))
    elsewhere = None
    if r.random() < .2:
        free = [b for b in branches if b != git(d, 'symbolic-ref', '--short', 'HEAD').decode().strip()]
        elsewhere = r.choice(free)
        git(d, 'worktree', 'add', '-q', os.path.join(base, 'elsewhere'), elsewhere)
    if r.random() < .75:
        disturb(ctx, r, repo, log)
    elif r.random() < .7:
        with open(os.path.join(d, '.git', 'info', 'exclude'), 'w') as f:
            f.write('*.ign\n')
        put(os.path.join(d, r.choice(['', 'ignored/']), 'only.ign'), b'ignored')
        log.append('only ignored')
        ctx.count('only_ignored')
    before = snap(d)
    # what git itself does not bring back is not expected to come back
    copy = os.path.join(base, 'copy')
    shutil.copytree(d, copy, symlinks=True)
    git(copy, 'stash', '--all')
    if len(stashes(copy)) > len(before['stash']):
        git(copy, 'stash', 'pop', '--index', check=False)
    c = snap(copy)
    lost = differ(before, c, ('top', 'config')) or c['files'] != before['files']
    common.force_rmtree(copy)
    if lost:
        ctx.count('git_cannot')
        common.force_rmtree(base)
        return
    rp = spell(ctx, aug, r, d)
    os.chdir('/')
    rep = aug.RepoPath(d).repo
    depth = r.choice([1, 1, 1, 2, 3])
    dirty = git(d, 'status', '--porcelain', '--ignored')
    with ctx.case('context', wit):
        if r.random() < .25:
            never(ctx, aug, r, rep, d, before, log, wit)
        enter(ctx, aug, r, rep, d, branches, elsewhere, before, depth, log, wit, {})
        ctx.count('context')
        ctx.count('stash_kept', bool(before['stash']))
        ctx.count('staged_restored', before['index'] != tree_of(d))
        ctx.count('ignored_restored', b'!!' in dirty)
        ctx.count('untracked_restored', b'??' in dirty)
        ctx.seen((tuple(log), depth), bool(dirty))
    common.force_rmtree(base)


def never(ctx, aug, r, rep, d, before, log, wit):
    """ a reference that is gone, a HEAD that there is no way back to """
    if r.random() < .5:
        git(d, 'branch', 'gone')
        ref = rep.getRef('gone')
        git(d, 'branch', '-q', '-D', 'gone')
        want = aug.exceptions.InvalidRefError
        now = snap(d)
        log.append('gone')
    else:
        ref = rep.getRef(r.choice(['main', 'other']))
        git(d, 'symbolic-ref', 'HEAD') and git(d, 'update-ref', '--no-deref', 'HEAD', 'HEAD')
        want = Exception
        now = snap(d)
        log.append('detached')
    try:
        with ref:
            ctx.expect(log[-1] == 'detached', 'context:gone', 'there is no such reference', wit)
            ctx.expect(hashed(d, files_of(d)) == tree_of(d, now['refs']['refs/heads/' + ref.name]), 'context:detached', 'the files are others', wit)
    except want:
        ctx.count('refused_' + log[-1])
    dd = differ(now, snap(d))
    ctx.expect(not dd, 'context:' + log[-1], lambda: f'{dd}', wit)
    if log[-1] == 'detached':
        git(d, 'symbolic-ref', 'HEAD', before['head'].decode().strip())


def enter(ctx, aug, r, rep, d, branches, elsewhere, before, depth, log, wit, known):
    name = r.choice(branches)
    # the same object again
    ref = known.get(name) if r.random() < .7 else None
    ctx.count('same_object', ref is not None)
    ref = ref or rep.getRef(name)
    known[name] = ref
    current = before['head'].decode().strip().split('/', 2)[-1]
    act = r.choice(['nothing', 'change', 'commit', 'raise', 'change raise', 'commit raise'])
    log.append(('with', name, act, depth))
    boom = Inside('inside')
    inner = None
    refs = dict(before['refs'])
    nstash = len(before['stash'])
    refuse = name == elsewhere and name != current
    try:
        with ref as got:
            ctx.expect(not refuse, 'context:refused', f'{name} is checked out elsewhere', wit)
            ctx.expect(got == ref, 'context:value', f'{got}', wit)
            s = snap(d)
            want = tree_of(d, refs['refs/heads/' + name])
            ctx.expect(s['head'].decode().strip() == 'refs/heads/' + name, 'context:head', lambda: f'in {name} HEAD is {s["head"]}', wit)
            ctx.expect(hashed(d, s['files']) == want, 'context:clean', lambda: f'in {name} the files are {s["files"]}, want {want}', wit)
            ctx.expect(s['index'] == want, 'context:index', lambda: f'in {name} the index is {s["index"]}', wit)
            ctx.expect(s['refs'] == refs, 'context:refs', lambda: f'{differ(dict(r=refs), dict(r=s["refs"]))}', wit)
            ctx.count('inside_clean')
            ctx.count('context_same', name == current)
            if depth > 1:
                log.append('nested')
                b = snap(d)
                refs2, news = enter(ctx, aug, r, rep, d, branches, elsewhere, b, depth - 1, log, wit, known)
                refs.update(refs2)
                ctx.count('nested')
            if 'change' in act:
                v = r.randbytes(12)
                put(os.path.join(d, 'changed inside'), v)
                put(os.path.join(d, 'inside.ign'), v)
                inner = v
                if r.random() < .5:
                    git(d, 'add', 'changed inside')
                ctx.count('inside_changed')
            if 'commit' in act:
                put(os.path.join(d, 'committed inside'), r.randbytes(12))
                git(d, 'add', 'committed inside')
                git(d, 'commit', '-q', '-m', 'inside')
                refs['refs/heads/' + name] = git(d, 'rev-parse', 'HEAD').decode().strip()
                ctx.count('inside_committed')
            if r.random() < .2:
                k = r.choice([['--detach'], ['--detach', 'main'], ['other'], ['-b', f'new {depth}'.replace(' ', '-')]])
                git(d, 'checkout', '-q', *k, check=False)
                ctx.count('switched_inside')
                log.append(('switched', *k))
                if k[0] == '-b':
                    refs['refs/heads/' + k[1]] = git(d, 'rev-parse', 'HEAD').decode().strip()
            if 'raise' in act:
                raise boom
        ctx.expect('raise' not in act, 'context:exception', 'the exception is gone', wit)
    except Inside as e:
        ctx.expect(e is boom, 'context:exception', f'{e!r}', wit)
        ctx.count('exception')
    except rep.git.execute.__globals__['GitCommandError']:
        ctx.expect(refuse, 'context:error', f'entering {name} failed', wit)
        ctx.count('refused_checkout')
        act = 'nothing'
    after = snap(d)
    if name == current and 'commit' in act:
        # the branch under the changes moved, what is not about to be seen is where they are relative to
        ctx.expect(after['head'] == before['head'], 'context:after', lambda: f'{after["head"]}', wit)
    elif git(d, 'symbolic-ref', 'HEAD') and refs.get(before['head'].decode().strip()) != before['refs'].get(before['head'].decode().strip()):
        ctx.expect(after['head'] == before['head'], 'context:after', lambda: f'{after["head"]}', wit)
    else:
        dd = differ(before, after, ('refs', 'stash', 'top', 'config'))
        ctx.expect(not dd, 'context:after', lambda: f'after {log[-3:]}: {dd}', wit)
    ctx.expect(after['refs'] == refs, 'context:refs after', lambda: f'{differ(dict(r=refs), dict(r=after["refs"]))}', wit)
    news = after['stash'][:len(after['stash']) - nstash]
    ctx.expect(after['stash'][len(news):] == before['stash'], 'context:stash', lambda: f'{before["stash"]} -> {after["stash"]}', wit)
    if inner is not None:
        found = [git(d, 'show', s + '^3:inside.ign', check=False) for s in news]
        ctx.expect(inner in found, 'context:inner', lambda: f'what was changed inside is in none of {news}', wit)
    elif depth == 1:
        ctx.expect(not news, 'context:leftover', lambda: f'left over stashes {news}', wit)
    return {k: v for k, v in refs.items() if before['refs'].get(k) != v}, news


def names(ctx, aug, r, i):
    """ the names of references """
    base = ctx.newdir()
    repo = Repo(ctx, r, ctx.newdir(base=base, name='repo'), names=NAMES)
    d = repo.d
    log = []
    wit = lambda: dict(i=i, log=log)
    for sha, _ in repo.hist:
        for k in range(r.randrange(5)):
            n = f'{r.choice(["t", "v", "a/v", "t/v", "a/t", "ü"])}{r.randrange(10)}'
            kind = r.choice(['tag', 'tag', 'branch', 'annotated'])
            if n in [x[1] for x in log]:
                continue
            git(d, *(['tag', n] if kind == 'tag' else ['branch', n] if kind == 'branch' else ['tag', '-m', 'x', n]), sha, check=False)
            log.append((kind, n, sha))
    rep = aug.RepoPath(d).repo
    for b in [None, *r.sample([x[1] for x in log if x[0] == 'branch'], min(2, sum(x[0] == 'branch' for x in log))), *(s for s, _ in repo.hist)]:
        with ctx.case('name', wit):
            if b:
                git(d, 'checkout', '-q', *(['--detach'] if len(b) == 40 else []), b)
            got = rep.currentRefName()
            want = git(d, 'rev-parse', 'HEAD').decode().strip()
            sym = git(d, 'symbolic-ref', '-q', '--short', 'HEAD', check=False).decode().strip()
            if sym:
                ctx.expect(got == sym, 'ref name', lambda: f'on {sym} it is {got}', wit)
                ctx.count('ref_name')
            elif got is not None:
                h = git(d, 'rev-parse', '--verify', '-q', got + '^{commit}', check=False).decode().strip()
                ctx.expect(h == want, 'ref name', lambda: f'{got} is {h} and not {want}', wit)
                ctx.count('ref_name')
            else:
                ctx.expect(not any(x[0] == 'tag' and x[2] == want for x in log), 'ref name:none', 'there is a tag', wit)
                ctx.count('ref_name_none')
    with ctx.case('ref', wit):
        for kind, n, sha in log:
            if git(d, 'rev-parse', '-q', '--verify', f'refs/{"heads" if kind == "branch" else "tags"}/{n}', check=False):
                ref = rep.getRef(n)
                ctx.expect(ref.name == n and ref.commit.hexsha == sha, 'getRef', lambda: f'{ref} for {n}', wit)
        try:
            ref = rep.getRef('no such')
            ctx.expect(False, 'getRef:none', lambda: f'{ref}', wit)
        except ValueError:
            ctx.count('no_ref')
    common.force_rmtree(base)
