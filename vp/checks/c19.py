""" finding the root of a project from inside and what is in it from the root """
import os
import pathlib

from .. import common, model

RULE = ('projects with tracked, untracked, ignored, hidden, linked and oddly named entries, looked at from the root, from folders and from '
        'outside, compared with the operating system; non-trivial when the tree has links to folders or names close to an ignored one')
IGNORED = ('.operations', '.augpathlib-sparse', '.git')
CLOSE = ['.git.txt', '.gitignore', '.git2', 'x.git', 'git', '.GIT', '.operations.bak', '.operations2', 'operations', 'a.operations', '.', '.git.', '.git .txt']
NAMES = ['a', 'b.txt', '.hidden', '.hidden.txt', 'with space', '*', '[x]', 'new\nline', 'é', '\udcff', '~', '-', '%s', 'a.b.c', '...']


def populate(w, r, ignored):
    """ untracked things """
    root = w.root
    plan = []
    dirs = [root] + [w.where(d) for d in w.dirs[1:]]
    links = []
    for _ in range(r.randint(3, 12)):
        d = r.choice(dirs)
        n = r.choice(NAMES + CLOSE * 2 + list(ignored) * 2)
        p = d / n
        if n == '.' or os.path.lexists(p):
            continue
        k = r.choice(['file', 'dir', 'dir', 'link', 'broken', 'dirlink', 'dirlink', 'rootlink', 'outside'])
        plan.append((k, str(p.relative_to(root))))
        if k == 'file':
            p.write_bytes(b'x')
        elif k == 'dir':
            p.mkdir()
            dirs.append(p)
        elif k == 'link':
            p.symlink_to(r.choice(['/etc/hostname', 'elsewhere', '..']))
        elif k == 'broken':
            p.symlink_to('nowhere at all')
        else:
            t = dict(dirlink=r.choice(dirs), rootlink=root, outside=w.base)[k]
            p.symlink_to(r.choice([t, os.path.relpath(t, d)]), target_is_directory=True)
            links.append(p)
    return plan, dirs, links


def below(d, skip=()):
    out = []
    for x in os.listdir(d):
        if x in skip:
            continue
        p = os.path.join(d, x)
        out.append(p)
        if os.path.isdir(p) and not os.path.islink(p):
            out.extend(below(p))
    return out


def main(ctx):
    aug = common.load_library()
    for i in range(ctx.size(150, 3000)):
        if ctx.time_up():
            break
        one(ctx, aug, ctx.rng(i), i)
    ctx.require('children', 'rchildren', 'root:absolute', 'root:relative', 'root:ignored', 'root:placeholder', 'root:outside',
                'dirlink', 'close', 'skip:yes', 'skip:no', 'deep_ignored', 'cached_children')
    ctx.assumptions = ['the root is asked for by its absolute path when its entries are listed', 'projects are not inside of one another']


def one(ctx, aug, r, i):
    w = model.World(ctx, aug, r, ndirs=r.randint(0, 5), nfiles=r.randint(0, 6))
    plan = dict(i=i)
    wit = lambda: plan
    home = os.getcwd()
    try:
        with ctx.case('tree', lambda: dict(plan)):
            w.bootstrap()
            for f in r.sample(w.files, len(w.files) // 2):
                w.local(f).cache.fetch()
            ignored = w.C.cache_ignore
            ctx.expect(set(ignored) >= {'.operations', '.git'}, 'ignored', lambda: f'{ignored}', wit)
            plan['made'], dirs, links = populate(w, r, ignored)
            ctx.count('dirlink', bool(links))
            ctx.count('close', any(os.path.lexists(w.root / x) for x in CLOSE if x != '.'))
            ctx.count('deep_ignored', any(os.path.lexists(d / x) for d in dirs if d != w.root and '.operations' not in d.parts for x in ignored))
            ctx.seen(sorted(map(str, plan['made'])), bool(links) or len(plan['made']) > 3)
            ctx.sample(dict(made=plan['made'][:6])) if links else None
            if r.random() < .5:
                w.reopen()
            walk(ctx, w, r, dirs, wit, ignored)
            roots(ctx, w, r, dirs, links, wit, ignored)
            cached(ctx, w, r, wit)
    finally:
        os.chdir(home)
        w.close()


def walk(ctx, w, r, dirs, wit, ignored):
    for d in dirs:
        p = w.L(d)
        skip = ignored if d == w.root else ()
        got = list(p.children)
        want = sorted(os.path.join(d, x) for x in os.listdir(d) if x not in skip)
        ctx.count('children')
        ctx.expect(sorted(map(str, got)) == want, 'children', lambda: f'{d} {sorted(map(str, got))!r} want {want!r}', wit)
        ctx.expect(all(isinstance(x, w.L) for x in got), 'children:class', lambda: f'{got}', wit)
        got = list(p.rchildren)
        want = sorted(below(d, skip))
        ctx.count('rchildren')
        ctx.expect(sorted(map(str, got)) == want, 'rchildren',
                   lambda: f'{d} more {sorted({*map(str, got)} - {*want})!r} less {sorted({*want} - {*map(str, got)})!r} twice {sorted(x for x in set(map(str, got)) if [*map(str, got)].count(x) > 1)}', wit)
    for f in w.files:
        p = w.local(f)
        ctx.expect(list(p.children) == [] and list(p.rchildren) == [], 'children:file', lambda: f'{p}', wit)


def roots(ctx, w, r, dirs, links, wit, ignored):
    inside = [x for x in below(w.root)]
    inside = r.sample(inside, min(len(inside), 12)) + [str(w.root)]
    for s in inside:
        p = w.L(s)
        if os.path.islink(s) and os.path.exists(s):
            # it leads elsewhere, what it is in is still in the project
            pass
        got = p.find_cache_root()
        ctx.count('root:absolute')
        ctx.count('root:placeholder', p.is_broken_symlink())
        ctx.count('root:ignored', any(x in ignored for x in pathlib.Path(s).relative_to(w.root).parts))
        ctx.expect(got is not None and str(got) == str(w.root), 'root:absolute', lambda: f'{s} {got!r}', wit)
        # what is not there yet
        q = w.L(os.path.join(s, 'not', 'there'))
        ctx.expect(str(q.find_cache_root()) == str(w.root), 'root:missing', lambda: f'{q} {q.find_cache_root()!r}', wit)
        cwd = r.choice([*dirs, w.base])
        os.chdir(cwd)
        rel = os.path.relpath(s, cwd)
        if '..' not in pathlib.Path(rel).parts:
            got = w.L(rel).find_cache_root()
            ctx.count('root:relative')
            ctx.expect(got is not None and os.path.realpath(got) == os.path.realpath(w.root), 'root:relative', lambda: f'{rel} in {cwd} {got!r}', wit)
        if s != str(w.root):
            rp = pathlib.Path(s).relative_to(w.root)
            c = None if not os.path.lexists(s) else w.L(s).cache
            if c is None:
                want = rp.parts[0] in ignored
                ctx.count('skip:yes' if want else 'skip:no')
                ctx.expect(w.L(s).skip_cache is want, 'skip', lambda: f'{s} {w.L(s).skip_cache}', wit)
    for s in (w.base, w.base.parent, w.base / 'nowhere', '/', w.base / 'proj2', '/nowhere/at/all'):
        got = w.L(s).find_cache_root()
        ctx.count('root:outside')
        ctx.expect(got is None, 'root:outside', lambda: f'{s} {got!r}', wit)
        try:
            got = w.L(s).find_cache_root(fail=True)
        except w.aug.exceptions.NotInProjectError:
            got = 'refused'
        ctx.expect(got == 'refused', 'root:fail', lambda: f'{s} {got!r}', wit)
    os.chdir(w.base)


def cached(ctx, w, r, wit):
    """ the cache lists what the remote has """
    for d in r.sample(w.dirs, min(len(w.dirs), 2)):
        c = w.local(d).cache if d is not w.store.root else w.L(w.root).cache
        kids = w.store.children(d)
        got = list(c.children)
        ctx.count('cached_children')
        ctx.expect(sorted((x.id, str(x.local)) for x in got) == sorted((k.id, str(w.where(k))) for k in kids),
                   'cached:children', lambda: f'{got} {[k.name for k in kids]}', wit)
        got = list(c.rchildren)
        kids = list(w.store.rchildren(d))
        ctx.expect(sorted((x.id, str(x.local)) for x in got) == sorted((k.id, str(w.where(k))) for k in kids),
                   'cached:rchildren', lambda: f'{sorted((x.id, str(x.local)) for x in got)} {sorted((k.id, str(w.where(k))) for k in kids)}', wit)
