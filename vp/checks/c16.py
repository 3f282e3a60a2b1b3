""" relative paths and common paths """
import os
import pathlib

from .. import common, gen, model

RULE = ('random pairs of absolute and relative paths (equal, ancestors, siblings, prefixes of each other, cousins, odd names) '
        'related to each other and followed on a real file system through links; non-trivial when the result has .. or '
        'more than one part')

NAMES = ['a', 'b', 'ab', 'a b', 'é', 'c.tar.gz', '.h', '...', '-', 'a.b', 'A', 'x' * 40, '漢', 'b\n', '~', 'a\\b', 'u\udcff']


def rel(r, n):
    return [r.choice(NAMES) for _ in range(n)]


def norm(p):
    return os.path.normpath(os.fspath(p))


def pair(r):
    """ self and other, both absolute or both relative to the same place """
    stem = rel(r, r.randrange(0, 4))
    k = r.randrange(8)
    if k == 0:
        a = b = stem + rel(r, 1)
    elif k == 1:
        a, b = stem + rel(r, r.randrange(1, 4)), stem
    elif k == 2:
        a, b = stem, stem + rel(r, r.randrange(1, 4))
    elif k == 3:
        n = r.choice(NAMES)
        a, b = stem + [n], stem + [n + r.choice(['x', '.', ' '])] + rel(r, r.randrange(2))
    else:
        a, b = stem + rel(r, r.randrange(1, 5)), stem + rel(r, r.randrange(1, 5))
    return a, b


def main(ctx):
    aug = common.load_library()
    ctx.require('lexical', 'ancestor', 'equal', 'cousin', 'relative', 'followed', 'to', 'commonpath', 'cached_child', 'named_like_root',
                'remote_child', 'cache_relative', 'mixed')
    classes = [aug.AugmentedPath, aug.LocalPath, aug.EatPath]
    for i in range(ctx.size(6000, 200000)):
        if ctx.left() < ctx.budget * .6:
            break
        r = ctx.rng('lex', i)
        a, b = pair(r)
        absolute = r.random() < .6
        root = '/' if absolute else ''
        if not absolute and not (a and b):
            continue
        cls = r.choice(classes)
        sa, sb = root + '/'.join(a), root + '/'.join(b)
        wit = lambda: dict(i=i, self=sa, other=sb, cls=cls.__name__)
        with ctx.case('relative', wit):
            A, B = cls(sa), cls(sb)
            got = A.relative_path_from(B)
            up = a[:len(b)] == b
            base = sb if up else os.path.dirname(sb)
            ctx.expect(not got.is_absolute(), 'absolute', f'{got}', wit)
            ctx.expect(norm(os.path.join(base, got)) == norm(sa), 'leads elsewhere',
                       lambda: f'{got} from {base} is {norm(os.path.join(base, got))}', wit)
            n = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            ups = 0 if up else len(b) - n - 1
            parts = list(got.parts)
            ctx.expect(parts == ['..'] * ups + a[n:], 'not minimal', lambda: f'{got}', wit)
            ctx.expect(B.relative_path_to(A) == got, 'to and from', lambda: f'{B.relative_path_to(A)} != {got}', wit)
            ctx.expect(isinstance(got, cls), 'type', f'{type(got)}', wit)
            c = A.commonpath(B)
            ctx.expect(norm(c) == norm(root + '/'.join(a[:n]) if root or n else '.') and isinstance(c, cls), 'common',
                       lambda: f'common path {c}', wit)
            ctx.expect(A.commonpath(B) == B.commonpath(A), 'common:order', 'commonpath depends on the order', wit)
            ctx.count('lexical')
            ctx.count('to')
            ctx.count('commonpath')
            ctx.count('equal' if a == b else ('ancestor' if up else 'cousin'))
            ctx.count('relative', not absolute)
            ctx.seen((tuple(a), tuple(b), absolute), ups > 0 or len(parts) > 1)
            if r.random() < .05:
                try:
                    x = cls('/' + '/'.join(a)).relative_path_from(cls('x/' + '/'.join(b)))
                    ctx.expect(False, 'mixed', f'absolute from relative gave {x}', wit)
                except ValueError:
                    ctx.count('mixed')

    for i in range(ctx.size(300, 5000)):
        if ctx.left() < ctx.budget * .3:
            break
        follow(ctx, aug, ctx.rng('follow', i), i, classes)
    for i in range(ctx.size(12, 200)):
        if ctx.time_up():
            break
        project(ctx, aug, ctx.rng('project', i), i)


def follow(ctx, aug, r, i, classes):
    """ a link made from the relative path leads to the file """
    d = ctx.newdir()
    a, b = pair(r)
    cls = r.choice(classes)
    if not a or not b or a == b or a == b[:len(a)] or b == a[:len(b)]:
        common.force_rmtree(d)
        return
    pa, pb = os.path.join(d, *a), os.path.join(d, *b)
    with ctx.case('follow', lambda: dict(i=i, a=a, b=b)):
        os.makedirs(os.path.dirname(pa), exist_ok=True)
        os.makedirs(os.path.dirname(pb), exist_ok=True)
        home = os.getcwd()
        try:
            if r.random() < .5:
                os.chdir(d)
                A, B = cls(*a), cls(*b)
            else:
                A, B = cls(pa), cls(pb)
            A.write_bytes(b'here')
            os.mkdir(pb)    # what the other is on disk does not matter, only where it is
            n = next(j for j, (x, y) in enumerate(zip(a, b)) if x != y)
            ctx.expect(list(A.relative_path_from(B).parts) == ['..'] * (len(b) - n - 1) + a[n:], 'follow:folder',
                       lambda: f'{A.relative_path_from(B)} from the folder {B}', dict(i=i, a=a, b=b))
            os.rmdir(pb)
            B.symlink_to(A.relative_path_from(B))
            ctx.expect(os.path.realpath(pb) == os.path.realpath(pa), 'follow:elsewhere', f'{os.readlink(pb)}', dict(i=i))
            ctx.expect(B.readlink() == pathlib.PurePath(os.readlink(pb)) and B.readlink(raw=True) == os.readlink(pb),
                       'follow:readlink', f'{B.readlink()!r}', dict(i=i))
            os.rename(d, str(d) + '-moved')
            os.rename(str(d) + '-moved', d)
        finally:
            os.chdir(home)
        ctx.count('followed')
    common.force_rmtree(d)


def project(ctx, aug, r, i):
    """ names and relative positions inside of a project """
    w = model.World(ctx, aug, r, ndirs=6, nfiles=7, default_place=True)
    with ctx.case('project', lambda: dict(i=i)):
        w.bootstrap()
        nodes = list(w.store.rchildren(w.store.root))
        for f in r.sample(w.files, 3):
            w.local(f).cache.fetch()
        for n in nodes:
            c = w.local(n.parent).cache
            k = c / n.name
            ctx.expect(k is not None and k.id == n.id and str(k) == str(w.where(n)) and isinstance(k, w.C),
                       'child', lambda: f'{c} / {n.name!r} is {k!r}', dict(i=i, n=n.name))
            k = c / w.R(n.id)
            ctx.expect(k.id == n.id and str(k.local) == str(w.where(n)), 'remote child',
                       lambda: f'{c} / remote {n.name!r} is {k!r}', dict(i=i))
            ctx.count('cached_child')
            ctx.count('remote_child')
            ctx.expect(w.R(n.id).as_path() == w.store.path(n), 'as_path', f'{w.R(n.id).as_path()}')
            for rp in (c.local.cache.remote, w.local(n).cache.remote, k.remote):
                m = w.store.nodes[rp.id]
                ctx.expect(str(rp.as_path()) == str(w.store.path(m)), 'as_path:cached', lambda: f'{rp.as_path()} {w.store.path(m)}', dict(i=i, n=n.name))
            up = r.choice([x for x in w.store.parents(n)])
            ctx.expect(tuple(map(str, w.local(n).cache.remote._parts_relative_to(w.R(up.id), cache_parent=w.local(n).cache.parent)))
                       == w.where(n).relative_to(w.where(up)).parts, 'as_path:relative', lambda: f'{n.name} {up.name}', dict(i=i, n=n.name))
            ctx.expect([x.id for x in w.R(n.id).parents] == [x.id for x in w.store.parents(n)], 'parents', lambda: f'{list(w.R(n.id).parents)}', dict(i=i, n=n.name))
            ctx.count('named_like_root', any(x.name == w.store.root.name for x in w.store.parents(n)[:-1]))
            if n.parent is not w.store.root:
                k = w.anchor / w.R(n.id)
                ctx.expect(str(k.local) == str(w.where(n)) and k.id == n.id, 'remote descendant',
                           lambda: f'{k!r} for {w.where(n)}', dict(i=i))
            k = w.local(n).cache
            ctx.expect(k.anchor.local == w.anchor.local and str(k.local) == str(w.where(n)) and k.local.cache.id == n.id,
                       'round trip', f'{k!r}', dict(i=i))
            m = r.choice(nodes)
            la, lb = w.local(n), w.local(m)
            up = str(w.where(n) if n is m else '') or str(w.where(n)).startswith(str(w.where(m)) + '/')
            base = w.where(m) if up else w.where(m).parent
            ctx.expect(norm(base / la.relative_path_from(lb)) == str(w.where(n)), 'local relative',
                       lambda: f'{la.relative_path_from(lb)}', dict(i=i))
            ctx.count('cache_relative')
        try:
            x = w.anchor / 'no such name'
            ctx.expect(False, 'missing child', f'{x!r}')
        except FileNotFoundError:
            pass
    w.close()
