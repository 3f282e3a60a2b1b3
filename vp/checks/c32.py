""" an augmented path is a path """
import copy
import os
import pathlib
import pickle
import stat

from .. import common, model

RULE = ('random paths and sequences of file operations in two equal folders, one with the paths of the standard library and one with '
        'an augmented class, compared call by call (result, kind of error, what is on disk); non-trivial when the call gives a path '
        'with more than one part or changes something on disk')

NAMES = ['a', 'b', 'ab', 'a b', 'é', 'c.tar.gz', '.h', '...', '-', 'a.b', 'A', '漢.x', 'b\n', '~', 'a\\b', 'u\udcff', '[x]', '*', '.b.c', 'e.', 'x' * 60]
GLOBS = ['*', '**', '*.*', 'a*', '**/a', '?', '[ab]', '**/*.gz', '*/b', '.*', '[[]x]', 'a/../*', '**/.*', 'A', 'b/', '*/', '../*', '*/*/*']


class Twin:
    """ one folder and the class whose paths are used in it """
    def __init__(self, place, cls):
        self.place, self.cls = place, cls
        self.held = {}

    def path(self, s, hold):
        """ the path, the object that was there before if it is to be held """
        return self.held.setdefault(s, self.cls(s)) if hold else self.cls(s)

    def seen(self, v):
        """ a result with the place and the class taken out """
        if isinstance(v, pathlib.PurePath):
            return ('path', self.seen(os.fspath(v)))
        if isinstance(v, bytes):
            return os.fsencode(self.seen(os.fsdecode(v)))
        if isinstance(v, str):
            return v.replace(os.path.dirname(os.path.dirname(self.place)), '<top>')
        if isinstance(v, os.stat_result):
            return ('stat', oct(v.st_mode), v.st_size if stat.S_ISREG(v.st_mode) else None, v.st_nlink, v.st_uid, v.st_gid)
        if isinstance(v, (list, tuple)):
            return [self.seen(x) for x in v]
        return v

    def call(self, fn):
        here = os.getcwd()
        os.chdir(self.place)
        try:
            try:
                v = fn(self)
            except RecursionError:
                raise
            except Exception as e:
                return ('raised', type(e).__name__, getattr(e, 'errno', None)), None
            return ('gave', self.seen(v)), v
        finally:
            os.chdir(here)


def snapshot(place):
    out = {}
    for base, ds, fs in os.walk(place):
        for n in ds + fs:
            p = os.path.join(base, n)
            st = os.lstat(p)
            k = os.path.relpath(p, place)
            if stat.S_ISLNK(st.st_mode):
                out[k] = ('link', os.readlink(p).replace(os.path.dirname(os.path.dirname(place)), '<top>'))
            elif stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as f:
                    out[k] = ('file', oct(st.st_mode), st.st_nlink, f.read())
            else:
                out[k] = ('other', oct(st.st_mode))
    return out


def text(r):
    k = r.randrange(12)
    if k == 0:
        return r.choice(['', '.', '..', '/', '//', '///', './', '~', '~/a', '/..', 'a/', 'a//b', './a', 'a/.', '//a/b', '../a', 'a/..', './/.'])
    s = r.choice(['/', '/', '//', '~/']) if k < 4 else ''
    parts = [r.choice(NAMES) if r.random() < .9 else r.choice(['.', '..', '']) for _ in range(r.randrange(1, 6))]
    return s + r.choice(['/', '/', '//', '/./']).join(parts) + ('/' if r.random() < .1 else '')


def other(r, kind, t, s):
    """ the same thing as an argument, in one of the forms it can have """
    if kind == 'text':
        return s
    if kind == 'plain':
        return pathlib.PurePosixPath(s)
    if kind == 'path':
        return pathlib.Path(s)
    return t.cls(s)


def near(r, s):
    """ something that is related to s """
    p = pathlib.PurePosixPath(s)
    k = r.randrange(6)
    if k == 0:
        return s
    if k < 4:
        ps = [str(x) for x in p.parents]
        return r.choice(ps) if ps else s
    if k == 4:
        return s + r.choice(['/', 'x', '/x', ' '])
    return text(r)


def pure(r):
    """ a call that does not touch the disk """
    s, o = text(r), text(r)
    k = r.choice(['text', 'plain', 'path', 'own'])
    c = near(r, s)
    n = r.choice(NAMES + ['', '.', 'a/b', '/', '..'])
    suffix = r.choice(['', '.x', '.tar.gz', 'x', '.', '..', '.a/b', './'])
    m = r.choice(GLOBS + [pathlib.PurePosixPath(s).name or 'x'])
    own = lambda t: t.cls(s)
    arg = lambda t, o=o: other(r, k, t, o)
    ops = dict(
        make=own, make2=lambda t: t.cls(s, arg(t)), make3=lambda t: t.cls(arg(t), s, arg(t)), none=lambda t: t.cls(), bad=lambda t: t.cls(s, r and 3),
        again=lambda t: t.cls(own(t)), div=lambda t: own(t) / arg(t), rdiv=lambda t: o / own(t), joinpath=lambda t: own(t).joinpath(arg(t), arg(t, c)),
        divbad=lambda t: own(t) / 3, parts=lambda t: own(t).parts, drive=lambda t: own(t).drive, root=lambda t: own(t).root, anchor=lambda t: pathlib.PurePath.anchor.fget(own(t)),
        parent=lambda t: own(t).parent, parents=lambda t: list(own(t).parents), parents_at=lambda t: own(t).parents[r and 1], parents_last=lambda t: own(t).parents[-1],
        parents_slice=lambda t: own(t).parents[:2], name=lambda t: own(t).name, suffix=lambda t: own(t).suffix, suffixes=lambda t: own(t).suffixes, stem=lambda t: own(t).stem,
        as_posix=lambda t: own(t).as_posix(), as_uri=lambda t: own(t).as_uri(), is_absolute=lambda t: own(t).is_absolute(), is_reserved=lambda t: own(t).is_reserved(),
        relative_to=lambda t: own(t).relative_to(arg(t, c)), is_relative_to=lambda t: own(t).is_relative_to(arg(t, c)),
        with_name=lambda t: own(t).with_name(n), with_stem=lambda t: own(t).with_stem(n), with_suffix=lambda t: own(t).with_suffix(suffix), match=lambda t: own(t).match(m),
        text=lambda t: str(own(t)), bytes=lambda t: bytes(own(t)), fspath=lambda t: os.fspath(own(t)), form=lambda t: f'{own(t)} {own(t)!s}',
        absolute=lambda t: own(t).absolute(), cwd=lambda t: t.cls.cwd(), expanduser=lambda t: own(t).expanduser(), home=lambda t: t.cls.home(),
        equal=lambda t: [own(t) == t.cls(c), own(t) == pathlib.PurePosixPath(c), own(t) == pathlib.Path(c), own(t) == c, pathlib.Path(c) == own(t), own(t) != t.cls(c)],
        order=lambda t: [own(t) < t.cls(o), own(t) <= pathlib.PurePosixPath(c), own(t) > t.cls(c), own(t) >= pathlib.Path(o)], order_bad=lambda t: own(t) < s,
        hash=lambda t: [hash(own(t)) == hash(pathlib.PurePosixPath(s)), len({own(t), t.cls(c), pathlib.Path(s)}), {own(t): 1}.get(pathlib.PurePosixPath(s))],
        sorted=lambda t: sorted([t.cls(o), own(t), t.cls(c)]), copy=lambda t: copy.copy(own(t)), deepcopy=lambda t: copy.deepcopy(own(t)),
        pickle=lambda t: pickle.loads(pickle.dumps(own(t), r and 4)), resolve=lambda t: own(t).resolve(), bool=lambda t: bool(own(t)),
    )
    name = r.choice(list(ops))
    return name, ops[name], dict(s=s, o=o, c=c, kind=k, n=n, suffix=suffix, m=m)


def disk(r, places):
    """ a call that does """
    absolute = r.random() < .3
    s, o = r.choice(places), r.choice(places)
    if r.random() < .1:
        s = r.choice(['.', '..', '', s + '/' + r.choice(NAMES), s + '/..', s + '/.'])
    k = r.choice(['text', 'path', 'own'])
    data = r.choice([b'', b'x', b'line\nline\n', b'\xff\x00', 'é\n漢'.encode() * 50])
    words = r.choice(['', 'x\n', 'é漢\r\nb', 'a\nb\n'])
    mode = r.choice([0o700, 0o755, 0o500, 0o777, 0o600])
    g = r.choice(GLOBS)
    at = lambda t, s: os.path.join(t.place, s) if absolute else s
    hold = r.random() < .5
    own = lambda t: t.path(at(t, s), hold)
    arg = lambda t: other(r, k, t, at(t, o))
    target = lambda t: r and other(r, k, t, link)
    link = r.choice(places + ['.', '..', 'nowhere', os.path.basename(s), '../' + o, o + '/x'])
    opened = lambda t, m: _use(own(t).open(m))

    def _use(f):
        with f as f:
            return f.read() if 'r' in f.mode else f.write('new' if 'b' not in f.mode else b'new')

    def walk(t, **kw):
        return sorted((os.fspath(p), sorted(d), sorted(f)) for p, d, f in own(t).walk(**kw))

    ops = dict(
        mkdir=lambda t: own(t).mkdir(), mkdir_mode=lambda t: own(t).mkdir(mode), mkdir_parents=lambda t: own(t).mkdir(parents=True),
        mkdir_all=lambda t: own(t).mkdir(parents=True, exist_ok=True), mkdir_ok=lambda t: own(t).mkdir(exist_ok=True), rmdir=lambda t: own(t).rmdir(),
        unlink=lambda t: own(t).unlink(), unlink_ok=lambda t: own(t).unlink(missing_ok=True), touch=lambda t: own(t).touch(), touch_not=lambda t: own(t).touch(exist_ok=False),
        touch_mode=lambda t: own(t).touch(mode), rename=lambda t: own(t).rename(arg(t)) and None, replace=lambda t: own(t).replace(arg(t)),
        symlink=lambda t: own(t).symlink_to(target(t)), hardlink=lambda t: own(t).hardlink_to(arg(t)), write_bytes=lambda t: own(t).write_bytes(data),
        write_text=lambda t: own(t).write_text(words, encoding='utf-8'), write_newline=lambda t: own(t).write_text(words, encoding='utf-8', newline='\r\n'),
        read_bytes=lambda t: own(t).read_bytes(), read_text=lambda t: own(t).read_text(encoding='utf-8'), read_errors=lambda t: own(t).read_text('ascii', 'replace'),
        open_r=lambda t: opened(t, 'rb'), open_w=lambda t: opened(t, 'w'), open_a=lambda t: opened(t, 'ab'), open_x=lambda t: opened(t, 'x'),
        chmod=lambda t: own(t).chmod(mode), stat=lambda t: own(t).stat(), lstat=lambda t: own(t).lstat(), stat_link=lambda t: own(t).stat(follow_symlinks=False),
        iterdir=lambda t: sorted(own(t).iterdir()), glob=lambda t: sorted(own(t).glob(g)), rglob=lambda t: sorted(own(t).rglob(g)),
        walk=walk, walk_up=lambda t: walk(t, top_down=False), walk_links=lambda t: [len(x) for x in walk(t, follow_symlinks=False)],
        samefile=lambda t: own(t).samefile(arg(t)), owner=lambda t: own(t).owner(), group=lambda t: own(t).group(), resolve=lambda t: own(t).resolve(),
        absolute=lambda t: own(t).absolute(), is_mount=lambda t: own(t).is_mount(), is_fifo=lambda t: own(t).is_fifo(), is_socket=lambda t: own(t).is_socket(),
        is_block=lambda t: own(t).is_block_device(), is_char=lambda t: own(t).is_char_device(), exists=lambda t: own(t).exists(), is_file=lambda t: own(t).is_file(),
        is_dir=lambda t: own(t).is_dir(), is_symlink=lambda t: own(t).is_symlink(), readlink=lambda t: own(t).readlink(), scan=lambda t: sorted(e.name for e in os.scandir(own(t))),
        fsopen=lambda t: len(open(own(t), 'rb').read()), shuffle=lambda t: sorted(x.relative_to(own(t)) for x in own(t).rglob('*')),
    )
    if not hasattr(pathlib.Path, 'walk'):
        for w in ('walk', 'walk_up', 'walk_links'):
            del ops[w]
    if {'..', '.', ''} & set((s + '/' + o).split('/')):
        # the folder itself stays
        for w in ('chmod', 'rmdir', 'rename', 'replace', 'unlink', 'unlink_ok', 'iterdir', 'glob', 'rglob', 'walk', 'walk_up', 'walk_links', 'stat', 'lstat',
                  'stat_link', 'shuffle', 'scan'):
            ops.pop(w, None)
    if g.startswith('..'):
        ops.pop('glob', None)
        ops.pop('rglob', None)
    change = ['mkdir', 'mkdir_parents', 'mkdir_all', 'write_bytes', 'write_text', 'symlink', 'hardlink', 'rename', 'replace', 'unlink', 'touch', 'rmdir', 'chmod', 'open_x']
    name = r.choice(list(ops) if r.random() < .6 else [c for c in change if c in ops])
    return name, ops[name], dict(s=s, o=o, kind=k, link=link, g=g, mode=oct(mode), absolute=absolute)


PATHS = {'make', 'make2', 'make3', 'none', 'again', 'div', 'rdiv', 'joinpath', 'parent', 'relative_to', 'with_name', 'with_stem', 'with_suffix', 'absolute', 'cwd', 'expanduser',
         'home', 'copy', 'deepcopy', 'pickle', 'resolve', 'parents', 'parents_slice', 'sorted', 'iterdir', 'glob', 'rglob', 'replace', 'shuffle', 'parents_at', 'parents_last'}


def room(ctx):
    """ a folder that has nothing in common with another one, also two steps up """
    place = os.path.join(ctx.newdir(), 'up', 'here')
    os.makedirs(place)
    return place


def main(ctx):
    aug = common.load_library()
    from augpathlib import core, package, zip as azip
    classes = [aug.AugmentedPath, core.EatPath, aug.LocalPath, aug.RepoPath, core.XopenPath, azip.ZipPath, package.PackagePath]

    class Mine(aug.LocalPath):
        """ somebody's own class """

    Mine._bind_flavours()
    Mine.__qualname__ = Mine.__name__ = 'Mine'
    globals()['Mine'] = Mine
    classes.append(Mine)
    ctx.require('pure', 'disk', 'raised', 'changed', 'pickle', 'order', 'hash', 'glob', 'rglob', 'rename', 'replace', 'symlink', 'walk', 'resolve', 'relative_to',
                'with_suffix', 'mkdir_parents', 'hardlink', 'samefile', *{f'class:{c.__name__}' for c in classes})
    old = os.environ.get('HOME')
    n = ctx.size(26000, 600000)
    for i in range(n):
        if ctx.left() < ctx.budget * .55:
            break
        r = ctx.rng('pure', i)
        cls = r.choice(classes)
        if i % 4000 == 0:
            home = ctx.newdir()
            os.environ['HOME'] = str(home)
            place = room(ctx)
        name, fn, how = pure(r)
        wit = lambda: dict(i=i, cls=cls.__name__, op=name, **how)
        with ctx.case('pure', wit):
            want, _ = Twin(place, pathlib.PosixPath).call(fn)
            got, v = Twin(place, cls).call(fn)
            ctx.expect(got == want, f'pure:{name}', lambda: f'{name} gives {got}, a path gives {want}', wit)
            if name in PATHS and got[0] == 'gave':
                mine = type(cls(''))
                for p in (v if isinstance(v, (list, tuple)) else [v]):
                    ctx.expect(type(p) is mine, f'class:{name}', lambda: f'{name} gives a {type(p)} from a {mine}', wit)
            ctx.count('pure')
            ctx.count('raised', got[0] == 'raised')
            ctx.count(name)
            ctx.count(f'class:{cls.__name__}')
            ctx.seen((name, cls.__name__, repr(how)), got[0] == 'gave' and isinstance(v, pathlib.PurePath) and len(v.parts) > 1)
            ctx.sample(wit())

    j = 0
    ctx.budget *= .85
    rounds = ctx.size(130, 4000)
    while j < rounds and not ctx.time_up():
        r = ctx.rng('disk', j)
        cls = r.choice(classes)
        twins = Twin(room(ctx), pathlib.PosixPath), Twin(room(ctx), cls)
        names = r.sample(NAMES[:17], 5)
        places = names + [a + '/' + b for a in names[:3] for b in names[:4]] + [f'{names[0]}/{names[1]}/{names[2]}']
        steps = []
        for step in range(45):
            name, fn, how = disk(r, places)
            steps.append((name, how))
            wit = lambda: dict(j=j, cls=cls.__name__, op=name, how=how, steps=[f'{a} {b["s"]!r} {b["o"]!r}' for a, b in steps])
            with ctx.case('disk', wit):
                before = snapshot(twins[0].place)
                want, _ = twins[0].call(fn)
                got, v = twins[1].call(fn)
                after = snapshot(twins[0].place)
                ctx.expect(got == want, f'disk:{name}', lambda: f'{name} gives {got}, a path gives {want}', wit)
                mine = snapshot(twins[1].place)
                ctx.expect(mine == after, f'left:{name}',
                           lambda: f'{name} leaves something else: {[(k, mine.get(k), after.get(k)) for k in sorted({*mine, *after}) if mine.get(k) != after.get(k)][:3]}', wit)
                if name in PATHS and got[0] == 'gave':
                    t = type(cls(''))
                    for p in (v if isinstance(v, (list, tuple)) else [v]):
                        ctx.expect(type(p) is t, f'class:{name}', lambda: f'{name} gives a {type(p)} from a {t}', wit)
                ctx.count('disk')
                ctx.count(name)
                ctx.count('raised', got[0] == 'raised')
                ctx.count('changed', before != after)
                ctx.seen((j, step), before != after)
            if mine != after:
                break
        for t in twins:
            for base, ds, fs in os.walk(t.place):
                os.chmod(base, 0o700)
        j += 1
    if old is not None:
        os.environ['HOME'] = old
    ctx.budget /= .85
    ctx.require('cached', 'cached:none', 'cached:root', 'cached:placeholder')
    for k in range(ctx.size(12, 300)):
        if k > 4 and ctx.time_up():
            break
        cached(ctx, aug, k)


def cached(ctx, aug, k):
    """ the paths of a cache are paths, and every one that is reached knows what it is """
    r = ctx.rng('cached', k)
    w = model.World(ctx, aug, r, ndirs=r.randrange(2, 6), nfiles=r.randrange(3, 8))
    try:
        w.bootstrap()
        for n in w.files:
            if r.random() < .4:
                w.local(n).cache.fetch(size_limit_mb=None)
        mine = w.root / r.choice(['mine', 'a.txt', 'a.tar.gz'])
        if not os.path.lexists(mine):
            mine.write_bytes(b'mine')
        nodes = list(w.store.nodes.values())
        held = {}
        for step in range(40):
            n = r.choice(nodes)
            at = w.where(n)
            sibling = r.choice([x for x in nodes if x.parent is n.parent])
            name = r.choice([sibling.name, n.name, n.name + 'x', 'mine'])
            suffix = r.choice(['', '.txt', at.suffix, '.gz'])
            up = w.where(r.choice([n, *w.store.parents(n)]))
            g = r.choice(GLOBS)
            ops = dict(
                parent=lambda c: c.parent, parents=lambda c: list(c.parents), grand=lambda c: c.parent.parent, name=lambda c: c.name, stem=lambda c: c.stem,
                suffix=lambda c: c.suffix, suffixes=lambda c: c.suffixes, parts=lambda c: c.parts, text=str, fspath=os.fspath, as_posix=lambda c: c.as_posix(),
                with_name=lambda c: c.with_name(name), with_suffix=lambda c: c.with_suffix(suffix), with_stem=lambda c: c.with_stem(n.name), absolute=lambda c: c.absolute(),
                relative=lambda c: os.fspath(c.relative_to(up)), is_relative_to=lambda c: c.is_relative_to(up), match=lambda c: c.match(g), copy=copy.copy,
                deepcopy=copy.deepcopy, iterdir=lambda c: sorted(c.iterdir()), glob=lambda c: sorted(c.glob(g)), rglob=lambda c: sorted(c.rglob(g)),
                child=lambda c: c.parent.joinpath(n.name), is_dir=lambda c: c.is_dir(), exists=lambda c: c.exists(), equal=lambda c: [c == at, hash(c) == hash(at), c != up],
                order=lambda c: [c < up, c >= up], is_symlink=lambda c: c.is_symlink(), first=lambda c: c.parents[0], absolute_parent=lambda c: c.absolute().parent)
            if g.startswith('..') or '/../' in g:
                ops.pop('glob'), ops.pop('rglob')
            if n is w.store.root:
                ops.pop('child')  # the root has no parent in the project
            op = r.choice(list(ops))
            fn = ops[op]
            t = Twin(str(w.root), None)
            wit = lambda: dict(k=k, step=step, op=op, at=str(at), name=name, suffix=suffix, g=g, up=str(up))
            with ctx.case('cached', wit):
                c = held.setdefault(str(at), w.local(n).cache) if r.random() < .5 else w.local(n).cache
                if r.random() < .5:
                    ctx.expect(c.id == n.id and c.meta.id == n.id, 'cached:own', lambda: f'{c!r} is not {n.id}', wit)
                want, _ = t.call(lambda t: fn(pathlib.Path(at)))
                got, v = t.call(lambda t: fn(c))
                ctx.expect(got == want, f'cached:{op}', lambda: f'{op} of a cache gives {got}, of a path {want}', wit)
                for p in v if isinstance(v, list) else [v]:
                    if not isinstance(p, pathlib.PurePath):
                        continue
                    ctx.expect(type(p) is type(c), f'cached class:{op}', lambda: f'{op} gives a {type(p)}', wit)
                    if r.random() < .5:
                        held[str(p)] = p
                    there = w.meta_at(pathlib.Path(p)) if os.path.lexists(p) else None
                    ctx.expect(p.id == (there.id if there else None), f'cached id:{op}',
                               lambda: f'{op} gives {p!r} with id {p.id!r}, at that place is {there.id if there else None!r}', wit)
                    ctx.expect(str(p.local) == str(p), f'cached local:{op}', lambda: f'{p.local} for {p}', wit)
                    ctx.count('cached:none' if there is None else 'cached')
                    ctx.count('cached:root', bool(there) and there.id == w.store.root.id)
                    ctx.count('cached:placeholder', os.path.islink(p))
                ctx.seen(('cached', k, step))
    finally:
        w.close()
