""" what is at a path """
import errno
import mimetypes
import os
import pathlib
import stat

from .. import common, gen, model

RULE = ('every kind of file system object, behind every kind of link, in directories that cannot be searched, under names that '
        'cannot exist, asked for every predicate through absolute and relative paths and compared with lstat and stat; '
        'non-trivial when it is not a plain existing file')

IGNORED = (errno.ENOENT, errno.ENOTDIR, errno.EBADF, errno.ELOOP)


def oracle(p):
    """ predicate -> value or the errno that has to surface """
    out = {}
    try:
        l = os.lstat(p)
        lerr = None
    except OSError as e:
        l, lerr = None, e.errno
    try:
        s = os.stat(p)
        serr = None
    except OSError as e:
        s, serr = None, e.errno

    def val(st, err, f):
        if st is not None:
            return f(st)
        return False if err in IGNORED else ('errno', err)

    out['exists'] = val(s, serr, lambda s: True)
    out['is_dir'] = val(s, serr, lambda s: stat.S_ISDIR(s.st_mode))
    out['is_file'] = val(s, serr, lambda s: stat.S_ISREG(s.st_mode))
    out['is_symlink'] = val(l, lerr, lambda s: stat.S_ISLNK(s.st_mode))
    e, k = out['exists'], out['is_symlink']
    # both are two questions, the second is not asked if the first settles it and it does not matter which is the first
    no = lambda x: x if isinstance(x, tuple) else not x
    first = lambda x, y: y if x is True else x
    out['is_broken_symlink'] = Either(first(k, no(e)), first(no(e), k))
    out['exists_not_symlink'] = Either(first(e, no(k)), first(no(k), e))
    return out


class Either:
    """ equal to one of two answers """

    def __init__(self, *answers):
        self.answers = answers

    def __eq__(self, other):
        return other in self.answers

    def __repr__(self):
        return ' or '.join(dict.fromkeys(map(repr, self.answers)))


def build(d):
    """ a zoo """
    d = str(d)
    os.makedirs(d + '/dir/sub')
    for n in ('file', 'dir/file', 'é.csv', 'name with  spaces', 'new\nline', 'u\udcff', 'x' * 255):
        open(f'{d}/{n}', 'w').close()
    os.mkfifo(d + '/fifo')
    import socket
    s = socket.socket(socket.AF_UNIX)
    home = os.getcwd()
    os.chdir(d)
    s.bind('sock')
    os.chdir(home)
    s.close()
    for n, t in dict(toself='toself', a='b', b='a', tofile='file', todir='dir', broken='nope', tofifo='fifo', chain='tofile',
                     chain2='chain', tochain='broken', indir='dir/../file', throughfile='file/x', deep='dir/sub/nope',
                     up='..', here='.', null='/dev/null', absolute=d + '/file', loopdir='loopdir/x',
                     data='N:package:1/.meta.name.10.x.y', longlink='/'.join(['q' * 200] * 5),
                     toolong='q' * 256).items():
        os.symlink(t, f'{d}/{n}')
    os.makedirs(d + '/closed/inner')
    open(d + '/closed/inner/f', 'w').close()
    open(d + '/closed/f', 'w').close()
    os.symlink('closed/f', d + '/toclosed')
    os.mkdir(d + '/locked')
    open(d + '/locked/f', 'w').close()
    open(d + '/secret', 'w').close()
    os.chmod(d + '/secret', 0)
    return ['.', '..', 'file', 'dir', 'dir/file', 'dir/sub', 'é.csv', 'name with  spaces', 'new\nline', 'u\udcff', 'x' * 255,
            'fifo', 'sock', 'toself', 'a', 'b', 'tofile', 'todir', 'todir/file', 'broken', 'broken/x', 'tofifo', 'chain',
            'chain2', 'tochain', 'indir', 'throughfile', 'deep', 'up', 'here', 'here/file', 'null', 'absolute', 'loopdir',
            'loopdir/y', 'data', 'missing', 'missing/x', 'file/x', 'file/x/y', 'a/x', 'longlink', 'toolong', 'closed',
            'closed/f', 'closed/inner', 'closed/inner/f', 'toclosed', 'locked', 'locked/f', 'locked/missing', 'secret',
            'y' * 256, 'y' * 5000, 'dir/..', 'todir/../file', 'missing/../file']


PRED = ['exists', 'is_dir', 'is_file', 'is_symlink', 'is_broken_symlink', 'exists_not_symlink']


def survey(aug, d, names, kinds, rel):
    """ [(name, kind, predicate, got, want)] """
    out = []
    n = 0
    os.chdir(d)
    classes = dict(AugmentedPath=aug.AugmentedPath, LocalPath=aug.LocalPath)
    for name in names:
        path = name if rel else os.path.join(d, name)
        want = oracle(path)
        for k in kinds:
            p = classes[k](path)
            for f in PRED:
                try:
                    got = getattr(p, f)()
                except OSError as e:
                    got = ('errno', e.errno)
                n += 1
                if got != want[f]:
                    out.append((name[:40], k, f, repr(got), repr(want[f])))
            for mode, m in (('read', os.R_OK), ('write', os.W_OK), ('execute', os.X_OK)):
                for follow in (True, False):
                    n += 1
                    got = p.access(mode, follow_symlinks=follow)
                    if got != os.access(path, m, follow_symlinks=follow) or p.access(m, follow_symlinks=follow) != got:
                        out.append((name[:40], k, f'access {mode} {follow}', repr(got), 'os.access'))
            try:
                link = os.readlink(path)
            except OSError as e:
                link = ('errno', e.errno)
            try:
                got = p.readlink(raw=True)
                if p.readlink() != pathlib.PurePath(link):
                    out.append((name[:40], k, 'readlink', repr(p.readlink()), repr(link)))
            except OSError as e:
                got = ('errno', e.errno)
            n += 1
            if got != link:
                out.append((name[:40], k, 'readlink raw', repr(got), repr(link)))
    return dict(bad=out, n=n, states=sorted({str(sorted(oracle(x if rel else os.path.join(d, x)).items())) for x in names}))


def main(ctx):
    aug = common.load_library()
    ctx.require('predicates', 'unprivileged', 'mimetype', 'encoding', 'directory_type', 'nul', 'random', 'states')
    d = ctx.newdir()
    names = build(d)
    states = set()
    for rel in (False, True):
        for user in ('root', 'nobody'):
            def fn():
                if user == 'nobody':
                    os.chmod(d / 'closed', 0)
                    os.chmod(d / 'locked', 0o600)
                    os.setgid(65534)
                    os.setuid(65534)
                return survey(aug, str(d), names, ['AugmentedPath', 'LocalPath'], rel)
            with ctx.case(f'survey {user}', lambda: dict(rel=rel)):
                code, got = common.fork_child(fn)
                ctx.expect(code == 0, 'survey:failed', lambda: f'{got}', got)
                if code == 0:
                    ctx.count('predicates', got['n'])
                    ctx.counts['assertions'] = ctx.counts.get('assertions', 0) + got['n']
                    ctx.count('unprivileged', got['n'] if user == 'nobody' else 0)
                    states |= set(got['states'])
                    for name, k, f, g, w in got['bad']:
                        ctx.violation(f'{f}', f'{user}: {k}({name!r}).{f} is {g}, the file system says {w}', dict(rel=rel))
            for x in names:
                ctx.seen((x, rel, user))
    ctx.count('states', len(states))
    os.chmod(d / 'closed', 0o700)
    os.chmod(d / 'locked', 0o700)
    with ctx.case('nul'):
        for cls in (aug.AugmentedPath, aug.LocalPath):
            p = cls(str(d / 'a\0b'))
            for f in PRED:
                ctx.expect(getattr(p, f)() is False, f'{f}:nul', f'a name with a NUL: {f} is {getattr(p, f)()}')
                ctx.count('nul')
    links(ctx, aug)
    mimes(ctx, aug)


def links(ctx, aug):
    """ random webs of links, directories and files """
    home = os.getcwd()
    for i in range(ctx.size(300, 8000)):
        if ctx.left() < ctx.budget * .3:
            break
        r = ctx.rng('web', i)
        d = str(ctx.newdir())
        names = ['a', 'b', 'c', 'd', 'e', 'f']
        for n in names:
            k = r.randrange(6)
            if k == 0:
                open(f'{d}/{n}', 'w').close()
            elif k == 1:
                os.mkdir(f'{d}/{n}')
            elif k < 5:
                t = '/'.join(r.choice(names + ['..', '.', 'g']) for _ in range(r.randrange(1, 4)))
                os.symlink(t if r.random() < .7 else f'{d}/{t}', f'{d}/{n}')
        with ctx.case('web', lambda: dict(i=i)):
            ask = ['/'.join(r.choice(names) for _ in range(r.randrange(1, 4))) for _ in range(12)]
            got = survey(aug, d, ask, ['AugmentedPath', 'LocalPath'], r.random() < .5)
            for name, k, f, g, w in got['bad']:
                ctx.violation(f, f'{k}({name!r}).{f} is {g}, the file system says {w}', dict(i=i))
            ctx.count('random', got['n'])
            ctx.counts['assertions'] = ctx.counts.get('assertions', 0) + got['n']
            ctx.seen((tuple(got['states'])))
        os.chdir(home)
        common.force_rmtree(d)


def mimes(ctx, aug):
    """ the type depends on the name, and on being a directory, not on how the path is written """
    d = ctx.newdir()
    home = os.getcwd()
    stems = ['a', 'a b', 'é', 'x.y', '.h', 'N:1', 'q?x', 'p%41', 'h#t', 'u\udcff', 'c,d', 'data:,x', '漢']
    exts = ['.txt', '.png', '.csv', '.json', '.tar.gz', '.xml', '.pdf', '.TXT', '', '.unknown', '.gz', '.bz2', '.html', '.py',
            '.mp4', '.tif', '.tgz', '.svgz']
    os.chdir(d)
    try:
        for i in range(ctx.size(600, 6000)):
            r = ctx.rng('mime', i)
            name = r.choice(stems) + r.choice(exts)
            other = r.choice(stems) + r.choice(exts)
            kind = r.choice(['file', 'file', 'missing', 'dir', 'link', 'broken', 'self', 'todir'])
            p = str(d / name)
            if os.path.lexists(p):
                if os.path.isdir(p) and not os.path.islink(p):
                    os.rmdir(p)
                else:
                    os.unlink(p)
            if kind == 'file':
                open(p, 'w').close()
            elif kind == 'dir':
                os.mkdir(p)
            elif kind in ('link', 'broken', 'self', 'todir'):
                t = dict(link=other, broken='nope/' + other, self=name, todir='.')[kind]
                if t == name:
                    kind = 'self'
                os.symlink(t, p)
            wit = lambda: dict(i=i, name=name, kind=kind)
            with ctx.case('mime', wit):
                isdir = os.path.isdir(p)
                m, e = mimetypes.guess_type(name.replace(':', '_'))
                for q in (name, p, './' + name):
                    a = r.choice([aug.AugmentedPath, aug.LocalPath])(q)
                    ctx.expect(a.mimetype == ('inode/directory' if isdir else m), 'mimetype',
                               lambda: f'{q}: {a.mimetype}', wit)
                    ctx.expect(a.encoding == e, 'encoding', lambda: f'{q}: {a.encoding}', wit)
                    ctx.count('mimetype')
                    ctx.count('encoding')
                    ctx.count('directory_type', isdir)
                ctx.seen((name, kind))
    finally:
        os.chdir(home)
