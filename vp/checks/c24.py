""" paths that lead into zip files """
import os
import shutil
import threading
import warnings
import zipfile
from pathlib import PurePosixPath

from .. import common

RULE = ('random archives compared with the members they were made from; non-trivial when there are folders, duplicates, several '
        'chunks, a nested archive or a later version of the archive')

NAMES = ['a', 'b', 'c.txt', 'd d', 'é漢', '.hidden', '.git', 'x.zip', 'A', '-n', "q'", '%', '#', '~', 'N:p:1', 'a.b.c', '.operations', '__pycache__']
LOOKALIKE = [b'', b'PK', b'PK\x03\x04 not really', b'text', b'\0' * 100]


class Model:
    """ name → None for folders, bytes for files """

    def __init__(self):
        self.files = {}
        self.dirs = {PurePosixPath('.')}

    def fits(self, name):
        p = PurePosixPath(name)
        if name.endswith('/'):
            return p not in self.files and not any(x in self.files for x in p.parents)
        return p not in self.dirs and not any(x in self.files for x in p.parents)

    def add(self, name, content):
        p = PurePosixPath(name)
        self.dirs.update(p.parents)
        if name.endswith('/'):
            self.dirs.add(p)
        else:
            self.files[p] = content

    @property
    def all(self):
        return {*self.files, *self.dirs}


def content(r, chunk):
    n = r.choice([0, 0, 1, 5, 100, chunk - 1, chunk, chunk + 1, 3 * chunk + 7])
    return r.randbytes(n) if r.random() < .6 else b'la' * (n // 2)


def archive(ctx, r, path, chunk):
    """ write a random archive """
    m = Model()
    warnings.simplefilter('ignore')
    with zipfile.ZipFile(path, 'w') as z:
        for _ in range(r.choice([0, 1, 3, 8, 15])):
            name = '/'.join(r.choice(NAMES) for _ in range(r.choice([1, 1, 2, 3, 5])))
            k = r.random()
            if k < .1:
                name = name.replace('/', '//', 1)
            elif k < .15:
                name = './' + name
            if r.random() < .25:
                name += '/'
            if not m.fits(name):
                continue
            if m.files and r.random() < .15:
                name = str(r.choice(sorted(m.files)))
                ctx.count('duplicate')
            c = b'' if name.endswith('/') else content(r, chunk)
            z.writestr(name, c, compress_type=r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2]))
            m.add(name, c)
            ctx.count('dir_member' if name.endswith('/') else 'file_member')
        if r.random() < .2 and m.fits('in.zip'):
            inner = str(path) + '.inner'
            with zipfile.ZipFile(inner, 'w') as zz:
                zz.writestr('deep', b'deep')
            with open(inner, 'rb') as f:
                c = f.read()
            os.unlink(inner)
            z.writestr('in.zip', c)
            m.add('in.zip', c)
            ctx.count('nested')
        if r.random() < .3:
            z.comment = b'comment'
    ctx.count('empty', not m.files and len(m.dirs) == 1)
    return m


def raises(fn, *kinds):
    try:
        fn()
    except kinds:
        return True
    return False


def check(ctx, ZipPath, r, zp, m, wit, where):
    """ zp the spelling of an archive with members m """
    ctx.count('checked')
    root = zp.asInternal()
    ctx.expect(zp.zip_path == zp, f'{where} zip_path', lambda: f'{zp} {zp.zip_path}', wit)
    ctx.expect(zp.exists() and root.is_dir() and str(root) == '.', f'{where} root', lambda: f'{zp} {root!r}', wit)
    got = [PurePosixPath(str(p)) for p in root.rchildren]
    ctx.expect(sorted(got) == sorted(m.all - {PurePosixPath('.')}), f'{where} members',
               lambda: f'{sorted(got)} want {sorted(m.all)}', wit)
    out = [str(p) for p in zp.rchildren]
    ctx.expect(sorted(out) == sorted(str(zp / str(p)) for p in got), f'{where} outside members', lambda: f'{out}', wit)
    ctx.count('listed')
    for p in sorted(m.all):
        if r.random() < .3 and len(m.all) > 6:
            continue
        o = ZipPath(zp, str(p)) if r.random() < .5 else zp / str(p)
        i = o.asInternal() if r.random() < .5 else o.zip_relative_path
        isdir = p in m.dirs
        ctx.expect(o.zip_path == zp and o.exists() and i.exists(), f'{where} exists', lambda: f'{o} {o.zip_path}', wit)
        ctx.expect(str(i) == str(p), f'{where} internal', lambda: f'{i} {p}', wit)
        ctx.expect(i.is_dir() == isdir, f'{where} kind', lambda: f'{i} {i.is_dir()}', wit)
        ch = sorted(str(x) for x in i.children)
        want = sorted(str(x) for x in m.all if x.parent == p and x != p)
        ctx.expect(ch == want, f'{where} children', lambda: f'{p}: {ch} want {want}', wit)
        rch = sorted(str(x) for x in o.rchildren)
        rwant = sorted(str(zp / str(x)) for x in m.all if p in x.parents)
        ctx.expect(rch == rwant, f'{where} rchildren', lambda: f'{p}: {rch} want {rwant}', wit)
        if isdir:
            ctx.expect(raises(o.open, IsADirectoryError) and raises(lambda: list(i.data), IsADirectoryError), f'{where} open folder',
                       lambda: f'{o}', wit)
            ctx.count('folder')
        else:
            with o.open() as f:
                c = f.read()
            d = list(i.data)
            ctx.expect(c == m.files[p], f'{where} content', lambda: f'{o} {c[:50]!r} {m.files[p][:50]!r}', wit)
            ctx.expect(b''.join(d) == m.files[p] and all(d), f'{where} data', lambda: f'{o} {[len(x) for x in d]}', wit)
            ctx.count('multichunk', len(d) > 1)
            ctx.count('read')
            # there is nothing inside of a file
            no = o / 'deep'
            ctx.expect(not no.exists() and raises(no.open, FileNotFoundError, NotADirectoryError), f'{where} inside of file', lambda: f'{no}', wit)
        no = o / r.choice(['no', 'no/no', 'a.', 'deep'])
        if PurePosixPath(str(no.zip_relative_path)) not in m.all:
            ni = no.zip_relative_path
            ctx.expect(not no.exists() and not ni.exists() and not ni.is_dir() and no.zip_path == zp, f'{where} missing exists', lambda: f'{no}', wit)
            ctx.expect(raises(no.open, FileNotFoundError) and raises(lambda: list(ni.data), FileNotFoundError), f'{where} missing open',
                       lambda: f'{no}', wit)
            ctx.expect(not list(ni.children) and not list(ni.rchildren), f'{where} missing children', lambda: f'{no}', wit)
            ctx.count('missing_member')
    ctx.seen((where, sorted(map(str, m.all)), [len(x) for x in m.files.values()]), len(m.all) > 1)


def together(ctx, r, zp, m, wit):
    """ several readers of the same members, some stop early """
    files = sorted(m.files)
    if not files:
        return
    readers = []
    for _ in range(r.choice([2, 3, 5])):
        p = r.choice(files[:2])
        readers.append([p, (zp / str(p)).asInternal().data, b'', False])
    live = list(readers)
    while live:
        x = r.choice(live)
        try:
            x[2] += next(x[1])
        except StopIteration:
            live.remove(x)
            continue
        if r.random() < .1:
            x[1].close()
            x[3] = True
            live.remove(x)
            ctx.count('stopped_early')
    for p, _, got, early in readers:
        want = m.files[p]
        ctx.expect(want.startswith(got) if early else got == want, 'interleaved', lambda: f'{p} {len(got)} of {len(want)}', wit)
        ctx.count('interleaved')
    fails = []

    def work(seed):
        rr = common.random.Random(seed)
        try:
            for _ in range(5):
                p = rr.choice(files)
                i = (zp / str(p)).asInternal()
                if b''.join(i.data) != m.files[p]:
                    fails.append(str(p))
        except BaseException as e:
            fails.append(repr(e))
    ts = [threading.Thread(target=work, args=(r.random(),)) for _ in range(3)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ctx.expect(not fails, 'threads', lambda: f'{fails}', wit)
    ctx.count('threaded')


def main(ctx):
    aug = common.load_library()
    from augpathlib.zip import ZipPath, ZipInternalPath
    chunk = ZipInternalPath.chunksize
    ctx.require('checked', 'listed', 'folder', 'read', 'multichunk', 'missing_member', 'duplicate', 'nested', 'empty', 'interleaved',
                'stopped_early', 'threaded', 'changed', 'same_object', 'chdir', 'symlinked', 'suffixless', 'lookalike', 'plain_dir', 'missing',
                'removed', 'plain_file', 'created', 'replaced_by_dir')
    i = 0
    while i < ctx.size(80, 3000) and not ctx.time_up():
        scenario(ctx, ZipPath, chunk, ctx.rng(i), i)
        i += 1
    os.chdir('/')


def touched(path, n):
    """ a later version is never of the same age """
    os.utime(path, ns=(10**18 + n * 10**9,) * 2)


def plain(ctx, ZipPath, p, wit, where):
    """ not an archive: like any other path """
    ctx.expect(p.zip_path is None and p.zip_relative_path is None and p.asInternal() is None, f'{where} not an archive', lambda: f'{p} {p.zip_path}', wit)
    ctx.expect(p.exists() == os.path.exists(p), f'{where} exists', lambda: f'{p} {p.exists()}', wit)
    if os.path.isfile(p):
        with p.open('rb') as f, open(p, 'rb') as g:
            ctx.expect(f.read() == g.read(), f'{where} content', lambda: f'{p}', wit)
        q = p / 'inside'
        ctx.expect(q.zip_path is None and not q.exists(), f'{where} inside', lambda: f'{q}', wit)
    elif not os.path.exists(p):
        ctx.expect(raises(p.open, FileNotFoundError, NotADirectoryError), f'{where} open', lambda: f'{p}', wit)


def scenario(ctx, ZipPath, chunk, r, i):
    d = ctx.newdir()
    os.chdir(d)
    n = [0]
    log = []
    wit = lambda: dict(i=i, log=log)
    with ctx.case('zip', wit):
        sub = d / r.choice(['s', 's s', 's.zip', 'é'])
        sub.mkdir()
        other = d / 'other'
        other.mkdir()
        name = r.choice(['a.zip', 'a.zip', 'A.ZIP', 'b.jar', 'noext', '.zip', 'ü.zip', 'x.tar.gz'])
        ctx.count('suffixless', not name.endswith('.zip'))
        real = sub / name

        def write(path=real):
            m = archive(ctx, r, path, chunk)
            n[0] += 1
            touched(path, n[0])
            return m

        def spelled():
            k = r.choice(['abs', 'rel', 'link', 'dirlink'])
            log.append(k)
            if k == 'abs':
                return ZipPath(real)
            if k == 'rel':
                os.chdir(d)
                return ZipPath(sub.name, name)
            l = d / f'link{n[0]}{len(log)}'
            ctx.count('symlinked')
            if k == 'link':
                l.symlink_to(real)
                return ZipPath(l)
            l.symlink_to(sub)
            return ZipPath(l, name)

        # before there is anything
        objects = [ZipPath(real), spelled()]
        for o in objects:
            if not os.path.islink(o):
                plain(ctx, ZipPath, o, wit, 'missing')
        ctx.count('missing')
        m = write()
        log.append('write')
        for o in objects:
            check(ctx, ZipPath, r, o, m, wit, 'created')
            ctx.count('created')
        for step in range(r.choice([1, 2, 3])):
            op = r.choice(['new', 'rewrite', 'replace', 'append', 'other', 'remove', 'fake', 'dir'])
            log.append(op)
            if op == 'rewrite':
                m = write()
            elif op == 'replace':
                m = write(sub / 'tmp')
                os.replace(sub / 'tmp', real)
            elif op == 'append' and m.fits('added/by'):
                c = content(r, chunk)
                with zipfile.ZipFile(real, 'a') as z:
                    z.writestr('added/by', c)
                m.add('added/by', c)
                n[0] += 1
                touched(real, n[0])
            elif op == 'other':
                # the same relative path from another directory
                (other / sub.name).mkdir(exist_ok=True)
                m2 = write(other / sub.name / name)
                os.chdir(d)
                rel = ZipPath(sub.name, name)
                check(ctx, ZipPath, r, rel, m, wit, 'here')
                os.chdir(other)
                check(ctx, ZipPath, r, rel, m2, wit, 'there')
                os.chdir(d)
                check(ctx, ZipPath, r, rel, m, wit, 'back')
                ctx.count('chdir')
            elif op == 'remove':
                real.unlink()
                plain(ctx, ZipPath, ZipPath(real), wit, 'removed')
                plain(ctx, ZipPath, objects[0], wit, 'removed')
                plain(ctx, ZipPath, objects[0] / 'a', wit, 'removed')
                ctx.count('removed')
                m = write()
            elif op == 'fake':
                real.write_bytes(r.choice(LOOKALIKE))
                plain(ctx, ZipPath, ZipPath(real), wit, 'lookalike')
                plain(ctx, ZipPath, objects[0], wit, 'lookalike')
                ctx.count('lookalike')
                m = write()
            elif op == 'dir':
                real.unlink()
                real.mkdir()
                (real / 'f').write_bytes(b'f')
                for o in (ZipPath(real), objects[0]):
                    plain(ctx, ZipPath, o, wit, 'folder')
                    plain(ctx, ZipPath, o / 'f', wit, 'folder')
                with zipfile.ZipFile(real / 'z.zip', 'w') as z:
                    z.writestr('q', b'q')
                mm = Model()
                mm.add('q', b'q')
                check(ctx, ZipPath, r, objects[0] / 'z.zip', mm, wit, 'in folder')
                shutil.rmtree(real)
                ctx.count('replaced_by_dir')
                m = write()
            ctx.count('changed')
            o = r.choice(objects) if r.random() < .6 else spelled()
            ctx.count('same_object', o in objects)
            if not os.path.isabs(o):
                os.chdir(d)
            check(ctx, ZipPath, r, o, m, wit, op)
            objects.append(o)
        together(ctx, r, ZipPath(real), m, wit)
        # around the archive
        plain(ctx, ZipPath, ZipPath(sub), wit, 'around')
        ctx.count('plain_dir')
        (sub / 'plain').write_bytes(b'plain')
        plain(ctx, ZipPath, ZipPath(sub, 'plain'), wit, 'around')
        ctx.count('plain_file')
    os.chdir('/')
    common.force_rmtree(d) if '/vp-C' in str(d) else None
