""" metadata of local paths """
import base64
import hashlib
import math
import os
import stat
import subprocess
from datetime import datetime, timezone

from .. import common, gen, model

RULE = ('random programs of writes, truncations, replacements, mode, owner, time and name changes on files with the metadata '
        'asked through old and new objects after every step, compared with stat and hashlib; parsed stat output of odd names '
        'and times; non-trivial when the same object saw more than one state')

NAMES = ['f', 'a  b', ' lead', 'trail ', '"q"', "'s'", '-c', 'é', 'x\ty', 'u\udcff', 'a   b  c', '%n', '\\', 'x' * 200, '"', '  ']


def main(ctx):
    aug = common.load_library()
    ctx.require('meta', 'file', 'dir', 'link', 'missing', 'placeholder', 'rewritten_same_size', 'replaced', 'no_read', 'mode', 'owner',
                'old_object', 'kept', 'during', 'stat_parsed', 'before_1970', 'sysid', 'size', 'filesize', 'cyphers', 'other_process')
    classes = {}
    for cy in (None, 'sha256', 'md5'):
        cls = type(f'L{cy}', (aug.LocalPath,), {})
        cls._bind_flavours()
        if cy is not None:
            cls._cache_class = type('CC', (), dict(cypher=getattr(hashlib, cy), __new__=refuse(aug)))
        classes[cy] = cls
    for i in range(ctx.size(260, 8000)):
        if ctx.left() < ctx.budget * .4:
            break
        program(ctx, aug, classes, ctx.rng('prog', i), i)
    stats(ctx, aug)
    sizes(ctx, aug)
    identity(ctx, aug)


def refuse(aug):
    """ a cache class under which nothing is cached """
    def new(cls, *a, **k):
        raise aug.exceptions.NoCachedMetadataError('none')
    return new


def near(dt, t):
    if not isinstance(dt, datetime) or dt.utcoffset() is None:
        return False
    return abs((dt - datetime(1970, 1, 1, tzinfo=timezone.utc)).total_seconds() - t) < 3e-6


def tick(p, before):
    """ the change time must move or nobody could notice """
    while True:
        st = os.stat(p)
        if before is None or (st.st_ctime, st.st_ino, st.st_mtime) != before:
            return
        os.chmod(p, stat.S_IMODE(st.st_mode))


def check(ctx, p, cls, cy, m, wit, checksum=True):
    path = os.fspath(p)
    default = 'blake2b'
    if not os.path.exists(path):
        got = {k: v for k, v in gen.view(m).items() if v not in (None, ())}
        ctx.expect(got == dict(id=cls.sysid + ':' + path, name=p.name), 'missing', lambda: f'metadata of nothing is {got}', wit)
        return
    st = os.stat(path)
    f = stat.S_ISREG(st.st_mode)
    want = dict(name=os.path.basename(path), size=st.st_size, parent_id=cls.sysid + ':' + os.path.dirname(path),
                id=cls.sysid + ':' + path, file_id=st.st_ino, user_id=st.st_uid, gid=st.st_gid, mode=oct(st.st_mode),
                checksum=None, checksum_cypher=None, etag=None, chunksize=None, old_id=None, multi=None, errors=())
    if checksum:
        if f:
            with open(path, 'rb') as h:
                want['checksum'] = getattr(hashlib, cy or default)(h.read()).digest()
            want['checksum_cypher'] = cy or default
    v = gen.view(m)
    bad = {k: (v[k], want[k]) for k in want if v[k] != want[k]}
    if not checksum or not f:
        bad.pop('checksum_cypher', None)
    ctx.expect(not bad, 'field:' + (sorted(bad)[0] if bad else ''), lambda: f'(got, want): {bad}', wit)
    ctx.expect(near(m.created, st.st_mtime), 'field:created', f'{m.created} for {st.st_mtime}', wit)
    ctx.expect(near(m.updated, st.st_ctime), 'field:updated', f'{m.updated} for {st.st_ctime}', wit)
    ctx.count('meta')


def program(ctx, aug, classes, r, i):
    d = ctx.newdir()
    cy = r.choice(list(classes))
    cls = classes[cy]
    name = r.choice(NAMES)
    path = str(d / name)
    log = []
    wit = lambda: dict(i=i, name=name, cypher=cy, log=log)
    objs = [cls(path)]
    kept = []
    states = 0
    last = None     # the last state anybody could have seen
    ctx.count('cyphers', cy is not None)
    with ctx.case('program', wit):
        for _ in range(r.randrange(3, 14)):
            op = r.choice(['write', 'write', 'same', 'same', 'append', 'truncate', 'replace', 'chmod', 'chown', 'utime',
                           'remove', 'dir', 'link', 'broken', 'placeholder', 'restore', 'nothing'])
            log.append(op)
            there = os.path.exists(path)
            before = None
            if there:
                st = os.stat(path)
                before = (st.st_ctime, st.st_ino, st.st_mtime)
            isf = os.path.isfile(path) and not os.path.islink(path)
            if op in ('write', 'same', 'append', 'truncate', 'restore') and (isf or not os.path.lexists(path)):
                old = open(path, 'rb').read() if isf else b''
                if op == 'same' and isf:
                    with open(path, 'r+b') as f:
                        f.write(r.randbytes(len(old)))
                    ctx.count('rewritten_same_size')
                elif op == 'restore' and isf:
                    # new content under the old modification time
                    with open(path, 'r+b') as f:
                        f.write(r.randbytes(len(old)))
                    os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))
                elif op == 'append':
                    with open(path, 'ab') as f:
                        f.write(r.randbytes(3))
                elif op == 'truncate':
                    open(path, 'wb').close()
                else:
                    with open(path, 'wb') as f:
                        f.write(r.randbytes(r.choice([0, 1, 10, 4096, 4097, 9000])))
                tick(path, before)
            elif op == 'replace' and isf:
                n = len(open(path, 'rb').read())
                with open(d / 'tmp', 'wb') as f:
                    f.write(r.randbytes(n))
                os.utime(d / 'tmp', ns=(st.st_atime_ns, st.st_mtime_ns))
                os.replace(d / 'tmp', path)
                tick(path, before)
                ctx.count('replaced')
            elif op == 'chmod' and there:
                os.chmod(path, r.choice([0o600, 0o644, 0o755, 0o400]))
                tick(path, before)
                ctx.count('mode')
            elif op == 'chown' and there and os.geteuid() == 0:
                try:
                    os.chown(path, r.choice([0, 65534, 1000]), r.choice([0, 65534, 1000]))
                except OSError:
                    pass
                tick(path, before)
                ctx.count('owner')
            elif op == 'utime' and there:
                t = r.choice([0, 10**9, -86400 * 10**9 + 250_000_000, 1700000000123456789, 2**31 * 10**9, r.randrange(4 * 10**18)])
                os.utime(path, ns=(0, t))
                tick(path, before)
            elif op in ('remove', 'dir', 'link', 'broken', 'placeholder'):
                if os.path.lexists(path):
                    os.unlink(path) if os.path.islink(path) or not os.path.isdir(path) else os.rmdir(path)
                if op == 'dir':
                    os.mkdir(path)
                elif op == 'link':
                    (d / 'target').write_bytes(r.randbytes(20))
                    os.symlink('target', path)
                elif op == 'broken':
                    os.symlink('nowhere', path)
                elif op == 'placeholder':
                    os.symlink(name + '/.meta.N:1', path)
            if os.path.exists(path) and op != 'nothing':
                tick(path, last)
            if os.path.exists(path):
                st = os.stat(path)
                last = (st.st_ctime, st.st_ino, st.st_mtime)
            kind = ('link' if os.path.islink(path) and os.path.exists(path) else 'placeholder' if os.path.islink(path)
                    else 'dir' if os.path.isdir(path) else 'file' if os.path.exists(path) else 'missing')
            ctx.count(kind)
            states += 1
            if r.random() < .3 or not objs:
                objs.append(cls(path))
            for p in r.sample(objs, min(len(objs), 2)):
                ctx.count('old_object', states > 1)
                how = r.choice(['meta', 'meta', 'no', 'both', 'size', 'during'])
                if how in ('no', 'both'):
                    opened = []

                    def obs(event, args):
                        if event == 'open' and args[0] is not None and not isinstance(args[0], int) and \
                                os.path.basename(os.fspath(args[0])) in (name, 'target'):
                            opened.append(args[0])
                    # reading is only avoidable when it was not asked for
                    with common.guard.observe(obs):
                        m = p.meta_no_checksum
                    ctx.expect(not opened, 'no_checksum:read', 'the content was read although no checksum was asked for', wit)
                    check(ctx, p, cls, cy, m, wit, checksum=False)
                    ctx.count('no_read')
                    kept.append((m, gen.view(m)))
                if how == 'size' and os.path.exists(path):
                    ctx.expect(p.size == os.stat(path).st_size, 'size', f'{p.size}', wit)
                    ctx.expect(near(p.created, os.stat(path).st_mtime), 'created', f'{p.created}', wit)
                    ctx.count('size')
                if how == 'during' and kind == 'file':
                    hit = []

                    def change(event, args):
                        if event == 'open' and not hit and args[0] is not None and not isinstance(args[0], int) and \
                                os.path.basename(os.fspath(args[0])) == name:
                            hit.append(1)
                            with common.guard.off():
                                s = os.stat(path)
                                with open(path, 'ab') as f:
                                    f.write(b'!')
                                tick(path, (s.st_ctime, s.st_ino, s.st_mtime))
                    with common.guard.observe(change):
                        p.meta
                    ctx.count('during', bool(hit))
                if how != 'no':
                    m = p.meta
                    check(ctx, p, cls, cy, m, wit)
                    kept.append((m, gen.view(m)))
                    log.append(how)
            for m, v in kept:
                ctx.expect(gen.view(m) == v, 'kept', 'metadata handed out earlier changed', wit)
                ctx.count('kept')
        ctx.seen((name, cy, tuple(log)), states > 2)
    common.force_rmtree(d)


def stats(ctx, aug):
    """ the output of stat as it arrives from another machine """
    d = ctx.newdir()
    SR = aug.StatResult
    for i in range(ctx.size(120, 1500)):
        if ctx.left() < ctx.budget * .15:
            break
        r = ctx.rng('stat', i)
        name = r.choice(NAMES + ['new\nline', '" x  1  2', '  a'])
        p = str(d / name)
        wit = dict(i=i, name=name)
        with ctx.case('stat', wit):
            kind = r.choice(['file', 'file', 'dir', 'link', 'fifo'])
            if os.path.lexists(p):
                os.unlink(p) if os.path.islink(p) or not os.path.isdir(p) else os.rmdir(p)
            if kind == 'file':
                with open(p, 'wb') as f:
                    f.write(b'x' * r.randrange(5000))
                os.chmod(p, r.choice([0o644, 0o4755, 0o1000, 0]))
            elif kind == 'dir':
                os.mkdir(p)
            elif kind == 'link':
                os.symlink('x', p)
            else:
                os.mkfifo(p)
            t = r.choice([0, 1, -1, 10**9, -86400 * 10**9 + 250_000_000, -999_999_999, 1700000000123456789, 5 * 10**8,
                          r.randrange(-10**18, 4 * 10**18)])
            os.utime(p, ns=(r.randrange(2 * 10**18), t), follow_symlinks=False)
            ctx.count('before_1970', t < 0)
            st = os.lstat(p)
            tz = r.choice(gen.TZS)
            out = subprocess.run(['stat', '-c', SR.stat_format, '--', p], stdout=subprocess.PIPE, check=True,
                                 env=dict(os.environ, TZ=tz)).stdout
            res = [SR(out.rstrip(b'\n')[1:-1])]
            with common.env(TZ=tz):
                res.append(aug.LocalPath(p)._stat()) if hasattr(aug.LocalPath, '_stat') else None
            for s in res:
                ctx.expect(s.name == p, 'stat:name', f'{s.name!r}', wit)
                for k in ('st_ino', 'st_size', 'st_gid', 'st_uid', 'st_mode'):
                    ctx.expect(getattr(s, k) == getattr(st, k), f'stat:{k}', lambda: f'{getattr(s, k)} for {getattr(st, k)}', wit)
                for k in ('st_mtime', 'st_ctime', 'st_atime'):
                    ctx.expect(abs(getattr(s, k) - getattr(st, k)) < 2e-6, f'stat:{k}',
                               lambda: f'{getattr(s, k)} for {getattr(st, k)}', wit)
                ctx.expect(s.st_blksize == st.st_blksize, 'stat:blksize', f'{s.st_blksize}', wit)
                ctx.count('stat_parsed')
            ctx.seen(('stat', name, kind, t))


def sizes(ctx, aug):
    FS = aug.FileSize
    d = ctx.newdir()
    for i in range(ctx.size(500, 5000)):
        r = ctx.rng('size', i)
        n = gen.natural(r) if r.random() < .7 else 2**r.randrange(70) + r.choice([-1, 0, 1])
        with ctx.case('filesize', n):
            s = FS(n)
            ctx.expect(s == n and int(s) == n and isinstance(s, int) and hash(s) == hash(n) and str(s) == str(n), 'filesize:value',
                       f'{s!r}')
            ctx.expect(math.isclose(s.mb, n / 2**20), 'filesize:mb', f'{s.mb}')
            # the human readable form is within rounding of the value
            hr = s.hr
            k = 'KMGTPEZ'
            unit = hr[-1] if hr[-1] in k else ''
            num = float(hr[:-1] if unit else hr.replace('Yi', ''))
            scale = 1024 ** (k.index(unit) + 1) if unit else (1 if not hr.endswith('Yi') else 1024 ** 8)
            ctx.expect(abs(num * scale - n) <= .5 * scale + 1e-9 * n, 'filesize:hr', f'{n} shown as {hr}')
            ctx.count('filesize')
            ctx.seen(('fs', hr))
    with ctx.case('ofPath'):
        (d / 'x').write_bytes(b'x' * 1234)
        ctx.expect(FS.ofPath(d / 'x') == 1234, 'filesize:ofPath', 'ofPath')


def identity(ctx, aug):
    """ the identity of the machine is a function of the machine """
    code = ('import sys, logging; sys.path.insert(0, sys.argv[1]); logging.disable(50); import augpathlib as a; '
            'print(a.LocalPath.sysid); print(a.LocalPath("/x y/z").id)')
    with ctx.case('identity'):
        import sys
        outs = [subprocess.run([sys.executable, '-c', code, str(common.REPO)], stdout=subprocess.PIPE, text=True, check=True,
                               cwd=ctx.scratch, env=dict(os.environ, PYTHONHASHSEED=str(s), TZ=tz)).stdout.split('\n')
                for s, tz in ((1, 'UTC'), (2, 'Asia/Kolkata'))]
        L = aug.LocalPath
        for o in outs:
            ctx.expect(o[0] == L.sysid and o[1] == L.sysid + ':/x y/z', 'sysid', f'{o} and {L.sysid}')
            ctx.count('sysid')
            ctx.count('other_process')
        ctx.expect(len(base64.urlsafe_b64decode(L.sysid + '==')) == 16, 'sysid:form', L.sysid)
