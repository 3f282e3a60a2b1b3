""" reading, writing and copying local data """
import os
import shutil
import stat

from .. import common, gen, model

RULE = ('random content written in random chunks (also none, also failing at any chunk) over missing and existing files with '
        'attributes, modes and hard links, read whole and in ranges around every chunk boundary, and copied onto every '
        'kind of target; the directory is compared byte for byte before and after; non-trivial when data moved')


class Boom(Exception):
    pass


def chunks(r, data, fail_at=None):
    """ data in random pieces, some empty """
    out, i = [], 0
    while i < len(data):
        k = r.choice([0, 1, 2, 7, 8, 9, 64, 1000, len(data)])
        out.append(data[i:i + k])
        i += k
    if r.random() < .3:
        out.append(b'')
    return out


def feed(cs, fail_at=None):
    for i, c in enumerate(cs):
        if i == fail_at:
            raise Boom(i)
        yield c
    if fail_at is not None and fail_at >= len(cs):
        raise Boom('end')


def state(d):
    out = {}
    for k, v in model.tree(d, skip=()).items():
        p = os.path.join(d, k)
        st = os.lstat(p)
        out[k] = (v, stat.S_IMODE(st.st_mode), st.st_ino,
                  {x: os.getxattr(p, x) for x in os.listxattr(p)} if not os.path.islink(p) else None)
    return out


def main(ctx):
    aug = common.load_library()
    exc = aug.exceptions
    ctx.require('write_new', 'write_over', 'write_empty', 'fail_first', 'fail_later', 'range', 'range_on_boundary',
                'open_range', 'chain', 'append', 'copied', 'refused_file', 'refused_dangling', 'refused_dir', 'forced',
                'onto_itself', 'into_dir', 'not_a_dir', 'missing_source', 'cached_write', 'meta_copied', 'many_ranges')

    classes = {}
    for cs in (1, 7, 64, 4096):
        classes[cs] = type(f'L{cs}', (aug.LocalPath,), dict(chunksize=cs))
        classes[cs]._bind_flavours()
    io(ctx, aug, exc, classes)
    ranges(ctx, aug, exc, classes)
    copies(ctx, aug, exc, classes)
    cached(ctx, aug, exc)


def io(ctx, aug, exc, classes):
    for i in range(ctx.size(500, 20000)):
        if ctx.left() < ctx.budget * .6:
            break
        r = ctx.rng('io', i)
        plan = dict(i=i)
        wit = lambda: plan
        with ctx.case('io', wit):
            d = ctx.newdir()
            L = classes[r.choice(list(classes))]
            n = r.choice([0, 1, 6, 7, 8, 63, 64, 65, 4095, 4096, 4097, r.randrange(20000)])
            data = r.randbytes(n)
            p = L(d / r.choice(['f', 'é 漢', '-x', 'a.b.c', 'new\nline']))
            exists = r.random() < .6
            old = r.randbytes(r.choice([0, 1, 100, 9000]))
            if exists:
                with open(p, 'wb') as f:
                    f.write(old)
                os.chmod(p, r.choice([0o600, 0o644, 0o755]))
                os.setxattr(p, 'user.some.key', b'kept\x00value')
                if r.random() < .3:
                    os.link(p, d / 'other name')
            before = state(d)
            cs = chunks(r, data)
            how = r.choice(['write', 'write', 'chain', 'append', 'fail first', 'fail later'])
            plan.update(how=how, exists=exists, size=n, chunks=[len(c) for c in cs][:20], cls=L.__name__)
            ctx.seen((how, exists, n, len(cs), L.__name__), n > 0)
            fail = None
            want = data
            if how == 'fail first':
                fail = 0
            elif how == 'fail later':
                fail = r.randint(1, len(cs)) if cs else 0
            err = None
            try:
                if how == 'append':
                    out = list(p._data_setter(feed(cs), append=True))
                    want = (old if exists else b'') + data
                    ctx.expect(b''.join(out) == data, 'append:passed on', 'data passed on differs from the data written', wit)
                    ctx.count('append')
                elif how == 'chain' or how.startswith('fail') and r.random() < .3:
                    out = []
                    for c in p._data_setter(feed(cs, fail)):
                        out.append(c)
                    ctx.expect(b''.join(out) == data, 'chain:passed on', 'data passed on differs from the data written', wit)
                    ctx.count('chain')
                else:
                    p.data = feed(cs, fail)
            except Boom as e:
                err = e
            ctx.expect((err is not None) == (fail is not None), 'error swallowed', 'a failing source went unnoticed', wit)
            after = state(d)
            if fail == 0:
                ctx.expect(after == before, 'fail first:changed', lambda: f'{gen.differ(before, after)}', wit)
                ctx.count('fail_first')
                shutil.rmtree(d)
                continue
            k = p.name
            ctx.expect(set(after) == set(before) | {k}, 'debris', lambda: f'{set(after) ^ set(before)}', wit)
            got = p.read_bytes()
            if fail is not None:
                full = b''.join(cs[:fail])
                ctx.expect(full.startswith(got), 'fail later:content', 'content is neither what was written', wit)
                ctx.count('fail_later')
            else:
                ctx.expect(got == want, f'{how}:content', lambda: f'wrote {len(want)} bytes, file has {len(got)}', wit)
                ctx.count('write_over' if exists else 'write_new')
                ctx.count('write_empty', n == 0)
            if exists and k in after:
                ctx.expect(after[k][1:] == before[k][1:], 'write:identity',
                           lambda: f'mode, inode or attributes changed {before[k][1:]} {after[k][1:]}', wit)
            back = list(p.data)
            ctx.expect(b''.join(back) == got, 'read:content', 'data read differs from the file', wit)
            ctx.expect(all(0 < len(c) <= L.chunksize for c in back), 'read:chunks',
                       lambda: f'chunk sizes {[len(c) for c in back][:9]} for chunksize {L.chunksize}', wit)
            shutil.rmtree(d)
        ctx.sample(dict(plan), 3)


def ranges(ctx, aug, exc, classes):
    d = ctx.newdir()
    for i in range(ctx.size(1500, 60000)):
        if ctx.left() < ctx.budget * .45:
            break
        r = ctx.rng('ranges', i)
        plan = dict(i=i)
        wit = lambda: plan
        with ctx.case('ranges', wit):
            L = classes[r.choice([7, 64, 4096])]
            cs = r.choice([None, None, 1, 2, 5, 16, 100])
            eff = cs or L.chunksize
            n = r.choice([0, 1, eff - 1, eff, eff + 1, 2 * eff, 3 * eff + 1, r.randrange(0, 5 * eff + 1)])
            data = r.randbytes(n)
            p = L(d / 'f')
            with open(p, 'wb') as f:
                f.write(data)
            rs = []
            for _ in range(r.randint(1, 4)):
                start = r.choice([0, 1, eff - 1, eff, eff + 1, n // 2, max(n - 1, 0), n, r.randint(0, n)])
                start = max(0, min(start, n))
                length = r.choice([0, 1, eff - 1, eff, eff + 1, 2 * eff, 2 * eff - 1, 2 * eff + 1, r.randint(0, 3 * eff)])
                rs.append((start, None) if r.random() < .15 else (start, start + max(length, 0)))
            plan.update(size=n, chunksize=eff, ranges=rs)
            ctx.seen((n, eff, tuple(rs)), n > 0)
            got = b''.join(p._data(ranges=tuple(rs), chunksize=cs))
            want = b''.join(data[a:b] for a, b in rs)
            ctx.expect(got == want, 'range:content', lambda: f'ranges {rs} of {n} bytes: {len(got)} bytes instead of {len(want)}', wit)
            ctx.expect(b''.join(p._data(chunksize=cs)) == data, 'range:whole', 'without ranges the content is incomplete', wit)
            ctx.count('range')
            ctx.count('many_ranges', len(rs) > 1)
            ctx.count('open_range', any(b is None for a, b in rs))
            ctx.count('range_on_boundary', any(b is not None and b - a == eff for a, b in rs))


def copies(ctx, aug, exc, classes):
    A = aug.AugmentedPath
    for i in range(ctx.size(700, 20000)):
        if ctx.left() < ctx.budget * .25:
            break
        r = ctx.rng('copies', i)
        plan = dict(i=i)
        wit = lambda: plan
        with ctx.case('copies', wit):
            d = ctx.newdir()
            S = r.choice([A, classes[7], classes[4096]])
            T = r.choice([A, S, S])
            data = r.randbytes(r.choice([0, 1, 7, 8, 5000]))
            src = S(d / 'src file')
            missing = r.random() < .1
            if not missing:
                with open(src, 'wb') as f:
                    f.write(data)
            (d / 'dir').mkdir()
            kind = r.choice(['free', 'free', 'file', 'dangling', 'loop', 'link to file', 'dir', 'itself', 'hard link', 'link to itself'])
            t = d / 'dir' / 'target'
            old = b'previous content ' * r.randint(1, 500)
            if kind == 'file':
                t.write_bytes(old)
            elif kind == 'dangling':
                os.symlink('nowhere/at all', t)
            elif kind == 'loop':
                os.symlink('target/meta', t)
            elif kind == 'link to file':
                (d / 'linked').write_bytes(old)
                os.symlink(d / 'linked', t)
            elif kind == 'dir':
                t.mkdir()
            elif kind == 'itself':
                t = d / 'src file'
            elif missing:
                kind = 'free'
            elif kind == 'hard link':
                os.link(src, t)
            elif kind == 'link to itself':
                os.symlink(src, t)
            force = r.random() < .4
            how = r.choice(['to', 'to', 'from', 'outto', 'infrom'])
            if how in ('outto', 'infrom'):
                # the target keeps the name of the source
                t2 = d / 'dir' / src.name
                if kind == 'itself':
                    t2 = t
                elif os.path.lexists(t):
                    os.rename(t, t2)
                    if kind == 'loop':
                        kind = 'dangling'
                t = t2
            into = T(t.parent)
            target = T(t)
            nodir = how in ('outto', 'infrom') and r.random() < .15
            if nodir:
                into = T(d / r.choice(['no such dir', 'plain file']))
                (d / 'plain file').write_bytes(b'plain')
            before = state(d)
            plan.update(kind=kind, force=force, how=how, src=S.__name__, target=T.__name__, missing=missing, size=len(data), nodir=nodir)
            ctx.seen((kind, force, how, S.__name__, T.__name__, missing, len(data), nodir))
            err = out = None
            try:
                if how == 'to':
                    src.copy_to(target, force=force)
                elif how == 'from':
                    target.copy_from(src, force=force)
                elif how == 'outto':
                    out = src.copy_outto(into, force=force)
                else:
                    out = into.copy_infrom(src, force=force)
            except (exc.PathExistsError, OSError, shutil.SameFileError) as e:
                err = e
            after = state(d)
            if missing and (kind != 'itself'):
                ctx.expect(err is not None and after == before, 'missing source',
                           lambda: f'{err!r} {gen.differ(before, after)}', wit)
                ctx.count('missing_source')
            elif nodir:
                ctx.expect(isinstance(err, NotADirectoryError) and after == before, 'not a directory',
                           lambda: f'{err!r} {gen.differ(before, after)}', wit)
                ctx.count('not_a_dir')
            elif kind != 'free' and not force:
                if missing:
                    continue
                ctx.expect(isinstance(err, exc.PathExistsError) and after == before, f'{kind}:not refused',
                           lambda: f'{err!r} {gen.differ(before, after)}', wit)
                ctx.count({'dir': 'refused_dir', 'dangling': 'refused_dangling', 'loop': 'refused_dangling'}.get(kind, 'refused_file'))
            elif kind in ('itself', 'hard link', 'link to itself'):
                if missing:
                    continue
                ctx.expect(src.read_bytes() == data and {k: v[0] for k, v in after.items()} == {k: v[0] for k, v in before.items()},
                           'onto itself', lambda: f'copying a file onto itself changed it {err!r} {gen.differ(before, after)}', wit)
                ctx.count('onto_itself')
            elif kind == 'free' or kind in ('file', 'link to file'):
                ctx.expect(err is None, f'{kind}:failed', lambda: f'{err!r}', wit)
                ctx.expect(os.path.isfile(t) and open(t, 'rb').read() == data, f'{kind}:content', 'copy differs from the source', wit)
                ctx.expect(src.read_bytes() == data, f'{kind}:source', 'the source was changed by the copy', wit)
                rel = os.path.relpath(t, d)
                others = {k: v for k, v in after.items() if k not in (rel, 'linked')}
                ctx.expect(others == {k: v for k, v in before.items() if k not in (rel, 'linked')}, f'{kind}:others',
                           lambda: f'{gen.differ(before, after)}', wit)
                if out is not None or how in ('outto', 'infrom'):
                    ctx.expect(out is not None and str(out) == str(t), f'{how}:returned', lambda: f'returned {out!r}', wit)
                    ctx.count('into_dir')
                ctx.count('copied')
                ctx.count('forced', kind == 'file')
            shutil.rmtree(d)
        ctx.sample(dict(plan), 6)


def cached(ctx, aug, exc):
    for i in range(ctx.size(60, 1500)):
        if ctx.time_up():
            break
        r = ctx.rng('cached', i)
        plan = dict(i=i)
        wit = lambda: plan
        w = None
        with ctx.case('cached', wit):
            try:
                w = model.World(ctx, aug, r, ndirs=1, nfiles=2)
                w.bootstrap()
                f = w.files[0]
                w.local(f).cache.fetch()
                p = w.where(f)
                me = gen.view(w.meta_at(p))
                data = w.blob()
                fail = r.random() < .3
                cs = chunks(r, data)
                try:
                    w.local(f).data = feed(cs, r.randint(0, len(cs)) if fail else None)
                except Boom:
                    pass
                ctx.expect(gen.view(w.meta_at(p)) == me, 'cached:metadata', 'writing data changed the cached metadata', wit)
                if not fail:
                    ctx.expect(p.read_bytes() == data, 'cached:content', 'content differs', wit)
                ctx.count('cached_write')
                t = w.root / 'copy of it'
                w.local(f).copy_to(w.L(t), copy_cache_meta=True)
                ctx.expect(t.read_bytes() == p.read_bytes() and w.meta_at(t) is not None and gen.view(w.meta_at(t)) == me,
                           'cached:copy', lambda: f'the copy has metadata {w.meta_at(t)!r}', wit)
                t2 = w.root / 'plain copy'
                w.local(f).copy_to(w.L(t2))
                ctx.expect(t2.read_bytes() == p.read_bytes() and w.meta_at(t2) is None, 'cached:plain copy',
                           'a plain copy got an identity', wit)
                # a placeholder is not an empty place
                g = w.files[1]
                before = model.tree(w.root)
                try:
                    w.local(f).copy_to(w.local(g))
                    ok = False
                except exc.PathExistsError:
                    ok = True
                ctx.expect(ok and model.tree(w.root) == before, 'cached:placeholder', 'a copy replaced a placeholder', wit)
                ctx.count('meta_copied')
            finally:
                if w is not None:
                    w.close()
