""" metadata <-> extended attributes """
import os
import pickle

from .. import common, gen

RULE = ('metadata drawn field by field from a seeded generator (17 optional fields, 9 alphabets, '
        'aware timestamps in 12 offsets with every microsecond shape), encoded under one local '
        'timezone and decoded under another, in memory, as a database blob and on real files and '
        'directories; non-trivial when at least two fields besides the id are set')

PREFIXES = [None, 'bf', 'bf2', 'bf.sub', 'b', 'ssh', 'x']


def main(ctx):
    aug = common.load_library()
    PathMeta = aug.PathMeta
    ctx.require('memory_roundtrips', 'disk_roundtrips', 'blob_roundtrips', 'timezone_crossings',
                'shared_namespace_reads', 'times_compared', 'any_text')
    n = ctx.size(1500, 40000)
    i = 0
    while i < n and not ctx.time_up():
        r = ctx.rng(i)
        i += 1
        tz1, tz2 = r.choice(gen.TZS), r.choice(gen.TZS)
        alpha = 'surrogate' if r.random() < .03 else None
        kw = gen.meta_kwargs(r, alpha)
        if r.random() < .2 and alpha is None:
            # nothing in a text is special for attributes
            for k in ('name', 'id', 'parent_id', 'old_id'):
                if k in kw:
                    kw[k] = gen.text(r, r.choice(['control', 'hostile']))
            if 'user_id' in kw:
                kw['user_id'] = r.choice([gen.text(r, r.choice(['control', 'hostile'])), r.choice(gen.LIKE_NUMBERS)])
                ctx.count('like_number', kw['user_id'] in gen.LIKE_NUMBERS)
            ctx.count('any_text')
        want = gen.want(kw)
        if gen.numeric(want['user_id']):
            want['user_id'] = int(want['user_id'])
        prefix, other = r.sample(PREFIXES, 2)
        wit = lambda: dict(kw={k: repr(v) for k, v in kw.items()}, prefix=prefix, tz=(tz1, tz2))
        with ctx.case('xattr', wit):
            with common.timezone(tz1):
                meta = PathMeta(**kw)
                try:
                    enc = meta.as_xattrs(prefix)
                except UnicodeEncodeError:
                    ctx.count('refused')
                    if alpha is None:
                        raise
                    continue
            ctx.seen(sorted((k, repr(v)) for k, v in kw.items()), len(kw) > 2)
            ctx.sample(wit())
            ctx.expect(all(isinstance(k, bytes) and isinstance(v, bytes) for k, v in enc.items()),
                       'memory:not-bytes', 'encoded attributes are not bytes', wit)
            present = {f for f in gen.FIELDS if want[f] not in (None, ())}
            pre = prefix + '.' if prefix else ''
            names = {k.decode()[len(pre):] for k in enc}
            ctx.expect(names == present, 'memory:fields',
                       lambda: f'attribute set {sorted(names)} but fields present are {sorted(present)}', wit)
            ctx.expect(all(k.decode().startswith(pre) for k in enc), 'memory:prefix',
                       'attribute without its prefix', wit)

            # another system's metadata in the same namespace must not leak in
            kw2 = gen.meta_kwargs(r)
            bag = dict(enc)
            if prefix is not None and other is not None:
                try:
                    bag.update(PathMeta(**kw2).as_xattrs(other))
                except UnicodeEncodeError:
                    pass
                ctx.count('shared_namespace_reads')
            items = list(bag.items())
            r.shuffle(items)
            bag = dict(items)
            with common.timezone(tz2):
                dec = PathMeta.from_xattrs(bag, prefix)
                got = gen.view(dec)
                ctx.expect(got == want, 'memory:differs',
                           lambda: f'decoded metadata differs: {gen.differ(want, got)}', wit)
                ctx.count('memory_roundtrips')
                ctx.count('timezone_crossings', tz1 != tz2)
                ctx.count('times_compared', sum(want[k] is not None for k in ('created', 'updated')))
                # a second trip must be a fixed point
                enc2 = dec.as_xattrs(prefix)
                got2 = gen.view(PathMeta.from_xattrs(enc2, prefix))
                ctx.expect(got2 == want, 'memory:second-trip',
                           lambda: f'second round trip differs: {gen.differ(want, got2)}', wit)

            with common.timezone(tz1):
                blob = meta.as_metastore(prefix)
            with common.timezone(tz2):
                got = gen.view(PathMeta.from_metastore(blob, prefix))
            ctx.expect(got == want, 'blob:differs',
                       lambda: f'database blob differs: {gen.differ(want, got)}', wit)
            ctx.count('blob_roundtrips')

            if i % 3 == 0:
                disk(ctx, aug, r, kw, kw2, want, prefix or 'p', other or 'q', tz1, tz2, wit)


def disk(ctx, aug, r, kw, kw2, want, prefix, other, tz1, tz2, wit):
    PathMeta = aug.PathMeta
    d = ctx.newdir()
    p = aug.EatPath(d / r.choice(['f', 'a b', 'é.txt', '-x', 'with  two']))
    isdir = r.random() < .3
    if isdir:
        p.mkdir()
    else:
        p.touch()
    unrelated = b'unrelated-' + os.urandom(4)
    os.setxattr(p, 'user.zz.unrelated', unrelated)
    with common.timezone(tz1):
        p.setxattrs(PathMeta(**kw).as_xattrs(prefix))
        if r.random() < .5:
            p.setxattrs(PathMeta(**kw2).as_xattrs(other))
    if r.random() < .5:
        q = aug.EatPath(d / 'renamed')
        os.rename(p, q)
        p = q
    if not isdir and r.random() < .5:
        with open(p, 'wb') as f:
            f.write(b'new content')
    with common.timezone(tz2):
        fresh = type(p)(str(p))
        got = gen.view(PathMeta.from_xattrs(fresh.xattrs(), prefix, fresh))
    ctx.expect(got == want, 'disk:differs',
               lambda: f'metadata read from disk differs: {gen.differ(want, got)}', wit)
    ctx.expect(os.getxattr(p, 'user.zz.unrelated') == unrelated, 'disk:unrelated',
               'an unrelated attribute changed', wit)
    ctx.count('disk_roundtrips')
    common.force_rmtree(d)
