""" checksums and etags """
import hashlib
import os

from .. import common, gen, model

RULE = ('random content hashed through the library in random pieces with digests taken in between, from files through '
        'every reading chunksize, with explicit, project, class and default cyphers; compared with digests computed here '
        'from the whole content; non-trivial when there is more than one piece')

NAMES = ['sha256', 'md5', 'sha1', 'blake2b', 'blake2s', 'sha512', 'sha3_256']


def ref_etag(data, chunksize):
    parts = [hashlib.md5(data[i:i + chunksize]).digest() for i in range(0, len(data), chunksize)]
    return hashlib.md5(b''.join(parts)).digest(), len(parts)


def length(r, c):
    return r.choice([0, 1, c - 1, c, c + 1, 2 * c - 1, 2 * c, 2 * c + 1, 3 * c, r.randrange(0, 6 * c + 2)])


def main(ctx):
    aug = common.load_library()
    ctx.require('etag', 'early_digest', 'empty_piece', 'file_etag', 'checksum', 'extra', 'cypher:explicit',
                'cypher:project', 'cypher:class', 'cypher:default', 'no_content', 'replaced', 'rewritten', 'validated', 'flagged',
                'size_error', 'instance_cypher', 'meta')
    pieces(ctx)
    files(ctx, aug)
    validate(ctx, aug)


def pieces(ctx):
    from augpathlib.utils import etag
    for i in range(ctx.size(4000, 100000)):
        if ctx.left() < ctx.budget * .7:
            break
        r = ctx.rng('pieces', i)
        c = r.choice([1, 2, 3, 4, 5, 7, 8, 64, 1000])
        data = r.randbytes(length(r, c))
        early = r.choice([0, 0, .2, 1])
        log = []
        with ctx.case('etag', lambda: dict(chunksize=c, size=len(data), log=log)):
            e = etag(c)
            at = 0
            hi = r.choice([1, 2, c, 2 * c, 4 * c + 1, len(data) + 1])
            zero = r.random() < .3
            while at < len(data):
                k = r.randint(0 if zero else 1, hi)
                log.append(k)
                e.update(data[at:at + k])
                at += k
                ctx.count('empty_piece', k == 0)
                if r.random() < early:
                    log.append('digest')
                    ctx.expect(e.digest() == ref_etag(data[:at], c), 'etag:early',
                               'intermediate digest is not that of the data so far', lambda: dict(c=c, log=log))
                    ctx.count('early_digest')
            want = ref_etag(data, c)
            ctx.expect(e.digest() == want, 'etag:digest', 'the etag is not that of the data', lambda: dict(c=c, log=log))
            ctx.expect(e.digest() == want, 'etag:again', 'digest() is not stable', lambda: dict(c=c, log=log))
            ctx.expect(e.hexdigest() == f'{want[0].hex()}-{want[1]}', 'etag:hex', 'hexdigest disagrees',
                       lambda: dict(c=c, log=log))
            ctx.count('etag')
            ctx.seen((c, len(data), tuple(log)), len(log) > 1)


def files(ctx, aug):
    import augpathlib.utils as u
    d = ctx.newdir()
    classes = {}
    for cs in (1, 3, 64, 4096):
        for how in ('default', 'project', 'class'):
            body = dict(chunksize=cs)
            if how == 'class':
                body['cypher'] = hashlib.sha1
            cls = type(f'L{cs}{how}', (aug.LocalPath,), body)
            cls._bind_flavours()
            if how == 'project':
                cls._cache_class = type('CC', (), dict(cypher=hashlib.sha512))
            classes[cs, how] = cls
    for i in range(ctx.size(900, 20000)):
        if ctx.left() < ctx.budget * .35:
            break
        r = ctx.rng('files', i)
        cs, how = r.choice(list(classes))
        cls = classes[cs, how]
        limit = cs if cs > 1 else 40
        data = r.randbytes(length(r, limit))
        wit = lambda: dict(i=i, chunksize=cs, how=how, size=len(data))
        with ctx.case('file', wit):
            p = cls(d / f'f{i % 7}')
            if r.random() < .1:
                q = cls(d / r.choice(['missing', '.']))
                ctx.expect(q.checksum() is None and q.etag(5) is None, 'no content',
                           f'{q} has checksum {q.checksum()} etag {q.etag(5)}', wit)
                ctx.count('no_content')
            with open(p, 'wb') as f:
                f.write(data)
            if p.meta is not None and r.random() < .5:
                ctx.count('rewritten')   # the same object has seen other content before
            ctx.seen((cs, how, len(data)), len(data) > cs)
            explicit = r.choice(NAMES)
            ctx.expect(p.checksum(cypher=getattr(hashlib, explicit)) == getattr(hashlib, explicit)(data).digest(),
                       'checksum:explicit', lambda: f'asked for {explicit}', wit)
            ctx.count('cypher:explicit')
            standard = dict(default=u.default_cypher, project=hashlib.sha512, **{'class': hashlib.sha1})[how]
            ctx.expect(p.checksum() == standard(data).digest(), f'checksum:{how}', 'checksum() without a cypher', wit)
            ctx.count('cypher:' + how)
            ctx.count('checksum')
            extra = [getattr(hashlib, r.choice(NAMES)) for _ in range(r.randint(1, 3))]
            got = p.checksum(extra_cyphers=extra)
            ctx.expect(got == tuple(c(data).digest() for c in (standard, *extra)), 'checksum:extra',
                       'additional cyphers', wit)
            ctx.count('extra')
            if i % 4 == 0:
                replaced(ctx, p, data, extra, standard, r, wit)
            ec = r.choice([1, 2, 5, 64, 100, 4096, 10000])
            if len(data) / ec < 3000:
                ctx.expect(p.etag(ec) == ref_etag(data, ec), 'file:etag', lambda: f'etag({ec})', wit)
                ctx.count('file_etag')
            # metadata of the file in the order in which a caller happens to ask
            ask = [r.choice(['meta', 'plain', 'etag', 'write']) for _ in range(r.randint(1, 5))]
            mc = dict(default=u.default_cypher, project=hashlib.sha512, **{'class': u.default_cypher})[how]
            for a in ask:
                if a == 'write':
                    data = r.randbytes(len(data) + r.choice([0, 0, 1]))
                    with open(p, 'r+b') as f:
                        f.write(data)
                        f.truncate()
                    st = os.stat(p)   # file times have the resolution of the timer interrupt
                    os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns + r.randrange(1, 100) * 10**7))
                    continue
                m = dict(meta=lambda: p.meta, plain=lambda: p.meta_no_checksum,
                         etag=lambda: p._meta_maker(chunksize=ec))[a]()
                want = (mc(data).digest(), mc().name) if a != 'plain' else (None, None)
                ctx.expect((m.checksum, m.checksum_cypher) == want, f'meta:{a}',
                           lambda: f'{ask} {a}: checksum {m.checksum} {m.checksum_cypher} wanted {want}', wit)
                want = (ref_etag(data, ec), ec) if a == 'etag' else (None, None)
                ctx.expect((m.etag, m.chunksize) == want, f'meta:{a} etag', lambda: f'{ask}: {m.etag} {m.chunksize}', wit)
                ctx.expect(m.size == len(data), f'meta:{a} size', lambda: f'{m.size}', wit)
                ctx.count('meta')


def replaced(ctx, p, data, extra, standard, r, wit):
    """ whenever the file is opened again something else is there, the digests are still those of one content """
    contents = [data]

    def obs(event, args):
        if event == 'open' and os.fspath(args[0]) == os.fspath(p):
            opened.append(1)
            if len(opened) > 1:
                with common.guard.off():
                    contents.append(bytes(r.randrange(256) for _ in range(len(data))))
                    with open(str(p) + '-new', 'wb') as f:
                        f.write(contents[-1])
                    os.replace(str(p) + '-new', p)

    opened = []
    with common.guard.observe(obs):
        got = p.checksum(extra_cyphers=extra)
    ctx.expect(any(got == tuple(c(x).digest() for c in (standard, *extra)) for x in contents), 'checksum:replaced',
               lambda: f'digests of different contents, opened {len(opened)} times', wit)
    ctx.count('replaced', len(opened) > 0)
    with open(p, 'wb') as f:
        f.write(data)


def validate(ctx, aug):
    exc = aug.exceptions
    w = None
    for i in range(ctx.size(200, 3000)):
        if ctx.time_up():
            break
        r = ctx.rng('validate', i)
        wit = lambda: dict(i=i, kind=kind)
        kind = None
        with ctx.case('validate', wit):
            w = model.World(ctx, aug, r, ndirs=0, nfiles=1, max_size=300)
            try:
                f = w.files[0]
                f.cypher = r.choice([None, None, 'sha1', 'md5', 'blake2b'])
                kind = r.choice(['good', 'bad checksum', 'good size', 'bad size', 'unknown cypher', 'etag'])
                if kind in ('good size', 'bad size'):
                    f.has_checksum = False
                    if r.random() < .3:
                        f.data = b''
                        ctx.count('empty')
                w.bootstrap()
                w.local(f).cache.fetch()
                p = w.local(f)
                ic = p.cache._instance_cypher()
                ctx.expect(ic is (w.cypher if f.cypher is None or not f.has_checksum else getattr(hashlib, f.cypher)), 'instance cypher',
                           lambda: f'{ic} for {f.cypher}', wit)
                ctx.count('instance_cypher')
                if kind in ('bad checksum', 'bad size'):
                    data = p.read_bytes()
                    with open(p, 'r+b') as fh:
                        if data and kind == 'bad checksum':
                            fh.write(bytes([data[0] ^ 1]))
                        else:
                            fh.write(data + b'x')
                elif kind == 'unknown cypher':
                    m = dict(p.cache.meta.items(), checksum_cypher='rot13')
                    p.cache._meta_setter(aug.PathMeta(**m))
                elif kind == 'etag':
                    ec = r.choice([1, 7, 100])
                    m = dict(p.cache.meta.items(), etag=ref_etag(f.data, ec), chunksize=ec)
                    p.cache._meta_setter(aug.PathMeta(**m))
                before, mb = p.read_bytes(), gen.view(w.meta_at(p))
                ctx.seen((kind, f.cypher, len(f.data)))
                times = r.randint(1, 3)
                for _ in range(times):
                    c = w.local(f).cache
                    if kind == 'bad size':
                        try:
                            c.validate_file()
                            ctx.expect(False, 'validate:size', 'wrong size was not reported', wit)
                        except exc.SizeError:
                            ctx.count('size_error')
                    elif kind == 'unknown cypher':
                        try:
                            c.validate_file()
                            ctx.expect(False, 'validate:cypher', 'unknown cypher was not reported', wit)
                        except NotImplementedError:
                            pass
                    else:
                        c.validate_file()
                after = gen.view(w.meta_at(p))
                want = dict(mb, errors=('checksum-mismatch',)) if kind == 'bad checksum' else mb
                ctx.expect(after == want, f'validate:{kind}', lambda: f'{gen.differ(want, after)}', wit)
                ctx.expect(p.read_bytes() == before, 'validate:content', 'validation changed the content', wit)
                ctx.count('validated')
                ctx.count('flagged', kind == 'bad checksum')
            finally:
                w.close()
