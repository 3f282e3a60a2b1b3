""" metadata written by earlier releases stays readable """
import os
import pickle
import struct
from datetime import timezone, datetime

from .. import common, gen

RULE = ('an independent frozen writer for every released placeholder layout (original, 1 to 6), the '
        'attribute layout including binary timestamps and the database blob writes generated metadata; '
        'the library must read it; non-trivial when two or more fields are set')

BASE = ('file_id', 'size', 'created', 'updated', 'checksum')
TAIL = ('old_id', 'gid', 'user_id', 'mode')
LAYOUT = {
    'meta': BASE + TAIL + ('errors',),
    'mdv1': BASE + ('chunksize',) + TAIL + ('errors',),
    'mdv2': BASE + ('etag', 'chunksize') + TAIL + ('errors',),
    'mdv3': BASE + ('etag', 'chunksize', 'parent_id') + TAIL + ('name', 'errors'),
    'mdv4': BASE + ('checksum_cypher', 'etag', 'chunksize', 'parent_id') + TAIL + ('name', 'errors'),
    'mdv5': BASE + ('checksum_cypher', 'etag', 'chunksize', 'parent_id') + TAIL + ('name', 'errors'),
    'mdv6': BASE + ('checksum_cypher', 'etag', 'chunksize', 'multi', 'parent_id') + TAIL
            + ('name', 'errors'),
}

# literal placeholders, kept exactly as they were produced
GOLDEN = [
    ('N:package:1/.meta.42.1024.2019-04-01T12:00:00,123456Z.2019-04-02T12:00:00Z.00ff.#.0.100.0o100644..1K',
     dict(id='N:package:1', file_id=42, size=1024, gid=0, user_id=100, mode='0o100644',
          checksum=bytes.fromhex('00ff'),
          created=datetime(2019, 4, 1, 12, 0, 0, 123456, tzinfo=timezone.utc),
          updated=datetime(2019, 4, 2, 12, tzinfo=timezone.utc))),
    ('N:package:2/.mdv1.7.0.#.#.#.4096.N:package:0.#.N:user:x.#.a;b.0',
     dict(id='N:package:2', file_id=7, size=0, chunksize=4096, old_id='N:package:0',
          user_id='N:user:x', errors=('a', 'b'))),
    ('N:package:3/.mdv2.#.#.#.#.#.d41d8cd98f00b204e9800998ecf8427e-3.5242880.#.#.#.#..??',
     dict(id='N:package:3', etag=(bytes.fromhex('d41d8cd98f00b204e9800998ecf8427e'), 3),
          chunksize=5242880)),
    ('host:|home|u|f/.mdv3.9.10.#.#.#.#.#.host:|home|u.#.1000.1000.0o100600.name|txt..10',
     dict(id='host:/home/u/f', file_id=9, size=10, parent_id='host:/home/u', gid=1000, user_id=1000,
          mode='0o100600', name='name.txt')),
    ('N:package:4/.mdv4.9.10.#.#.aa.sha256.#.#.N:collection:1.#.#.#.#.n|tar|gz..10',
     dict(id='N:package:4', file_id=9, size=10, checksum=b'\xaa', checksum_cypher='sha256',
          parent_id='N:collection:1', name='n.tar.gz')),
    ('N:package:5!x/.mdv5.9.10.#.2020-01-01T00:00:00,5-08:00.aa.md5.#.#.N:collection:1.#.#.#.#.n!tar!gz.e1;e2.10',
     dict(id='N:package:5.x', file_id=9, size=10, checksum=b'\xaa', checksum_cypher='md5',
          parent_id='N:collection:1', name='n.tar.gz', errors=('e1', 'e2'),
          updated=datetime(2020, 1, 1, 8, 0, 0, 500000, tzinfo=timezone.utc))),
    ('N:package:6/.mdv6.9.10.#.#.#.#.#.#.2.N:collection:1.#.0.#.#.n!txt..10',
     dict(id='N:package:6', file_id=9, size=10, multi=2, parent_id='N:collection:1', gid=0,
          name='n.txt')),
]


def iso(dt):
    s = dt.isoformat()
    return s.replace('.', ',').replace('+00:00', 'Z')


def enc_symlink(version, field, v):
    v5 = version in ('mdv5', 'mdv6')
    if v is None:
        return '#'
    if field == 'errors':
        return ';'.join(v)
    if field == 'checksum':
        return v.hex()
    if field == 'etag':
        return f'{v[0].hex()}-{v[1]}'
    if field in ('created', 'updated'):
        return iso(v)
    if field in ('id', 'old_id', 'parent_id', 'mode'):
        v = v.replace('/', '|')
        return v.replace('.', '!') if v5 else v
    if field == 'name':
        return v.replace('.', '!') if v5 else v.replace('.', '|')
    return str(v)


def write_symlink(version, kw):
    body = '.'.join(enc_symlink(version, f, kw.get(f, () if f == 'errors' else None))
                    for f in LAYOUT[version])
    return f'{enc_symlink(version, "id", kw["id"])}/.{version}.{body}.{kw.get("size", "??")}'


def write_xattrs(kw, prefix, binary_times):
    out = {}
    for f, v in kw.items():
        if f in ('created', 'updated'):
            b = struct.pack('d', v.timestamp()) if binary_times else iso(v).encode()
        elif f == 'checksum':
            b = v
        elif f == 'etag':
            b = f'{v[0].hex()}-{v[1]}'.encode()
        elif f == 'errors':
            b = ';'.join(v).encode()
        else:
            b = str(v).encode()
        out[((prefix + '.') if prefix else '').encode() + f.encode()] = b
    return out


def clean(s, version):
    # what stood for something else in that version
    bad = '#|;\n' + ('!' if version in ('mdv5', 'mdv6', None) else './')
    s = ''.join(c for c in s if c not in bad)
    return s or 'x'


def fetched(view_, kw, fields):
    want = gen.want({k: v for k, v in kw.items() if k in fields})
    return want


def main(ctx):
    aug = common.load_library()
    PathMeta = aug.PathMeta
    versions = list(LAYOUT)
    ctx.require('golden', 'exclamation', 'xattr', 'xattr_binary_times', 'blob', 'refused', *versions)
    exc = aug.exceptions
    d = ctx.newdir()

    def read(target, name='f'):
        p = aug.AugmentedPath(d / name)
        os.symlink(f'{name}/{target}', p)
        try:
            return gen.view(PathMeta.from_symlink(p))
        finally:
            os.unlink(p)

    for tz in gen.TZS:
        for target, kw in GOLDEN:
            with ctx.case('golden', target), common.timezone(tz):
                got = read(target)
                ctx.expect(got == gen.want(kw), 'golden:' + target.split('/.')[1].split('.')[0],
                           lambda: f'{target} reads as {gen.differ(gen.want(kw), got)}', dict(tz=tz))
                ctx.count('golden')
                ctx.seen(('golden', target, tz))

    n = ctx.size(1400, 30000)
    for i in range(n):
        if ctx.time_up():
            break
        r = ctx.rng(i)
        tz1, tz2 = r.choice(gen.TZS), r.choice(gen.TZS)
        version = versions[i % len(versions)]
        kw = gen.meta_kwargs(r)
        fields = set(LAYOUT[version]) | {'id'}
        kw = {k: v for k, v in kw.items() if k in fields}
        for k, v in list(kw.items()):
            if isinstance(v, str):
                kw[k] = clean(v, version if k != 'name' else 'mdv6')
                if version not in ('mdv5', 'mdv6') and r.random() < .1:
                    kw[k] += r.choice(['!', '!x', '!!'])
                    ctx.count('exclamation')
                if k in ('name',):
                    kw[k] = kw[k].replace('/', '') or 'x'
                if k == 'user_id':
                    kw[k] = kw[k].replace('.', '').replace('/', '')
            elif k == 'errors':
                kw[k] = tuple(clean(e, 'mdv1') for e in v)
        target = write_symlink(version, kw)
        wit = lambda: dict(target=target, kw={k: repr(v) for k, v in kw.items()}, tz=tz2)
        with ctx.case('symlink', wit), common.timezone(tz2):
            got = read(target)
            want = gen.want(kw)
            ctx.expect(got == want, 'read:' + version,
                       lambda: f'{target} reads as {gen.differ(want, got)}', wit)
            ctx.count(version)
            ctx.seen(target, len(kw) > 2)
            ctx.sample(target)

        # what is no placeholder of a known version, or has a field that cannot be what it says, is refused
        order = LAYOUT[version]
        head, _, last = target.rpartition(f'/.{version}.')
        parts = last.split('.')
        how = r.choice(['field', 'field', 'field', 'version'])
        if how == 'version':
            bad = f'{head}/.{r.choice(["mdv7", "mdv99", "mdv", "mdv0", "mdv06", "MDV6", "meta2"])}.{last}'
        else:
            field = r.choice([f for f in order if f in ('file_id', 'size', 'chunksize', 'gid', 'multi', 'checksum', 'etag')])
            parts[order.index(field)] = r.choice(dict(
                checksum=['xyz', 'abc', '0x00', 'aa-bb'], etag=['aabb', 'aabb-', '-x', 'zz-3', 'aabb-3-x', 'aabb-x'],
            ).get(field, ['x', '', '1x', '0x10', '--1', '1,5', '1K', 'None']))
            bad = f'{head}/.{version}.' + '.'.join(parts)
        with ctx.case('damaged', lambda: dict(target=bad, of=target)):
            try:
                got = read(bad)
            except (ValueError, KeyError, NotImplementedError, exc.AugPathlibError) as e:
                ctx.count('refused')
            else:
                ctx.expect(False, f'damaged:{how}', lambda: f'{bad} was accepted as {got}', dict(target=bad, of=target))

        kw = gen.meta_kwargs(r)
        prefix = r.choice([None, 'bf', 'ssh', 'a.b'])
        binary = r.random() < .4
        xs = write_xattrs(kw, prefix, binary)
        wit = lambda: dict(xattrs={k.decode(): repr(v) for k, v in xs.items()}, tz=tz2)
        with ctx.case('xattr', wit), common.timezone(tz2):
            for how in ('xattr', 'blob'):
                m = (PathMeta.from_xattrs(xs, prefix) if how == 'xattr' else
                     PathMeta.from_metastore(pickle.dumps(xs), prefix))
                got = {f: getattr(m, f) for f in gen.FIELDS}
                for k in ('created', 'updated'):
                    if got[k] is not None:  # naive values are local time
                        got[k] = datetime.fromtimestamp(got[k].timestamp(), timezone.utc)
                got = {k: gen.norm(v) for k, v in got.items()}
                want = gen.want(kw)
                ctx.expect(got == want, f'read:{how}',
                           lambda: f'{how} reads as {gen.differ(want, got)}', wit)
                ctx.count(how)
            ctx.count('xattr_binary_times', binary and ('created' in kw or 'updated' in kw))
            ctx.seen(sorted(xs.items()), len(kw) > 2)
