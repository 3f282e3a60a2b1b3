""" Seeded generators of metadata values. The domain of each field is what the
library's own producers put there: remotes hand over strings, integers, bytes and
timezone aware datetimes. """
import hashlib
from datetime import datetime, timezone, timedelta

FIELDS = ('name', 'size', 'created', 'updated', 'checksum', 'checksum_cypher', 'etag',
          'chunksize', 'multi', 'parent_id', 'id', 'file_id', 'old_id', 'gid', 'user_id',
          'mode', 'errors')

ALPHAS = {
    'plain': 'abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_',
    'dots': 'ab.c._-12.',
    'colons': 'N:package:0123456789abcdef-',
    'spaces': 'ab c\td  e',
    'unicode': 'aé漢字\U0001f600ßñ\u0301 z',
    'punct': 'ab,=+@%&()[]{}$~^\'"`<>*?\\',
    'hostile': 'ab#!|.;/ \n',
    'slash': 'ab/c.d/',
    'control': 'ab1 \n\r\t\x0b\x00\x01\x7f\x85\xa0\u2028\u200b\ufeff',
    'surrogate': 'ab\udc80\udcff',
}
TZS = ['UTC', 'America/Los_Angeles', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Pacific/Chatham',
       'Europe/London', 'EST5EDT', 'Etc/GMT-14']


def text(r, alpha=None, lo=1, hi=12):
    if alpha is None:
        alpha = r.choice(['plain', 'plain', 'dots', 'colons', 'spaces', 'unicode', 'punct'])
    a = ALPHAS[alpha]
    return ''.join(r.choice(a) for _ in range(r.randint(lo, hi)))


def when(r):
    """ aware datetime with whole minute offset """
    kind = r.randrange(8)
    if kind == 0:
        base = datetime(2021, 3, 14, 2, 30)      # inside a DST gap in the US
    elif kind == 1:
        base = datetime(2021, 11, 7, 1, 30)      # inside a DST fold in the US
    elif kind == 2:
        base = datetime(1970, 1, 1)
    elif kind == 3:
        base = datetime(2038, 1, 19, 3, 14, 8)
    elif kind == 4:
        base = datetime(2020, 12, 10, 11, 12)    # day, month, year all confusable
    else:
        base = datetime(1971, 1, 1) + timedelta(seconds=r.randrange(0, 4_000_000_000))
    us = r.choice([0, 0, 1, 10, 999999, 123456, 100000, r.randrange(10**6)])
    base = base.replace(microsecond=us)
    off = r.choice([0, 0, 0, 60, -480, 330, 845, -90, 14 * 60, -12 * 60, 1, -1])
    tz = timezone.utc if off == 0 else timezone(timedelta(minutes=off))
    return base.replace(tzinfo=tz)


def natural(r, zero=True):
    return r.choice([0 if zero else 1, 1, 2, 7, 100, 1023, 1024, 4096, 2**31 - 1, 2**32, 2**40 + 5,
                     2**63, r.randrange(1, 10**12)])


CYPHERS = ['sha256', 'md5', 'sha1', 'blake2b', 'sha512']


def value(r, field, alpha=None):
    if field == 'name':
        a = alpha or r.choice(['plain', 'dots', 'spaces', 'unicode', 'punct'])
        return text(r, a, 1, 20)
    if field == 'size':
        return natural(r)
    if field in ('created', 'updated'):
        return when(r)
    if field == 'checksum':
        return getattr(hashlib, r.choice(CYPHERS))(str(r.random()).encode()).digest()
    if field == 'checksum_cypher':
        return r.choice(CYPHERS)
    if field == 'etag':
        return hashlib.md5(str(r.random()).encode()).digest(), r.choice([0, 1, 2, 10, 9999])
    if field in ('chunksize', 'multi', 'gid'):
        return natural(r)
    if field == 'file_id':
        return natural(r, zero=False)
    if field in ('parent_id', 'id', 'old_id'):
        return text(r, alpha or r.choice(['plain', 'colons', 'dots', 'unicode', 'slash', 'spaces']))
    if field == 'user_id':
        if r.random() < .4:
            return natural(r)
        return 'u' + text(r, alpha or r.choice(['plain', 'colons', 'unicode', 'spaces']))
    if field == 'mode':
        return r.choice(['0o100644', '0o40755', '0o100600', 'read', 'rw'])
    if field == 'errors':
        n = r.randint(1, 3)
        return tuple(text(r, alpha or r.choice(['plain', 'spaces', 'unicode'])) for _ in range(n))
    raise KeyError(field)


LIKE_NUMBERS = ['007', '1_0', ' 7', '7 ', '+5', '-2', '-0', '0', '12', '\u0663', '7\n', '1e3', '0x1f']


def numeric(v):
    """ a text that is read as a number """
    try:
        return isinstance(v, str) and str(int(v)) == v
    except ValueError:
        return False


def meta_kwargs(r, alpha=None, density=None, need=('id',), xattr=False):
    d = r.choice([.2, .5, .9, 1]) if density is None else density
    out = {}
    for f in FIELDS:
        if f in need or r.random() < d:
            v = value(r, f, alpha)
            out[f] = v
    return out


def norm(v):
    """ the observable value of a field """
    if isinstance(v, datetime):
        return ('instant', v.astimezone(timezone.utc).replace(tzinfo=None))
    if isinstance(v, (list, tuple)):
        return tuple(v)
    return v


def view(meta):
    """ read every field of a metadata object the way a user does """
    return {f: norm(getattr(meta, f)) for f in FIELDS}


def want(kw):
    out = {f: None for f in FIELDS}
    out['errors'] = ()
    for k, v in kw.items():
        out[k] = norm(v)
    return out


def differ(a, b):
    return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b))
            if a.get(k) != b.get(k) or type(a.get(k)) is not type(b.get(k))
            and not isinstance(a.get(k), int)}
