""" fetching content """
import os

from .. import common, gen, model

RULE = ('placeholders and previously fetched files fetched from a remote that serves the right content, corrupted, short or '
        'long content, or fails after any number of chunks, under all size limits; the file, its metadata on disk and the '
        'requests made of the remote are checked every time and the fetch is repeated once the remote works again; '
        'non-trivial when content was requested')

MB = 1024 * 1024


def main(ctx):
    aug = common.load_library()
    exc = aug.exceptions
    ctx.require('good', 'empty', 'corrupt', 'short', 'long', 'fault', 'over_limit', 'exact_limit', 'more_than_none', 'retried', 'refetched', 'no_checksum',
                'other_cypher', 'no_file_id', 'directory', 'multi_chunk', 'mismatch_recovered', 'no_limit', 'fault_all_points', 'no_size', 'other_errors', 'fault_placeholder')
    n = ctx.size(420, 14000)
    for i in range(n):
        if ctx.time_up():
            break
        r = ctx.rng(i)
        w = None
        plan = dict(i=i)
        wit = lambda: plan
        with ctx.case('fetch', wit):
            try:
                w = model.World(ctx, aug, r, ndirs=r.randint(0, 2), nfiles=r.randint(1, 2), max_size=9000)
                one(ctx, aug, exc, w, r, plan, wit)
            finally:
                if w is not None:
                    w.close()
        ctx.sample(dict(plan), 6)
    # a failure after every possible number of chunks
    for i in range(ctx.size(4, 40)):
        r = ctx.rng('points', i)
        w = None
        plan = dict(points=i)
        wit = lambda: plan
        with ctx.case('points', wit):
            try:
                w = model.World(ctx, aug, r, ndirs=0, nfiles=0)
                w.store.chunksize = 50
                f = w.add_file(data=r.randbytes(50 * r.randint(1, 9) + r.choice([0, 1, 49])))
                w.bootstrap()
                me = gen.view(w.meta_at(w.where(f)))
                for k in range(len(f.data) // 50 + 1):
                    w.store.fault_after = k
                    plan['k'] = k
                    failed(ctx, exc, w, f, me, wit)
                    ctx.count('fault_all_points')
                w.store.fault_after = None
                w.local(f).cache.fetch()
                good(ctx, w, f, me, wit, 'points')
            finally:
                if w is not None:
                    w.close()


def anysize(f):
    """ files whose size is not known are only fetched without a limit """
    return () if f.has_size else (None,)


def good(ctx, w, f, me, wit, tag):
    p = w.where(f)
    ctx.expect(p.is_file() and not p.is_symlink() and p.read_bytes() == f.data, f'{tag}:content',
               lambda: f'fetched content differs from the remote content, {p.lstat()}', wit)
    m = w.meta_at(p)
    ctx.expect(m is not None and gen.view(m) == me, f'{tag}:metadata',
               lambda: f'metadata changed by the fetch {gen.differ(me, gen.view(m)) if m else m}', wit)
    c = w.local(f).cache
    ctx.expect(c is not None and c.id == f.id, f'{tag}:cache', 'the fetched file has no identity', wit)
    if me['checksum'] is not None:
        ctx.expect(w.local(f).content_different() is False, f'{tag}:clean',
                   'a file that was just fetched counts as locally changed', wit)
    strays = [x for x in os.listdir(p.parent) if x not in {n.name for n in w.store.nodes.values()} and x != '.operations']
    ctx.expect(not strays, f'{tag}:strays', lambda: f'left behind {strays}', wit)


def failed(ctx, exc, w, f, me, wit):
    p = w.where(f)
    err = None
    was_placeholder = p.is_symlink()
    ops = lambda: {x for x in os.listdir(w.root / '.operations')}
    before = ops()
    try:
        w.local(f).cache.fetch()
    except (model.FetchFault, ValueError, exc.SizeError) as e:
        err = e
    ctx.expect(err is not None, 'fault:silent', 'a failing remote was not reported', wit)
    m = w.meta_at(p)
    ctx.expect(m is not None and gen.view(m) == me, 'fault:metadata',
               lambda: f'metadata changed by a failed fetch {gen.differ(me, gen.view(m)) if m else m}', wit)
    if was_placeholder:
        ctx.expect(p.is_symlink(), 'fault:not a placeholder',
                   'a failed fetch of a placeholder left a file in its place', wit)
        ctx.count('fault_placeholder')
    else:
        ctx.expect(p.is_file() and not p.is_symlink(), 'fault:file gone', 'a failed fetch removed the file', wit)
    ctx.expect(ops() == before, 'fault:strays', lambda: f'left behind {ops() ^ before}', wit)
    if p.is_file() and me['checksum'] is not None and p.read_bytes() != f.data:
        ctx.expect(w.local(f).content_different() is True, 'fault:looks complete',
                   'what is left after a failed fetch counts as the remote content', wit)
    ctx.count('fault')
    return err


def one(ctx, aug, exc, w, r, plan, wit):
    store = w.store
    how = r.choice(['good', 'good', 'good', 'empty', 'corrupt', 'short', 'long', 'fault', 'fault', 'limit', 'limit',
                    'no file id', 'directory'])
    f = r.choice(w.files)
    kind = r.choice(['own', 'own', 'other', 'none'])
    if kind == 'other':
        f.cypher = r.choice(['sha256', 'md5', 'sha1', 'sha512', 'blake2b'])
        ctx.count('other_cypher')
    elif kind == 'none':
        f.has_checksum = False
        ctx.count('no_checksum')
    if r.random() < .25:
        f.errors = r.choice([('state: unavailable',), ('a', 'b'), ('checksum-mismatch-old',)])
        ctx.count('other_errors')
    if how in ('good', 'empty', 'corrupt') and r.random() < .15:
        f.has_size = False
        ctx.count('no_size')
    if how == 'empty':
        f.data = b''
    elif how == 'long' and r.random() < .25:
        f.data = b''
        ctx.count('more_than_none')
    elif how in ('corrupt', 'short', 'long') and not f.data:
        f.data = b'x' * r.randint(1, 50)
    elif r.random() < .15:
        f.data = r.randbytes(r.choice([MB, MB + 1, 200000]))
    plan.update(how=how, checksum=kind, size=len(f.data), chunk=store.chunksize)
    ctx.count('multi_chunk', len(f.data) > store.chunksize)
    if how == 'no file id':
        keep_id, f.file_id = f.file_id, None
    w.bootstrap()
    p = w.where(f)
    me = gen.view(w.meta_at(p))
    if how == 'no file id':
        # only known to the remote by now
        f.file_id = me['file_id'] = keep_id
    if r.random() < .3:
        w.reopen()
    if r.random() < .3 and how not in ('no file id', 'limit'):
        w.local(f).cache.fetch(*anysize(f))
        good(ctx, w, f, me, wit, 'first')
        if r.random() < .5:
            p.write_bytes(b'something else')
        ctx.count('refetched')
        plan['refetched'] = True
    del store.log[:]
    asked = lambda: len([x for x in store.log if x[0] == 'data'])
    ctx.seen((how, kind, len(f.data), store.chunksize, plan.get('refetched')), how not in ('limit', 'directory'))
    if how == 'directory':
        before = model.tree(w.root)
        try:
            w.local(store.root).cache.fetch()
            ok = False
        except NotImplementedError:
            ok = True
        ctx.expect(ok and model.tree(w.root) == before and not asked(), 'directory', 'fetching a directory did something', wit)
        ctx.count('directory')
    elif how in ('good', 'empty', 'no file id'):
        if not f.has_size or r.random() < .3:
            w.local(f).cache.fetch(size_limit_mb=None)
            ctx.count('no_limit')
        else:
            w.local(f).cache.fetch(size_limit_mb=r.choice([2, 3, 1000]))
        good(ctx, w, f, me, wit, how)
        ctx.count('empty' if not f.data else how.replace(' ', '_'))
        if how == 'no file id':
            ctx.count('no_file_id')
        else:
            ctx.expect(asked() == 1, 'requests', lambda: f'{asked()} downloads for one fetch', wit)
    elif how == 'limit':
        mb = len(f.data) / MB
        over = [x for x in (0, mb / 2, mb * .999, mb - 1 / MB) if x < mb]
        if not over:
            return
        lim = r.choice(over)
        before = model.tree(w.root)
        w.local(f).cache.fetch(size_limit_mb=lim)
        ctx.expect(model.tree(w.root) == before and gen.view(w.meta_at(p)) == me and not asked(), 'limit:fetched',
                   f'{len(f.data)} bytes were fetched with a limit of {lim} MB', wit)
        ctx.count('over_limit')
        # a limit is the most that may be fetched
        lim = r.choice([mb * 1.01 + 1 / MB, mb + 1 / MB, mb, mb, None])
        ctx.count('exact_limit', lim == mb)
        w.local(f).cache.fetch(size_limit_mb=lim)
        good(ctx, w, f, me, wit, 'limit')
    elif how == 'fault':
        store.fault_after = r.randint(0, -(-(len(f.data) or int(store.yields_empty)) // store.chunksize))
        plan['after'] = store.fault_after
        failed(ctx, exc, w, f, me, wit)
        store.fault_after = None
        if r.random() < .4:
            w.reopen()
        w.local(f).cache.fetch()
        good(ctx, w, f, me, wit, 'retry')
        ctx.count('retried')
    elif how in ('short', 'long'):
        f.corrupt = f.data[:r.randrange(len(f.data))] if how == 'short' else f.data + r.randbytes(r.randint(1, 5000))
        failed(ctx, exc, w, f, me, wit)
        ctx.count(how)
        f.corrupt = None
        w.local(f).cache.fetch()
        good(ctx, w, f, me, wit, 'retry')
        ctx.count('retried')
    elif how == 'corrupt':
        k = r.randrange(len(f.data))
        f.corrupt = f.data[:k] + bytes([f.data[k] ^ (1 << r.randrange(8))]) + f.data[k + 1:]
        w.local(f).cache.fetch(*anysize(f))
        m = w.meta_at(p)
        want = dict(me)
        if kind != 'none':
            want['errors'] = me['errors'] + ('checksum-mismatch',)
        ctx.expect(m is not None and gen.view(m) == want, 'corrupt:flag',
                   lambda: f'metadata after corrupted content {gen.differ(want, gen.view(m)) if m else m}', wit)
        ctx.expect(p.read_bytes() == f.corrupt, 'corrupt:content', 'the content is not what was served', wit)
        ctx.count('corrupt')
        if r.random() < .5:
            w.reopen()
        if r.random() < .5:
            # still bad: reported once, not once for every attempt
            w.local(f).cache.fetch(*anysize(f))
            m = w.meta_at(p)
            ctx.expect(m is not None and gen.view(m) == want, 'corrupt:again',
                       lambda: f'fetching bad content again {gen.differ(want, gen.view(m)) if m else m}', wit)
        # content that is known to be bad does not pass for the remote content
        if kind != 'none':
            ctx.expect(w.local(f).content_different() is True, 'corrupt:looks good',
                       'corrupted content counts as the remote content', wit)
        # good content can be fetched afterwards
        f.corrupt = None
        w.local(f).cache.fetch(*anysize(f))
        ctx.expect(p.read_bytes() == f.data, 'corrupt:recovered', 'good content could not be fetched after bad', wit)
        m = w.meta_at(p)
        ctx.expect(m is not None and {k: v for k, v in gen.view(m).items() if k != 'errors'}
                   == {k: v for k, v in me.items() if k != 'errors'}, 'corrupt:metadata', lambda: f'{m!r}', wit)
        ctx.count('mismatch_recovered')
