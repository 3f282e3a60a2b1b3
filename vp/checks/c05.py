""" merging remote metadata into what is cached """
from datetime import timezone

from .. import common, gen, model

RULE = ('pairs of cached and incoming metadata where every field is independently absent, equal, changed or new, '
        'merged in memory and through a remote refresh onto directories and placeholders that are then read back '
        'from the disk; non-trivial when at least one field differs')

CONTENT = ('created', 'updated', 'size', 'checksum', 'file_id')


def oracle(old, new):
    """ views -> (content changed, view); independent of how the library merges """
    if not any(v not in (None, ()) for v in old.values()):
        return False, dict(new)
    if not any(v not in (None, ()) for v in new.values()):
        return False, dict(old)
    res = dict(old)
    if old['id'] != new['id']:
        res['old_id'] = old['id']
    changed = False
    blank = lambda v: v is None or (isinstance(v, (tuple, str, bytes)) and len(v) == 0)
    for f in gen.FIELDS:
        if not blank(new[f]):
            if old[f] is not None and old[f] != new[f] and f in CONTENT:
                changed = True
            res[f] = new[f]
    if changed:
        # what was known about other content is not known about this content
        for f in gen.FIELDS:
            if f != 'old_id' and blank(new[f]):
                res[f] = () if f == 'errors' else None
    return changed, res


def pair(r, need=('id',), same_id=None, alpha=None):
    old = gen.meta_kwargs(r, need=need, alpha=alpha)
    new = {}
    style = r.choice(['mixed', 'mixed', 'same content', 'identical', 'fresh'])
    if style == 'fresh':
        new = gen.meta_kwargs(r, need=need, alpha=alpha)
    else:
        for f in gen.FIELDS:
            p = r.random()
            if f in need and p < .25:
                p = .3
            if style == 'identical' and f in old:
                new[f] = old[f]
            elif style == 'same content' and f in CONTENT:
                if f in old and p < .8:
                    new[f] = old[f]
            elif p < .25:
                continue
            elif p < .7:
                if f in old:
                    new[f] = old[f]
            else:
                new[f] = gen.value(r, f, alpha if isinstance(old.get(f), str) else None)
    if r.random() < .7 if same_id is None else same_id:
        new['id'] = old['id']
    return old, new


def main(ctx):
    aug = common.load_library()
    PathMeta = aug.PathMeta
    ctx.require('content_changed', 'content_same', 'id_changed', 'field_kept', 'field_dropped', 'dir_merges',
                'placeholder_merges', 'untouched', 'empty_side')
    merge = getattr(aug.PrimaryCache, '_update_meta', None)
    n = ctx.size(2500, 60000)
    for i in range(n):
        if merge is None or ctx.left() < ctx.budget * .5:
            break
        r = ctx.rng('memory', i)
        old, new = pair(r)
        if r.random() < .03:
            old = {}
        elif r.random() < .03:
            new = {}
        wit = lambda: dict(old=repr(old), new=repr(new))
        with ctx.case('merge', wit):
            mo, mn = PathMeta(**old), PathMeta(**new)
            if r.random() < .3 and old:
                mo = PathMeta.from_xattrs(mo.as_xattrs('p'), 'p')
            changed, want = oracle(gen.want(old), gen.want(new))
            ctx.seen((sorted(map(repr, old.items())), sorted(map(repr, new.items()))),
                     gen.want(old) != gen.want(new))
            ctx.sample(wit(), 3)
            diff, res = merge(mo, mn)
            got = gen.view(res)
            ctx.expect(got == want, 'merge:' + ','.join(gen.differ(want, got))[:60],
                       lambda: f'merged metadata is wrong in {gen.differ(want, got)}', wit)
            ctx.expect(bool(diff) is changed, 'merge:verdict',
                       f'content changed is reported as {diff}, should be {changed}', wit)
            ctx.expect(gen.view(mo) == gen.want(old) and gen.view(mn) == gen.want(new), 'merge:mutates',
                       'merging changed one of its inputs', wit)
            diff2, res2 = merge(res, mn)
            if old and new:
                ctx.expect(not diff2 and gen.view(res2) == got, 'merge:idempotent',
                           lambda: f'merging the same update twice changes {gen.differ(got, gen.view(res2))}', wit)
            ctx.count('content_changed' if changed else 'content_same')
            ctx.count('id_changed', old.get('id') != new.get('id'))
            ctx.count('empty_side', not old or not new)
            ctx.count('field_kept', any(f in old and f not in new and want[f] not in (None, ()) for f in gen.FIELDS))
            ctx.count('field_dropped', any(f in old and want[f] in (None, ()) for f in gen.FIELDS))

    # through the real update path, judged from the disk
    n = ctx.size(250, 6000)
    for i in range(n):
        if ctx.time_up():
            break
        r = ctx.rng('disk', i)
        kind = r.choice(['dir', 'placeholder'])
        alpha = None
        w = None
        old, new = pair(r, need=('id', 'updated', 'created') if kind == 'dir' else ('id', 'updated', 'created', 'size', 'file_id'),
                        same_id=True, alpha=r.choice(['plain', 'colons', 'dots', 'unicode']))
        wit = lambda: dict(kind=kind, old=repr(old), new=repr(new))
        with ctx.case('update:' + kind, wit):
            try:
                w = model.World(ctx, aug, r, ndirs=1, nfiles=1)
                node = w.dirs[1] if kind == 'dir' else w.files[0]
                for kw in (old, new):
                    kw['id'] = node.id
                    kw.setdefault('size', 1) if kind != 'dir' else None
                    if kind == 'placeholder':
                        # the placeholder itself is only a metadata store
                        kw.pop('old_id', None)
                        if isinstance(kw.get('user_id'), str) and kw['user_id'].isdigit():
                            kw.pop('user_id')
                node.override = dict(old)
                if kind == 'placeholder' and refuses(PathMeta(**old)):
                    raise common.Skip()
                w.bootstrap()
                p = w.where(node)
                have = w.meta_at(p)
                ctx.expect(have is not None and gen.view(have) == {**gen.want(old)}, 'update:first',
                           lambda: f'cached metadata differs from what the remote reported {gen.differ(gen.want(old), gen.view(have)) if have else None}', wit)
                others = {k: v for k, v in snapshot(w).items() if k != str(p)}
                if r.random() < .5:
                    w.reopen()
                changed, want = oracle(gen.want(old), gen.want(new))
                node.override = dict(new)
                route = r.choice(['update_cache', 'refresh'])
                cache = w.local(node).cache
                refused = kind == 'placeholder' and refuses(PathMeta(**want_kw(want)))
                try:
                    if route == 'refresh':
                        cache.refresh()
                        d = changed
                    else:
                        d = cache.remote.update_cache()
                except ValueError:
                    if not refused:
                        raise
                    # what cannot be written must not displace what is there
                    have = w.meta_at(p)
                    ctx.expect(have is not None and gen.view(have) == gen.want(old), 'update:refused',
                               'a refused update changed the cached metadata', wit)
                    ctx.count('refused')
                    continue
                if True:
                    ctx.expect(bool(d) is changed, 'update:verdict', f'update_cache reports {d} should be {changed}', wit)
                have = w.meta_at(p)
                ctx.expect(have is not None, f'update:{kind}:lost', 'metadata is gone after an update', wit)
                if have is not None:
                    got = gen.view(have)
                    ctx.expect(got == want, f'update:{kind}:' + ','.join(gen.differ(want, got))[:60],
                               lambda: f'{route}: metadata on disk is wrong in {gen.differ(want, got)}', wit)
                    w.open_session()
                    w.reopen()
                    again = gen.view(w.local(node).cache.meta)
                    ctx.expect(again == want, f'update:{kind}:reopened',
                               lambda: f'another process sees other metadata {gen.differ(want, again)}', wit)
                ctx.count(kind + '_merges')
                now = {k: v for k, v in snapshot(w).items() if k != str(p)}
                ctx.expect(now == others, 'update:others', lambda: f'updating one path changed another {gen.differ(others, now)}', wit)
                ctx.count('untouched')
                ctx.seen((kind, sorted(map(repr, old.items())), sorted(map(repr, new.items()))))
            finally:
                if w is not None:
                    w.close()


def want_kw(view):
    return {k: (v[1].replace(tzinfo=timezone.utc) if k in ('created', 'updated') and v else v)
            for k, v in view.items() if v not in (None, ())}


def refuses(meta):
    try:
        meta.as_symlink(local_name='x')
        return False
    except ValueError:
        return True


def snapshot(w):
    out = {}
    for rel in ['.', *model.tree(w.root)]:
        m = w.meta_at(w.root / rel)
        out[str(w.root / rel) if rel != '.' else str(w.root)] = gen.view(m) if m is not None else None
    return out
