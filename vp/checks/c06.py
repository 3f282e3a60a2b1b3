""" replacing placeholders and throwing things away """
import os
import pathlib

from .. import common, gen, model
from .c05 import refuses

RULE = ('histories of metadata written over one placeholder (same or other id, with and without timestamps and sizes) '
        'and of files, directories and placeholders thrown away, with the disk compared to a ledger after every step; '
        'non-trivial when the step had an existing version to deal with')


def decide(old, new):
    """ what has to happen to an existing placeholder: keep, replace, either (unspecified), or error """
    if old == new:
        return 'same'
    if old['id'] != new['id']:
        ou, nu = old['updated'], new['updated']
        if ou is None and nu is None:
            return 'keep'
        if ou is None or nu is None:
            return 'unordered'
        if ou > nu:
            return 'keep'
        if ou == nu:
            oc, nc = old['created'], new['created']
            if oc is not None and nc is not None:
                if oc >= nc:
                    return 'keep'
            elif nc is not None:
                return 'error'
            else:
                return 'keep'
    if old['size'] is not None and new['size'] is None:
        return 'keep'
    return 'replace'


def main(ctx):
    aug = common.load_library()
    PathMeta = aug.PathMeta
    ctx.require('replaced', 'kept_newer', 'unchanged', 'kept_size', 'trash_checked', 'crumpled_file',
                'crumpled_dir', 'crumpled_placeholder', 'long_name', 'nested_trash', 'present_path', 'same_id_again', 'thrown_away_again')
    n = ctx.size(260, 8000)
    for i in range(n):
        if ctx.left() < ctx.budget * .4:
            break
        r = ctx.rng('history', i)
        w = None
        steps = []
        wit = lambda: dict(steps=steps)
        with ctx.case('history', wit):
            try:
                w = model.World(ctx, aug, r, ndirs=1, nfiles=1)
                w.bootstrap()
                node = w.files[0]
                p = w.where(node)
                cur = gen.view(w.meta_at(p))
                base = dict(w.meta_at(p).items())
                ids = ['N:package:1', 'N:package:77', node.id, 'id with space', 'N:x|y']
                times = [gen.when(r) for _ in range(3)]
                ledger = []   # every version that was replaced
                for _ in range(r.randint(2, 7)):
                    kw = {k: v for k, v in base.items() if v not in (None, ())}
                    if r.random() < .4:
                        kw['id'] = r.choice(ids)
                    for t in ('updated', 'created'):
                        x = r.random()
                        if x < .15:
                            kw.pop(t, None)
                        elif x < .7:
                            kw[t] = r.choice(times)
                    x = r.random()
                    if x < .2:
                        kw.pop('size', None)
                    elif x < .5:
                        kw['size'] = r.choice([0, 1, 5, 1000])
                    if r.random() < .3:
                        kw['errors'] = ('e%d' % r.randrange(3),)
                    if r.random() < .2:
                        kw['file_id'] = r.randrange(1, 4)
                    if r.random() < .15:
                        kw = {k: v for k, v in base.items() if v not in (None, ())}
                    new = gen.want(kw)
                    m = PathMeta(**kw)
                    steps.append(repr(kw))
                    verdict = decide(cur, new)
                    before = model.tree(w.base, skip=())
                    if refuses(m):
                        continue
                    err = None
                    try:
                        aug.SymlinkCache(w.L(p).cache, meta=m)
                    except aug.exceptions.MetadataIdMismatchError as e:
                        err = e
                    except TypeError as e:
                        if verdict != 'unordered':
                            raise
                        err = e
                    after = model.tree(w.base, skip=())
                    have = w.meta_at(p)
                    ctx.expect(have is not None, 'placeholder:lost', f'after {verdict} the placeholder is gone', wit)
                    if have is None:
                        break
                    got = gen.view(have)
                    if verdict == 'replace':
                        ctx.expect(err is None and got == new, 'placeholder:stale',
                                   lambda: f'newer metadata was not written {err!r} {gen.differ(new, got)}', wit)
                        ledger.append(cur)
                        ctx.count('trash_checked')
                        ctx.count('replaced')
                        cur = new
                    else:
                        ctx.expect(got == cur, 'placeholder:regressed',
                                   lambda: f'{verdict}: cached metadata was replaced {gen.differ(cur, got)}', wit)
                        ctx.expect(after == before, 'placeholder:side effect',
                                   lambda: f'{verdict}: {gen.differ(before, after)}', wit)
                        if verdict in ('error', 'unordered'):
                            ctx.expect(verdict == 'unordered' or err is not None, 'placeholder:silent',
                                       'metadata for another id with less history was silently ignored', wit)
                        elif verdict == 'same':
                            ctx.expect(err is None, 'placeholder:same', f'writing the same metadata failed {err!r}', wit)
                            ctx.count('unchanged')
                        elif cur['id'] == new['id']:
                            ctx.count('kept_size')
                        else:
                            ctx.count('kept_newer')
                    ctx.seen((verdict, repr(kw), repr(cur)))
                    there = [v for v, _ in trash(w)]
                    ctx.expect(all(v in there for v in ledger), 'placeholder:previous',
                               lambda: f'versions that were replaced are not in the trash {[v for v in ledger if v not in there]}', wit)
                    ctx.count('same_id_again', len({v['id'] for v in ledger}) < len(ledger))
                # a path that exists is never turned into a placeholder
                q = w.base / 'present'
                kind = r.choice(['file', 'dir', 'link'])
                if kind == 'file':
                    q.write_bytes(b'user data')
                elif kind == 'dir':
                    q.mkdir()
                else:
                    os.symlink(w.root, q)
                before = model.tree(w.base, skip=())
                try:
                    aug.SymlinkCache(w.L(q), meta=PathMeta(id='N:9', name='present', size=1))
                    ctx.expect(False, 'placeholder:present', f'no error when a {kind} is in the way', wit)
                except (aug.exceptions.PathExistsError, aug.exceptions.AugPathlibError, OSError):
                    pass
                ctx.expect(model.tree(w.base, skip=()) == before, 'placeholder:present changed',
                           f'a {kind} in the way was changed', wit)
                ctx.count('present_path')
                ctx.sample(wit(), 3)
            finally:
                if w is not None:
                    w.close()

    n = ctx.size(200, 5000)
    for i in range(n):
        if ctx.time_up():
            break
        r = ctx.rng('crumple', i)
        w = None
        wit = lambda: dict(i=i)
        with ctx.case('crumple', wit):
            try:
                body = {}
                nested = r.random() < .4
                if nested:
                    body['_trashed_path'] = property(
                        lambda self: self.trash / 'by parent' / 'x' / self.id.replace(':', '-').replace('/', '-')[:500])
                w = model.World(ctx, aug, r, ndirs=r.randint(1, 4), nfiles=r.randint(1, 5), cache_body=body)
                long_id = r.random() < .3
                if long_id:
                    w.files.append(w.store.add(w.store.root, 'the long one', False, b'long', id='N:' + 'q' * 300))
                w.bootstrap()
                got_data = {}
                for f in w.files:
                    if len(f.id) < 100 and r.random() < .5:
                        w.local(f).cache.fetch()
                        got_data[f.id] = f.data
                        if r.random() < .4:
                            w.where(f).write_bytes(b'local edit' + f.data)
                            got_data[f.id] = b'local edit' + f.data
                was = []   # what is in the trash already
                chosen = w.files[-1] if long_id and r.random() < .7 else r.choice([*w.files, *w.dirs[1:]])
                for again in range(r.choice([1, 1, 2, 3])):
                    if again:
                        # the same identity comes back and is thrown away again
                        w.bootstrap()
                        ctx.count('thrown_away_again')
                        if not chosen.is_dir and len(chosen.id) < 100 and r.random() < .6:
                            w.local(chosen).cache.fetch()
                            w.where(chosen).write_bytes(b'%d' % again)
                            got_data[chosen.id] = b'%d' % again
                    crumple(ctx, aug, w, r, chosen, got_data, was, nested, wit, i)
            finally:
                if w is not None:
                    w.close()


def trash(w):
    """ the metadata and place of everything with an identity that is in the trash itself """
    t = w.root / '.operations' / 'trash'
    for d, ds, fs in os.walk(t):
        for n in [*ds, *fs]:
            p = pathlib.Path(d, n)
            m = model.disk_meta(w.aug, p, w.prefix)
            if m is not None:
                yield gen.view(m), p
                if n in ds:
                    ds.remove(n)


def look(w, p):
    """ everything there is to know about a path """
    p = pathlib.Path(p)
    m = model.disk_meta(w.aug, p, w.prefix)
    if p.is_symlink():
        what = os.readlink(p)
    elif p.is_dir():
        what = {k: (v, gen.view(model.disk_meta(w.aug, p / k, w.prefix))) for k, v in model.tree(p).items()}
    else:
        what = p.read_bytes()
    return what, gen.view(m)


def crumple(ctx, aug, w, r, node, got_data, was, nested, wit, i):
    p = w.where(node)
    if r.random() < .3:
        w.reopen()
    kind = 'dir' if node.is_dir else ('placeholder' if p.is_symlink() else 'file')
    me = look(w, p)
    if kind == 'file':
        assert me[0] == got_data[node.id]
    before = {k: v for k, v in model.tree(w.root).items()
              if k != str(w.store.path(node)) and not k.startswith(str(w.store.path(node)) + '/')}
    w.local(node).cache.crumple()
    ctx.expect(not os.path.lexists(p), 'crumple:still there', f'{kind} is still in place', wit)
    was.append(me)
    there = [look(w, x) for _, x in trash(w)]
    ctx.expect(me in there, 'crumple:lost', f'crumpled {kind} is not in the trash as it was', wit)
    ctx.expect(all(x in there for x in was), 'crumple:overwritten', 'something in the trash was overwritten', wit)
    now = model.tree(w.root)
    ctx.expect(now == before, 'crumple:others', lambda: f'throwing one path away changed others {gen.differ(before, now)}', wit)
    ctx.count('crumpled_' + kind)
    ctx.count('long_name', len(node.id) > 255)
    ctx.count('nested_trash', nested)
    ctx.seen((kind, node.id, i))
