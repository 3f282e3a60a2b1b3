""" moving cached paths """
import os

from .. import common, gen, model

RULE = ('histories of remote renames, moves between directories, name swaps and collisions (with tracked and untracked '
        'local content) followed by refreshes or direct moves, the whole project is compared with a ledger of ids, bytes '
        'and metadata after every step; non-trivial when the path really changed')


def below(node, top):
    while node is not None:
        if node is top:
            return True
        node = node.parent
    return False


def ledger(w):
    """ relative path -> (kind, content, metadata view) """
    out = {}
    for rel, (kind, content) in model.tree(w.root).items():
        m = w.meta_at(w.root / rel)
        out[rel] = (kind if kind != 'link' else 'placeholder', content if kind == 'file' else None,
                    gen.view(m) if m is not None else None)
    return out


def main(ctx):
    aug = common.load_library()
    exc = aug.exceptions
    ctx.require('renamed', 'reparented', 'dir_moved', 'file_moved', 'placeholder_moved', 'collision_tracked',
                'collision_untracked', 'new_parents', 'into_itself', 'direct', 'onto_self')
    n = ctx.size(260, 8000)
    for i in range(n):
        if ctx.time_up():
            break
        r = ctx.rng(i)
        w = None
        hist = []
        wit = lambda: dict(history=hist)
        with ctx.case('move', wit):
            try:
                w = model.World(ctx, aug, r, ndirs=r.randint(2, 5), nfiles=r.randint(2, 6), max_size=500)
                w.bootstrap()
                for f in w.files:
                    if r.random() < .5:
                        w.local(f).cache.fetch()
                        if r.random() < .3:
                            with open(w.where(f), 'ab') as fh:
                                fh.write(b'local edit')
                for step in range(r.randint(1, 5)):
                    if r.random() < .2:
                        w.reopen()
                    one(ctx, aug, exc, w, r, hist, wit)
            finally:
                if w is not None:
                    w.close()
        ctx.sample(wit(), 3)


def one(ctx, aug, exc, w, r, hist, wit):
    store = w.store
    node = r.choice([*w.files, *w.dirs[1:]])
    kind = r.choice(['rename', 'rename', 'reparent', 'both', 'new dirs', 'collide', 'untracked', 'direct', 'same'])
    old_name, old_parent = node.name, node.parent
    src = str(store.path(node))
    before = ledger(w)
    if src not in before or before[src][2] is None or before[src][2]['id'] != node.id:
        raise common.Skip()   # cannot happen: every step leaves remote and local in agreement
    others = [d for d in w.dirs if not below(d, node) and d is not node.parent]
    blocker = None
    fresh = []
    if kind == 'rename' or kind == 'direct':
        node.name = w.free_name(node.parent)
    elif kind == 'reparent' or kind == 'both':
        if not others:
            return
        node.parent = r.choice(others)
        used = {c.name for c in store.children(node.parent) if c is not node}
        if kind == 'both' or node.name in used:
            node.name = w.free_name(node.parent)
    elif kind == 'new dirs':
        p = r.choice([d for d in w.dirs if not below(d, node)])
        for _ in range(r.randint(1, 3)):
            p = store.add(p, w.free_name(p), True)
            fresh.append(p)
        w.dirs.extend(fresh)
        node.parent = p
    elif kind == 'collide':
        sibs = [c for c in store.nodes.values() if c.parent is not None and not below(c, node)
                and not below(node, c) and c is not node]
        if not sibs:
            return
        blocker = r.choice(sibs)
        node.parent, node.name = blocker.parent, blocker.name
    elif kind == 'untracked':
        node.name = w.free_name(node.parent)
        t = w.where(node)
        if os.path.lexists(t):
            node.name = old_name
            return
        bk = r.choice(['file', 'dir', 'full dir'])
        if bk == 'file':
            t.write_bytes(b'precious untracked bytes')
        else:
            t.mkdir()
            if bk == 'full dir':
                (t / 'inner').write_bytes(b'precious inner bytes')
        blocker = bk
        before = ledger(w)
    inside = False
    if node.is_dir and kind == 'rename' and r.random() < .3:
        # remotely another directory took over the name and this one was put into it, so the
        # place it has to go to is locally still inside of itself
        ys = [d for d in w.dirs[1:] if not below(d, node) and not below(node, d)]
        if ys:
            y = r.choice(ys)
            undo = (y, y.name, y.parent)
            y.name, y.parent = old_name, old_parent
            node.parent = y
            inside = True
    dst = str(store.path(node)) if not inside else None
    step = dict(kind=kind, id=node.id, dir=node.is_dir, src=src, dst=dst, blocker=getattr(blocker, 'id', blocker))
    hist.append(step)
    err = None
    try:
        c = w.L(w.root / src).cache
        if kind == 'direct':
            kw = dict(before[src][2])
            meta = c.meta
            c.move(target=w.L(w.root / dst), meta=meta)
            ctx.count('direct')
        elif r.random() < .5:
            c.refresh()
        else:
            c.remote.update_cache()
    except (exc.PathExistsError, exc.WhyDidntThisGetMovedBeforeError, OSError) as e:
        err = e
    step['outcome'] = repr(err)[:100]
    after = ledger(w)
    ids = lambda led: {v[2]['id']: k for k, v in led.items() if v[2] is not None}
    count = {}
    for v in after.values():
        if v[2] is not None:
            count[v[2]['id']] = count.get(v[2]['id'], 0) + 1
    dup = {k for k, v in count.items() if v > 1}
    ctx.seen((kind, src, dst, node.is_dir, before[src][0], repr(err)[:20]), src != dst)
    if inside:
        step['inside'] = True
        ctx.expect(err is not None, 'inside:silent', 'a directory was moved below itself without an error', wit)
        ctx.expect({k: v[:2] for k, v in after.items()} == {k: v[:2] for k, v in before.items()}, 'inside:changed',
                   lambda: f'{gen.differ(before, after)}', wit)
        ctx.expect(not dup, 'inside:duplicate', lambda: f'duplicates {dup}', wit)
        ctx.count('into_itself')
        undo[0].name, undo[0].parent = undo[1:]
        node.name, node.parent = old_name, old_parent
        w.L(w.root / src).cache.remote.update_cache()
        return
    if blocker is not None:
        ctx.expect(err is not None, 'collision:silent',
                   f'{before[src][0]} moved onto an occupied name without an error', wit)
        lost = {k: (v, after.get(k)) for k, v in before.items()
                if k != src and after.get(k) != v}
        ctx.expect(not lost, 'collision:clobbered', lambda: f'a path was changed by a move onto it: {lost}', wit)
        ctx.expect(src in after and after[src][:2] == before[src][:2] and after[src][2]['id'] == node.id,
                   'collision:source', lambda: f'the path that could not be moved is damaged {after.get(src)}', wit)
        ctx.expect(set(after) == set(before), 'collision:debris', lambda: f'{set(after) ^ set(before)}', wit)
        ctx.count('collision_tracked' if not isinstance(blocker, str) else 'collision_untracked')
        # undo on the remote so that the histories continue in agreement
        node.name, node.parent = old_name, old_parent
        if isinstance(blocker, str):
            t = w.root / dst
            if t.is_dir():
                for x in t.iterdir():
                    x.unlink()
                t.rmdir()
            else:
                t.unlink()
        w.L(w.root / src).cache.remote.update_cache()
        return
    ctx.expect(err is None, f'failed:{type(err).__name__}', lambda: f'a move to a free place failed {err!r}', wit)
    if err is not None:
        raise common.Skip()
    if src == dst:
        ctx.expect({k: v[:2] for k, v in after.items()} == {k: v[:2] for k, v in before.items()},
                   'onto itself', lambda: f'{gen.differ(before, after)}', wit)
        ctx.count('onto_self')
        return
    want = {}
    for k, v in before.items():
        if k == src or k.startswith(src + '/'):
            k = dst + k[len(src):]
        want[k] = v
    for f in fresh:
        want[str(store.path(f))] = ('dir', None, None)
    ctx.expect(set(after) == set(want), 'moved:paths',
               lambda: f'paths after the move: missing {set(want) - set(after)} extra {set(after) - set(want)}', wit)
    for k in want:
        if k not in after:
            continue
        a, b = after[k], want[k]
        ctx.expect(a[:2] == b[:2], 'moved:content', lambda: f'{k} was {b[:2]} is {a[:2]}', wit)
        if k == dst:
            same = {f for f in gen.FIELDS if f not in ('name', 'parent_id', 'created', 'updated')}
            m = a[2]
            ctx.expect(m is not None and all(m[f] == b[2][f] for f in same), 'moved:metadata',
                       lambda: f'metadata changed by the move {gen.differ(b[2], m) if m else None}', wit)
            if kind != 'direct' and m is not None:
                ctx.expect(m['name'] == node.name and m['parent_id'] == node.parent.id, 'moved:name',
                           lambda: f'cached name {m["name"]} parent {m["parent_id"]} should be {node.name} {node.parent.id}', wit)
        elif any(k == str(store.path(f)) for f in fresh):
            f = [f for f in fresh if k == str(store.path(f))][0]
            ctx.expect(a[2] is not None and a[2]['id'] == f.id, 'moved:new parent',
                       lambda: f'directory {k} made for the move has no identity {a[2]}', wit)
            ctx.count('new_parents')
        else:
            ctx.expect(a[2] == b[2], 'moved:other metadata', lambda: f'{k} {gen.differ(b[2] or {}, a[2] or {})}', wit)
    c = w.local(node).cache
    ctx.expect(c is not None and c.id == node.id, 'moved:reachable', 'the moved path has no cache any more', wit)
    ctx.count('renamed', node.parent is old_parent)
    ctx.count('reparented', node.parent is not old_parent)
    ctx.count(before[src][0] + '_moved')
    if kind == 'direct':
        c.remote.update_cache()
