""" bootstrapping a project from its remote """
import os

from .. import common, gen, model
from .c08 import below, ledger

RULE = ('random remote trees bootstrapped from nothing, again from a new process, after remote additions, directory '
        'renames, moves and deletions, with fetched, edited and untracked local content in the way, with restrictions '
        '(subtree, only, skip, sparse) and interrupted by remote failures; the whole project is compared with the remote '
        'each time; non-trivial when the remote has at least one file below a directory')


def ids(led):
    out = {}
    for k, v in led.items():
        if v[2] is not None:
            out.setdefault(v[2]['id'], []).append(k)
    return out


def snapshot(w):
    """ ledger including everything the workload calls untracked """
    return ledger(w)


def remote_view(w, node):
    return gen.view(w.R(node.id).meta)


def mirror(ctx, w, led, nodes, wit, tag, fetched=(), loose=(), was={}):
    """ the local project has exactly the remote's nodes """
    for n in nodes:
        rel = str(w.store.path(n))
        got = led.get(rel)
        if not ctx.expect(got is not None, f'{tag}:missing', lambda: f'{rel} {n.id} is not there', wit):
            continue
        kind = 'dir' if n.is_dir else ('file' if n.id in fetched else 'placeholder')
        ctx.expect(got[0] == kind, f'{tag}:kind', lambda: f'{rel} is a {got[0]} instead of a {kind}', wit)
        if ctx.expect(got[2] is not None and got[2]['id'] == n.id, f'{tag}:id',
                      lambda: f'{rel} should have id {n.id} has {got[2] and got[2]["id"]}', wit):
            if n.id not in loose:
                want = remote_view(w, n)
                if got[2]['old_id'] in was.get(n.id, ()):
                    want['old_id'] = got[2]['old_id']   # that it took the place of another one may be noted
                ctx.expect(got[2] == want, f'{tag}:metadata', lambda: f'{rel} {gen.differ(want, got[2])}', wit)
    dup = {k: v for k, v in ids(led).items() if len(v) > 1}
    ctx.expect(not dup, f'{tag}:duplicate', lambda: f'ids at more than one place {dup}', wit)


def described(ctx, w, dirs, wit, tag):
    """ the metadata of folders, the root among them, is that of the remote """
    for d in dirs:
        m = w.meta_at(w.where(d) if d.parent else w.root)
        want = remote_view(w, d)
        got = m and gen.view(m)
        ctx.expect(got == want, f'{tag}:folder metadata', lambda: f'{w.store.path(d)} {got and gen.differ(want, got)}', wit)


def main(ctx):
    aug = common.load_library()
    exc = aug.exceptions
    ctx.require('fresh', 'again', 'new_process', 'added', 'dir_renamed', 'dir_reparented', 'dir_deleted', 'untracked',
                'edited', 'subtree', 'skipped_id', 'only', 'sparse', 'interrupted', 'refused', 'lost_placeholder',
                'content_changed', 'taken_over', 'quiet_change', 'dir_touched', 'file_moved', 'file_moved_and_changed', 'vacated', 'swapped', 'replaced')
    n = ctx.size(230, 6000)
    for i in range(n):
        if ctx.time_up():
            break
        r = ctx.rng(i)
        w = None
        plan = dict(i=i)
        wit = lambda: plan
        with ctx.case('bootstrap', wit):
            try:
                w = model.World(ctx, aug, r, ndirs=r.randint(0, 6), nfiles=r.randint(0, 8), max_size=600)
                if r.random() < .5:
                    w.store.order = r
                plan['remote'] = sorted(str(w.store.path(x)) for x in w.store.nodes.values())
                deep = any(f.parent is not w.store.root for f in w.files)
                ctx.seen((plan['remote'], i), deep)
                kind = r.choice(['whole', 'whole', 'whole', 'parts', 'parts', 'interrupted'])
                plan['kind'] = kind
                if kind == 'parts':
                    parts(ctx, aug, exc, w, r, plan, wit)
                else:
                    if kind == 'interrupted':
                        w.store.meta_fault = r.randrange(0, 2 + len(w.store.nodes))
                        try:
                            w.bootstrap()
                        except model.FetchFault:
                            ctx.count('interrupted')
                        w.store.meta_fault = None
                        if r.random() < .5:
                            w.reopen()
                    whole(ctx, aug, exc, w, r, plan, wit)
            finally:
                if w is not None:
                    w.close()
        ctx.sample(plan, 3)


def whole(ctx, aug, exc, w, r, plan, wit):
    store = w.store
    everything = lambda: list(store.rchildren(store.root))
    del store.log[:]
    out = w.bootstrap()
    ctx.expect(not [x for x in store.log if x[0] == 'data'], 'fresh:downloads', 'bootstrap downloaded file contents', wit)
    led = ledger(w)
    mirror(ctx, w, led, everything(), wit, 'fresh')
    extra = set(led) - {str(store.path(n)) for n in everything()}
    ctx.expect(not extra, 'fresh:extra', lambda: f'paths that are not on the remote {extra}', wit)
    got = sorted(c.id for c in out)
    ctx.expect(got == sorted(store.nodes), 'fresh:returned', lambda: f'returned {got} not {sorted(store.nodes)}', wit)
    ra = w.meta_at(w.root)
    ctx.expect(ra is not None and ra.id == store.root_id, 'fresh:root', f'root has {ra!r}', wit)
    described(ctx, w, [store.root, *w.dirs], wit, 'fresh')
    ctx.count('fresh')

    was = {}
    strays = set()   # removed files, nothing looks for those
    for rnd in range(r.randint(1, 3)):
        if r.random() < .5:
            w.reopen()
            ctx.count('new_process')
        before = ledger(w)
        w.bootstrap()
        after = ledger(w)
        ctx.expect(after == before, 'again:changed', lambda: f'{gen.differ(before, after)}', wit)
        ctx.count('again')
        fetched = {w.meta_at(w.root / k).id for k, v in after.items() if v[0] == 'file' and v[2] is not None}
        steps = plan.setdefault('steps', [])
        # ---------------------------------------------------------- local side
        keep = {}      # id of containing directory, name -> bytes of untracked content
        for f in list(w.files):
            p = w.where(f)
            x = r.random()
            if x < .25 and f.id not in fetched:
                w.local(f).cache.fetch()
                fetched.add(f.id)
            elif x < .35 and f.id not in fetched:
                os.unlink(p)
                steps.append(('lost', f.id))
                ctx.count('lost_placeholder')
            if f.id in fetched and r.random() < .3:
                with open(p, 'ab') as fh:
                    fh.write(b'local edit %d' % r.randrange(10**9))
                ctx.count('edited')
        untracked = []   # (node of directory, name, content or None for a directory)
        for d in w.dirs:
            if r.random() < .25:
                nm = 'untracked %d' % len(untracked)
                if r.random() < .3:
                    (w.where(d) / nm).mkdir()
                    (w.where(d) / nm / 'inner').write_bytes(b'inner bytes')
                    untracked.append((d, nm, None))
                    untracked.append((d, nm + '/inner', b'inner bytes'))
                else:
                    c = b'untracked bytes %d' % r.randrange(10**9)
                    (w.where(d) / nm).write_bytes(c)
                    untracked.append((d, nm, c))
                ctx.count('untracked')
        bytes_before = {f.id: w.where(f).read_bytes() for f in w.files if f.id in fetched}
        held = ledger(w)
        # --------------------------------------------------------- remote side
        moved = gone = False
        changed = set()
        victims = []
        dirsteps, entangled, vacated = 0, False, False
        swapped, replaced, touched = set(), set(), []
        wandered = {}    # files that moved by themselves, these may stay behind until they are refreshed
        for _ in range(r.randint(0, 3)):
            x = r.choice(['add file', 'add dir', 'rename', 'rename', 'reparent', 'delete', 'content', 'take over',
                          'move file', 'vacate', 'swap', 'replace', 'touch dir'])
            if x == 'add file':
                nf = w.add_file()
                steps.append(('add', str(store.path(nf))))
                ctx.count('added')
            elif x == 'add dir':
                nd = w.add_dir()
                w.add_file(parent=nd)
                steps.append(('add', str(store.path(nd))))
                ctx.count('added')
            elif x == 'touch dir':
                d = r.choice([store.root, *w.dirs])
                d.updated = store.tick()
                touched.append(d)
                steps.append((x, str(store.path(d))))
                ctx.count('dir_touched')
            elif x == 'content':
                fs = [f for f in w.files if f.id not in fetched]
                if fs:
                    f = r.choice(fs)
                    if r.random() < .4 and f.data:
                        # within the resolution of the timestamps of the remote
                        times = f.created, f.updated
                        store.write(f, r.randbytes(len(f.data)) if len(f.data) > 8 else bytes(b ^ 1 for b in f.data))
                        f.created, f.updated = times
                        ctx.count('quiet_change')
                    else:
                        store.write(f, w.blob())
                    changed.add(f.id)
                    ctx.count('content_changed')
            elif x == 'move file':
                fs = [f for f in w.files if f.id not in wandered]
                if fs:
                    f = r.choice(fs)
                    wandered[f.id] = str(store.path(f))
                    if r.random() < .6:
                        f.parent = r.choice(w.dirs)
                    f.name = 'wandered %d.txt' % r.randrange(10**6)
                    if r.random() < .5 and f.id not in fetched:
                        store.write(f, w.blob())
                        changed.add(f.id)
                        ctx.count('file_moved_and_changed')
                    elif r.random() < .5 and f.id not in fetched:
                        f.updated = store.tick()
                    ctx.count('file_moved')
                    steps.append((x, wandered[f.id], str(store.path(f))))
            elif x == 'vacate':
                # something new in the place that a file had until now
                fs = [f for f in w.files if f.id not in wandered]
                if fs:
                    f = r.choice(fs)
                    p, nm = f.parent, f.name
                    wandered[f.id] = str(store.path(f))
                    f.parent = r.choice(w.dirs)
                    f.name = w.free_name(f.parent) if f.parent is not p else 'wandered %d.txt' % r.randrange(10**6)
                    if r.random() < .3:
                        nd = w.add_dir(parent=p, name=nm)
                        w.add_file(parent=nd)
                    else:
                        nf = w.add_file(parent=p, name=nm)
                        was[nf.id] = (f.id, *was.get(f.id, ()))
                        if f.id in replaced:
                            replaced.add(nf.id)
                    steps.append((x, wandered[f.id], str(store.path(f))))
                    vacated = True
                    ctx.count('vacated')
            elif x == 'swap':
                # a newer file in a place wins over an older one even if it is not on the remote any more
                fs = [f for f in w.files if f.id not in wandered and f.id not in was]
                k = r.choice([2, 2, 3])
                if len(fs) >= k:
                    fs = r.sample(fs, k)
                    for f in fs:
                        wandered[f.id] = str(store.path(f))
                        swapped.add(f.id)
                    places = [(f.parent, f.name) for f in fs]
                    for f, (f.parent, f.name) in zip(fs, places[1:] + places[:1]):
                        if f.id not in fetched and r.random() < .6:
                            store.write(f, w.blob())
                            changed.add(f.id)
                    steps.append((x, *[(wandered[f.id], str(store.path(f)), f.id in changed) for f in fs]))
                    ctx.count('swapped')
            elif x == 'replace':
                fs = [f for f in w.files if f.id not in wandered and (f.id not in fetched or bytes_before[f.id] == f.data)]
                if fs:
                    f = r.choice(fs)
                    store.remove(f)
                    w.files.remove(f)
                    victims.append(f)
                    nf = w.add_file(parent=f.parent, name=f.name)
                    changed.add(nf.id)
                    strays.add(f.id)
                    was[nf.id] = (f.id, *was.get(f.id, ()))
                    if f.id in fetched or f.id in replaced:
                        replaced.add(nf.id)
                    steps.append((x, str(store.path(nf)), f.id, nf.id))
                    ctx.count('replaced')
            elif len(w.dirs) > 1 and not (moved and gone):
                d = r.choice(w.dirs[1:])
                keeps = lambda e: any(q.id in swapped or q.id in wandered and q.id in fetched for q in store.rchildren(e))
                old = str(store.path(d))
                dirsteps += 1
                if x == 'rename':
                    # never onto a name that anything had before, that is a collision
                    # names that begin with the name of a sibling are of interest
                    pre = r.choice(['', '', 'a', 'sub-01', 'n.0', d.name])
                    d.name = (pre + 'fresh %d' % r.randrange(10**6))
                    ctx.count('dir_renamed')
                    steps.append((x, old, str(store.path(d))))
                elif x == 'take over':
                    # another directory had this name before
                    es = [e for e in w.dirs[1:] if e is not d and not below(e, d) and not below(d, e)
                          and not below(d.parent, e)]
                    if es:
                        e = r.choice(es)
                        pe, ne = e.parent, e.name
                        if r.random() < .5 or keeps(e):
                            e.name = 'away %d' % r.randrange(10**6)
                        else:
                            sub = [e, *store.rchildren(e)]
                            store.remove(e)
                            victims.extend(sub)
                            w.dirs = [q for q in w.dirs if q not in sub]
                            w.files = [q for q in w.files if q not in sub]
                        d.parent, d.name = pe, ne
                        steps.append((x, old, str(store.path(d))))
                        ctx.count('taken_over')
                        entangled = True
                elif x == 'reparent':
                    cs = [e for e in w.dirs if not below(e, d) and e is not d.parent]
                    if cs:
                        d.parent = r.choice(cs)
                        d.name = 'moved %d' % r.randrange(10**6)
                        ctx.count('dir_reparented')
                        steps.append((x, old, str(store.path(d))))
                elif not keeps(d):
                    sub = [e for e in [d, *store.rchildren(d)]]
                    store.remove(d)
                    victims.extend(sub)
                    w.dirs = [e for e in w.dirs if e not in sub]
                    w.files = [e for e in w.files if e not in sub]
                    ctx.count('dir_deleted')
                    steps.append((x, old))
        if r.random() < .3:
            w.reopen()
        # ------------------------------------------------------------- observe
        # names that pass around in circles cannot always be resolved in place, nothing may be lost then
        entangled = entangled and dirsteps > 1 or vacated and dirsteps > 0
        fault = r.random() < .15
        if fault:
            store.meta_fault = r.randrange(0, 3 + len(store.nodes))
            try:
                w.bootstrap()
            except model.FetchFault:
                ctx.count('interrupted')
                steps.append('interrupted')
            except (exc.PathExistsError, exc.WhyDidntThisGetMovedBeforeError, OSError):
                if not entangled:
                    raise
            store.meta_fault = None
            if r.random() < .5:
                w.reopen()
        try:
            w.bootstrap()
        except (exc.PathExistsError, exc.WhyDidntThisGetMovedBeforeError, OSError):
            if not entangled:
                raise
        led = ledger(w)
        if entangled:
            have = w.all_bytes()
            for k, b in bytes_before.items():
                ctx.expect(b in have, 'entangled:bytes', f'bytes of {k} are gone', wit)
            for _, nm, c in untracked:
                ctx.expect(c is None or c in have, 'entangled:untracked', f'bytes of {nm} are gone', wit)
            dup = {k: v for k, v in ids(led).items() if len(v) > 1}
            ctx.expect(not dup, 'entangled:duplicate', lambda: f'ids at more than one place {dup}', wit)
            ctx.count('entangled')
            return
        described(ctx, w, [store.root, *(d for d in touched if d in w.dirs)], wit, 'update')
        settled = [x for x in everything() if x.id not in wandered]
        mirror(ctx, w, led, settled, wit, 'update', fetched | replaced, loose={n.id for n in store.nodes.values()} - changed, was=was)
        have = w.all_bytes()
        for f in w.files:
            if f.id in wandered:
                at = ids(led).get(f.id, [])
                ctx.expect(len(at) == 1, 'moved file:once', lambda: f'{f.id} from {wandered[f.id]} to {store.path(f)} '
                           f'is at {at}', wit)
                if f.id in changed and not fault:   # metadata is updated before the move
                    ctx.expect(at == [str(store.path(f))], 'moved file:place', lambda: f'{f.id} is at {at}', wit)
                if f.id in fetched:
                    ctx.expect(bytes_before[f.id] in have, 'moved file:bytes', f'bytes of {f.id} are gone', wit)
                continue
            if f.id in fetched:
                rel = str(store.path(f))
                ctx.expect(led.get(rel, (0, 0))[1] == bytes_before[f.id], 'update:file content',
                           lambda: f'{rel} changed from {bytes_before[f.id]!r:.80} to {led.get(rel)!r:.80}', wit)
        for v in victims:
            if v.id in fetched:
                ctx.expect(bytes_before[v.id] in have, 'delete:bytes', f'bytes of {v.id} are gone', wit)
            if v.is_dir:
                ctx.expect(v.id not in ids(led), 'delete:dir', lambda: f'{v.id} still at {ids(led)[v.id]}', wit)
        strays |= {v.id for v in victims if v.id in wandered}
        known = {str(store.path(n)) for n in everything()}
        for d, nm, c in untracked:
            if d in victims:
                if c is not None:
                    ctx.expect(c in have, 'delete:untracked', f'untracked bytes {c} are gone', wit)
                continue
            rel = os.path.normpath(str(store.path(d) / nm))
            known.add(rel)
            ctx.expect(rel in led and led[rel][1] == c, 'update:untracked',
                       lambda: f'untracked {rel} is {led.get(rel)} instead of {c}', wit)
        known |= {k for k, v in led.items() if 'untracked ' in k or v[2] is not None and v[2]['id'] in {*wandered, *strays}}
        extra = set(led) - known
        ctx.expect(not extra, 'update:extra', lambda: f'paths that are not on the remote {extra}', wit)
        # clean slate: put the remote's content in step so that the next round starts in agreement
        if swapped:
            return   # those that were left where they were can not go there one by one
        for f in w.files:
            if f.id in wandered:
                at = ids(led).get(f.id, [])
                if len(at) == 1 and at[0] != str(store.path(f)):
                    w.L(w.root / at[0]).cache.refresh()
                    ctx.expect(w.meta_at(w.where(f)) is not None, 'moved file:refresh',
                               lambda: f'{f.id} did not move from {at[0]} to {store.path(f)} when refreshed', wit)
        for d, nm, c in sorted(untracked, key=lambda t: -len(t[1])):
            if d not in victims:
                p = w.where(d) / nm
                if p.is_dir():
                    p.rmdir()
                elif p.exists():
                    p.unlink()


def parts(ctx, aug, exc, w, r, plan, wit):
    store = w.store
    top = [n for n in store.children(store.root) if n.is_dir]
    if not top:
        d = w.add_dir(parent=store.root)
        w.add_file(parent=d)
        top = [d]
    how = r.choice(['subtree', 'skip', 'only', 'only other', 'sparse', 'sparse', 'refused'])
    plan['how'] = how
    d = r.choice(top)
    other = w.add_dir(parent=store.root, name='other')
    w.add_file(parent=other)
    w.add_file(parent=d)
    w.add_file(parent=d)
    rem = w.R(d.id)
    rem.cache_init()
    sub = list(store.rchildren(d))
    led0 = ledger(w)
    ctx.expect(set(led0) == {str(store.path(d))}, 'parts:cache_init', lambda: f'{set(led0)}', wit)
    c = w.local(d).cache
    meta = w.R(d.id).meta
    if how == 'refused':
        bad = r.choice(['again', 'no id', 'none'])
        m = dict(again=meta, none=None)[bad] if bad != 'no id' else aug.PathMeta(name=d.name, size=3)
        try:
            c.bootstrap(m, recursive=(bad != 'again'))
            ok = False
        except exc.BootstrappingError:
            ok = True
        ctx.expect(ok, f'refused:{bad}', f'bootstrap from {bad} metadata was not refused', wit)
        ctx.expect(ledger(w) == led0, 'refused:changed', 'a refused bootstrap changed something', wit)
        ctx.count('refused')
        # and the refusal leaves the path usable
        c = w.local(d).cache
        c.bootstrap(meta, recursive=True)
        mirror(ctx, w, ledger(w), [d, *sub], wit, 'after refused')
        return
    kw = {}
    want = [d, *sub]
    if how == 'skip':
        kw['skip'] = (d.id, 'N:nothing:0')
        want = [d]
        ctx.count('skipped_id')
    elif how == 'only':
        kw['only'] = (d.id,)
        ctx.count('only')
    elif how == 'only other':
        kw['only'] = (other.id,)
        want = [d]
        ctx.count('only')
    elif how == 'sparse':
        kw['sparse'] = (d.id,)
        for f in sub:
            if not f.is_dir:
                f.sparse = r.random() < .5
        want = [d, *[x for x in sub if x.is_dir or x.sparse]]
        ctx.count('sparse')
    else:
        ctx.count('subtree')
    through = r.random() < .5
    out = c.remote.bootstrap(recursive=True, **kw) if through else c.bootstrap(meta, recursive=True, **kw)
    ctx.count('through remote', through)
    led = ledger(w)
    mirror(ctx, w, led, want, wit, how)
    extra = set(led) - {str(store.path(x)) for x in want}
    ctx.expect(not extra, f'{how}:extra', lambda: f'also there: {extra}', wit)
    rid = sorted(x.id for x in out)
    wid = sorted(x.id for x in want) if not (how == 'skip' or how == 'only other') else []
    ctx.expect(rid == wid, f'{how}:returned', lambda: f'returned {rid} wanted {wid}', wit)
    if r.random() < .5:
        w.reopen()
    for x in want:
        if x.is_dir:
            s = w.local(x).cache.is_sparse()
            ctx.expect(bool(s) == (how == 'sparse'), f'{how}:mark', lambda: f'{store.path(x)} is_sparse() {s}', wit)
    ctx.expect(not w.local(store.root).cache.is_sparse(), f'{how}:root mark', 'the root was marked as sparse', wit)
    # completing it afterwards gives the whole project
    if how != 'sparse':
        w.bootstrap()
        mirror(ctx, w, ledger(w), list(store.rchildren(store.root)), wit, f'{how}:completed')
