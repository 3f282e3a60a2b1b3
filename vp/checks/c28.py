""" what a user adds to a project by hand """
import os
import shutil
import stat

from .. import common, gen, model
from .c26 import snapshot, restore, state

RULE = ('the same history of the remote and the same operations on two copies of a project, one of which has untracked files, folders and links; '
        'the tracked part must end the same and what was added must still be there; non-trivial when links to tracked or outside things are there')
OPS = ['bootstrap', 'bootstrap', 'bootstrap', 'fetch', 'refresh', 'update', 'crumple', 'move', 'bootstrap twice']


def lay(r, w, outside, conflict):
    """ choose untracked things: (name, folder id, kind, what) """
    out = []
    dirs = [w.store.root, *w.dirs[1:]]
    tracked = [str(w.where(f)) for f in w.files] or [str(w.root)]
    for k in range(r.randint(1, 6)):
        d = r.choice(dirs)
        f = r.choice(w.files)
        name = r.choice(['n%d', '.#n%d', 'n%d~', '.n%d.swp', 'n %d.txt', f.name + ' n%d', f.parent.name + 'n%d', 'n%d' + f.name, '.git n%d', 'é n%d']) % k
        if conflict and k == 0:
            d, name = conflict[0], conflict[1]
        kind = r.choice(['file', 'file', 'empty', 'dir', 'fifo', 'dangling', 'emacs', 'loop', 'to tracked', 'to tracked', 'to dir', 'to dir', 'to root',
                         'to outside file', 'to outside dir', 'to outside dir', 'to untracked', 'absolute dangling', 'like id'])
        what = dict(file=b'untracked %d' % r.randrange(10**12), empty=b'', dir=b'inner %d' % r.randrange(10**12), fifo=None, dangling='nowhere/at all.txt',
                    emacs='user@host.1234:1700000000', loop=name).get(kind, '')
        if kind in ('to tracked', 'to dir', 'to root', 'to outside file', 'to outside dir', 'to untracked'):
            t = {'to tracked': r.choice(tracked), 'to dir': str(w.where(r.choice(w.dirs))) if w.dirs[1:] else str(w.root), 'to root': str(w.root),
                 'to outside file': str(outside / 'file'), 'to outside dir': str(outside / r.choice(['plain', 'other', *os.listdir(outside / 'other')] )),
                 'to untracked': str(w.root / 'n0')}[kind]
            if kind == 'to outside dir' and not os.path.isdir(t):
                t = str(outside / 'other' / os.path.basename(t))
            what = r.choice([t, os.path.relpath(t, w.where(d) if d.parent else w.root)])
        elif kind == 'absolute dangling':
            what = '/nowhere/.meta'
        elif kind == 'like id':
            what = f'{name}/{f.id}'
        out.append((name, d.id, kind, what))
    return out


def as_is(p, kind, what):
    """ still what it was """
    try:
        m = os.lstat(p).st_mode
        if any(k.startswith('user.vf.') for k in os.listxattr(p, follow_symlinks=False)):
            return False
        if kind in ('file', 'empty'):
            return stat.S_ISREG(m) and p.read_bytes() == what
        if kind == 'dir':
            return stat.S_ISDIR(m) and os.listdir(p) == ['inner'] and (p / 'inner').read_bytes() == what
        if kind == 'fifo':
            return stat.S_ISFIFO(m)
        return stat.S_ISLNK(m) and os.readlink(p) == what
    except OSError:
        return False


def outer(d):
    """ everything about things outside of the project """
    out = {}
    for x, ds, fs in os.walk(d):
        for n in (*ds, *fs, '.'):
            p = os.path.join(x, n)
            st = os.lstat(p)
            out[p] = (st.st_mode, st.st_mtime_ns, {k: os.getxattr(p, k, follow_symlinks=False) for k in os.listxattr(p, follow_symlinks=False)},
                      os.readlink(p) if os.path.islink(p) else open(p, 'rb').read() if os.path.isfile(p) else None)
    return out


def main(ctx):
    aug = common.load_library()
    for i in range(ctx.size(110, 2500)):
        if ctx.time_up():
            break
        r = ctx.rng(i)
        plan = dict(i=i)
        with ctx.case('history', lambda: dict(plan)):
            one(ctx, aug, r, plan)
    ctx.require('compared', 'links', 'kind:to tracked', 'kind:to dir', 'kind:to outside dir', 'kind:dangling', 'kind:loop', 'kind:dir', 'kind:fifo',
                'op:bootstrap', 'op:refresh', 'op:crumple', 'op:move', 'op:update', 'op:fetch', 'remote', 'conflict', 'kept')
    ctx.assumptions = ['untracked things do not have the identity of something tracked (copies with attributes, hard links)',
                       'what is compared are projects whose untracked names are not wanted by the remote, unless it says conflict']


def one(ctx, aug, r, plan):
    wit = lambda: dict(plan)
    w = model.World(ctx, aug, r, ndirs=r.randint(1, 4), nfiles=r.randint(2, 5))
    store = w.store
    w.bootstrap()
    edits = {}
    for f in w.files:
        if r.random() < .5:
            w.local(f).cache.fetch()
            if r.random() < .2:
                edits[f.id] = b'local edit ' + r.randbytes(20)
                w.where(f).write_bytes(edits[f.id])
    fetched = {f.id for f in w.files if not os.path.islink(w.where(f))}
    outside = ctx.newdir()
    (outside / 'file').write_bytes(b'outside')
    (outside / 'plain').mkdir()
    (outside / 'plain/x').write_bytes(b'outside too')
    snapshot(w.root, outside / 'other')   # somebody else has the same project
    op = r.choice(OPS)
    target = r.choice(w.files)
    folder = r.choice(w.dirs[1:]) if w.dirs[1:] else None
    snap = ctx.newdir() / 'snap'
    snapshot(w.base, snap)
    dirs_before = list(w.dirs)
    # where everybody puts something now
    conflict = None
    if r.random() < .2:
        d = r.choice(w.dirs)
        conflict = (d, 'wanted %d' % r.randrange(100))
        op = r.choice(['bootstrap', 'bootstrap twice'])
    things = lay(r, w, outside, conflict)
    seen = set()
    things = [t for t in things if not (t[:2] in seen or seen.add(t[:2]))]
    for _ in range(r.randint(0, 3)) if op not in ('crumple', 'move', 'fetch') else ():
        k = r.choice(['write', 'rename', 'move', 'add', 'adddir', 'movedir', 'delete', 'deletedir'])
        f = r.choice(w.files)
        plan.setdefault('remote', []).append(k)
        if k == 'write' and f.id not in edits:
            store.write(f, w.blob())
        elif k in ('rename', 'move'):
            f.name = 'renamed %d' % r.randrange(10**6)
            if k == 'move':
                f.parent = r.choice(w.dirs)
            if f.id not in fetched and r.random() < .6:
                f.updated = store.tick()
        elif k == 'add':
            w.add_file()
        elif k == 'adddir':
            w.add_file(parent=w.add_dir())
        elif k == 'movedir' and len(w.dirs) > 1:
            d = r.choice(w.dirs[1:])
            d.name = 'moved %d' % r.randrange(10**6)
            ps = [e for e in w.dirs if e is not d and d not in store.parents(e)]
            if r.random() < .5:
                d.parent = r.choice(ps)
        elif k == 'delete' and len(w.files) > 1 and f is not target:
            store.remove(f)
            w.files.remove(f)
        elif k == 'deletedir' and len(w.dirs) > 1:
            d = r.choice(w.dirs[1:])
            sub = [d, *store.rchildren(d)]
            if target in sub:
                continue
            store.remove(d)
            w.dirs = [x for x in w.dirs if x not in sub]
            w.files = [x for x in w.files if x not in sub]
        ctx.count('remote')
    if conflict:
        if conflict[0] not in w.dirs:
            return
        w.add_file(parent=conflict[0], name=conflict[1]) if r.random() < .5 else w.add_file(parent=w.add_dir(parent=conflict[0], name=conflict[1]))
        ctx.count('conflict')
    plan.update(op=op, target=target.id, things=[(n, d, k, str(x)) for n, d, k, x in things], conflict=bool(conflict), edits=sorted(edits))

    def run():
        w.reopen()
        p = None
        for rel in w.find_ids().get(target.id, []):
            p = w.L(w.root / rel)
        if op == 'bootstrap':
            w.bootstrap()
        elif op == 'bootstrap twice':
            w.bootstrap()
            w.reopen()
            w.bootstrap()
        elif op == 'fetch':
            p.cache.fetch()
        elif op == 'refresh':
            p.cache.refresh(update_data=True)
        elif op == 'update':
            p.cache.remote.update_cache()
        elif op == 'crumple':
            (w.local(folder) if folder is not None and len(plan['things']) % 2 else p).cache.crumple()
        elif op == 'move':
            q = w.local(folder) if folder is not None and len(plan['things']) % 2 else p
            q.cache.move(target=q.parent / 'moved here', meta=q.cache.meta)
        return {}

    code, out = common.fork_child(run)
    if code:
        ctx.count('refused')
        plan['refused'] = str(out)[-300:]
        return
    base = state(w)
    restore(snap, w.base)
    # the folders are still where they were
    where = {m: rel for m, rels in w.find_ids().items() for rel in rels}
    where[store.root_id] = '.'
    before = outer(outside)
    added = []
    for name, did, kind, what in things:
        p = w.root / where[did] / name
        if os.path.lexists(p):
            continue
        if kind in ('file', 'empty'):
            p.write_bytes(what)
        elif kind == 'dir':
            p.mkdir()
            (p / 'inner').write_bytes(what)
        elif kind == 'fifo':
            os.mkfifo(p)
        else:
            os.symlink(what, p)
        added.append((name, did, kind, what))
        ctx.count(f'kind:{kind}')
        ctx.count('links', os.path.islink(p))
    before = outer(outside)
    ctx.seen((plan['i'], op, [k for _, _, k, _ in added]), any(k.startswith('to ') for _, _, k, _ in added))
    ctx.sample(dict(op=op, remote=plan.get('remote'), added=[(n, k) for n, _, k, _ in added][:4]), 6)
    code, out = common.fork_child(run)
    ctx.expect(outer(outside) == before, f'{op}:outside',
               lambda: f'{[k for k in {*before, *outer(outside)} if before.get(k) != outer(outside).get(k)]}', wit)
    if conflict:
        # refused or not, nothing is lost
        for name, did, kind, what in added:
            here = [p for p in found(w.base) if as_is(p, kind, what)]
            data = kind in ('file', 'dir') and what in everything(w.base)
            ctx.expect(here or data or kind == 'empty', f'{op}:conflict:{kind}', lambda: f'{name!r} {kind} {what!r} is gone {code} {str(out)[-300:]}', wit)
        return
    ctx.expect(code == 0, f'{op}:fails', lambda: f'{out}', wit)
    places = w.find_ids()   # a file alone may get a new folder with the id of the one it left
    places[store.root_id] = ['.']
    for name, did, kind, what in added:
        all_ = found(w.base, name)
        good = [p for p in all_ if as_is(p, kind, what)]
        ctx.count('kept')
        ctx.expect(len(good) == 1 and len(all_) == 1, f'{op}:kept:{kind}', lambda: f'{name!r} {kind} {what!r}: {all_} {good}', wit)
        if good and did in places:
            ctx.expect(str(good[0].parent) in [str(w.root / x) for x in places[did]], f'{op}:place:{kind}', lambda: f'{good[0]} but the folder is {places[did]}', wit)
        for p in all_:
            shutil.rmtree(p) if p.is_dir() and not p.is_symlink() else os.unlink(p)
    got = state(w)
    diff = {k: (got.get(k), base.get(k)) for k in {*got, *base} if got.get(k) != base.get(k)}
    # a folder that was removed stays if something of the user is in it
    diff = {k: v for k, v in diff.items() if not (v[1] is None and v[0][0] == 'dir' and not os.listdir(w.root / k))}
    ctx.count('compared')
    ctx.count(f'op:{op.split()[0]}')
    ctx.expect(not diff, f'{op}:state', lambda: f'{diff}', wit)
    w.close()


def found(base, name=None):
    import pathlib
    out = []
    for d, ds, fs in os.walk(base):
        for x in (*ds, *fs):
            if name is None or x == name:
                out.append(pathlib.Path(d) / x)
    return out


def everything(base):
    out = set()
    for d, ds, fs in os.walk(base):
        for x in fs:
            p = os.path.join(d, x)
            if os.path.isfile(p) and not os.path.islink(p):
                out.add(open(p, 'rb').read())
    return out
