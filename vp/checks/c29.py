""" projects are set up over nothing else, found again and do not mix """
import errno
import os
import shutil

from .. import common, gen, model
from .c26 import state

RULE = ('every kind of thing in the place of a project x every way to set it up x every way to say where; two projects in one process against the '
        'same steps alone; distinct are combinations and histories')
KINDS = ['missing', 'empty', 'untracked', 'untracked dir', 'file', 'link to dir', 'dangling', 'loop', 'other empty', 'other full', 'own bare', 'own empty', 'own full']
OPS = ['dropAnchor', 'smartAnchor', 'anchorTo', 'create']
FORMS = ['absolute', 'str', 'relative', 'relative str', 'up', 'cwd']
FINE = object()


def outcome(aug, kind, op):
    """ what has to happen: FINE or the exceptions that refuse """
    exc = aug.exceptions
    none_here = kind not in ('other empty', 'other full', 'own bare', 'own empty', 'own full')
    if op == 'anchorTo' and none_here:
        return (ValueError, OSError)
    if kind in ('missing', 'empty'):
        return FINE
    if kind.startswith('untracked'):
        return exc.DirectoryNotEmptyError
    if kind == 'file':
        return (NotADirectoryError,)
    if kind in ('link to dir', 'dangling', 'loop'):
        return (TypeError, ValueError, OSError)
    if op == 'dropAnchor':
        return (exc.CacheExistsError, exc.DirectoryNotEmptyError)
    if kind.startswith('other'):
        return (ValueError,)
    return FINE


def everything(d):
    """ names, kinds, content and attributes of all below """
    out = {}
    for x, ds, fs in os.walk(d):
        for n in ('.', *ds, *fs):
            p = os.path.join(x, n)
            out[os.path.relpath(p, d)] = (os.lstat(p).st_mode, os.readlink(p) if os.path.islink(p) else None, model.raw_xattrs(p),
                                          open(p, 'rb').read() if os.path.isfile(p) and not os.path.islink(p) else None)
    return out


def place(r, base, form):
    """ (parent in that form, directory to be in) """
    if form == 'absolute':
        return lambda L: L(base), None
    if form == 'str':
        return lambda L: str(base), None
    if form == 'relative':
        return lambda L: L(base.name), base.parent
    if form == 'relative str':
        return lambda L: base.name, base.parent
    if form == 'up':
        (base.parent / 'beside').mkdir()
        return lambda L: L('..') / base.name, base.parent / 'beside'
    return lambda L: None, base


def main(ctx):
    aug = common.load_library()
    combos = [(k, o, f) for k in KINDS for o in OPS for f in FORMS]
    ctx.rng('order').shuffle(combos)
    rounds = ctx.size(1, 12)
    for n in range(rounds):
        for i, (kind, op, form) in enumerate(combos):
            if n and ctx.time_up():
                break
            r = ctx.rng('table', n, i)
            plan = dict(kind=kind, op=op, form=form)
            with ctx.case(f'{op}', lambda: dict(plan)):
                try:
                    table(ctx, aug, r, kind, op, form, plan)
                finally:
                    os.chdir(ctx.scratch)
    for i in range(ctx.size(40, 800)):
        if i and ctx.time_up():
            break
        r = ctx.rng('two', i)
        plan = dict(i=i)
        with ctx.case('two projects', lambda: dict(plan)):
            two(ctx, aug, i, r, plan)
    for i in range(ctx.size(60, 900)):
        if i and ctx.time_up():
            break
        r = ctx.rng('objects', i)
        plan = dict(i=i)
        with ctx.case('objects', lambda: dict(plan)):
            try:
                objects(ctx, aug, r, plan)
            finally:
                os.chdir(ctx.scratch)
    for i in range(ctx.size(40, 400)):
        if i and ctx.time_up():
            break
        r = ctx.rng('fails', i)
        plan = dict(i=i)
        with ctx.case('set up fails', lambda: dict(plan)):
            fails(ctx, aug, r, plan)
    ctx.require('set up', 'refused', 'used from elsewhere', 'again', 'interleaved', 'objects kept', 'objects linked', 'shared', 'faults', 'finished',
                *('kind:' + k for k in KINDS), *('op:' + k for k in OPS), *('form:' + k for k in FORMS))
    ctx.assumptions = ['attributes that are set on the parent of a project by somebody else do not matter',
                       'after smartAnchor in a new process the class is bound to the anchor by the caller, as World.reopen does']


def world(ctx, aug, r, base, root_id=None, name=None, **kw):
    w = model.World(ctx, aug, r, ndirs=r.randint(0, 3), nfiles=r.randint(1, 4), max_size=3000, anchor=False, base=base, **kw)
    if name is not None:
        w.store.root.name = name
    if root_id is not None:
        s = w.store
        s.nodes.pop(s.root_id)
        s.root.id = s.root_id = root_id
        s.nodes = {root_id: s.root, **s.nodes}
        w.open_session()
    return w


def table(ctx, aug, r, kind, op, form, plan):
    wit = lambda: dict(plan)
    exc = aug.exceptions
    top = ctx.newdir()
    base = top / r.choice(['base', 'b ase', 'é', '.b'])
    base.mkdir()
    name = r.choice(['proj', 'my project', '.proj', 'proj.git', 'é', 'p-1'])
    kw = dict(prefix=r.choice(['vf', 'other.p']))
    w = world(ctx, aug, r, base, name=name, root_id=r.choice([None, 'N:organization:12']), **kw)
    q = base / name
    plan.update(name=name, root=w.store.root_id)
    if kind == 'empty':
        q.mkdir()
    elif kind == 'untracked':
        q.mkdir()
        (q / r.choice(['x', '.x', '.git', '.operation', '.operations x'])).write_bytes(b'mine')
    elif kind == 'untracked dir':
        (q / r.choice(['x', '.x', '.git', 'operations'])).mkdir(parents=True)
    elif kind == 'file':
        q.write_bytes(r.choice([b'', b'mine']))
    elif kind == 'link to dir':
        (top / 'e').mkdir()
        q.symlink_to(r.choice(['../e', top / 'e']))
    elif kind == 'dangling':
        q.symlink_to(r.choice(['nowhere', f'nowhere/{name}']))
    elif kind == 'loop':
        q.symlink_to(name)
    elif kind.startswith('o'):
        mine = w.store.root_id
        alien = r.choice(['N:organization:other', mine + '0', mine[:-1], mine.lower(), mine + ' '])
        o = w if kind.startswith('own') else world(ctx, aug, r, base, root_id=alien, name=name, **kw)
        plan['there'] = o.store.root_id
        o.open_session()
        o.anchor = o.R.dropAnchor(o.L(base))
        if kind.endswith('full'):
            o.bootstrap()
            if r.random() < .5:
                o.local(r.choice(o.files)).cache.fetch()
        elif r.random() < .5 or kind == 'own bare':
            shutil.rmtree(q / '.operations')
        w.open_session()
    (base / 'neighbour').mkdir()
    (base / 'neighbour/x').write_bytes(b'x')
    parent, cwd = place(r, base, form)
    if cwd is not None:
        os.chdir(cwd)
    before = everything(top)
    want = outcome(aug, kind, op)

    def go():
        p = parent(w.L)
        if op in ('dropAnchor', 'smartAnchor'):
            f = getattr(w.R, op)
            return f(p) if p is not None or r.random() < .5 else f()
        at = (w.L(p) if p is not None else w.L('.')) / name
        return w.R.anchorTo(at, create=True) if op == 'create' else w.R.anchorTo(at)

    ctx.count('kind:' + kind); ctx.count('op:' + op); ctx.count('form:' + form)
    ctx.seen((kind, op, form, name))
    try:
        got, failed = go(), None
    except Exception as e:
        got, failed = None, e
    after = everything(top)
    if want is not FINE:
        ctx.count('refused')
        if not ctx.expect(failed is not None, f'taken over:{kind}:{op}', lambda: f'{op} set up a project over {kind}: {got!r}', wit):
            return
        ctx.expect(isinstance(failed, want), f'refusal:{kind}:{op}', lambda: f'{op} over {kind} is refused with {failed!r}, not {want}', wit)
        ctx.expect(before == after, f'refused but changed:{kind}:{op}', lambda: f'{op} over {kind} refused and changed '
                   f'{[k for k in {**before, **after} if before.get(k) != after.get(k)]}', wit)
        # and it does not stick, another place is fine
        base2 = ctx.newdir()
        os.chdir(top)
        a = w.R.smartAnchor(w.L(base2))
        ctx.expect(str(a) == str(base2 / name), 'stuck after refusal', lambda: f'after a refusal the next project is at {a} not below {base2}', wit)
        w.base, w.anchor = base2, a
    else:
        if not ctx.expect(failed is None, f'not set up:{kind}:{op}', lambda: f'{op} over {kind} ({form}) raises {failed!r}', wit):
            return
        ctx.count('set up')
        ctx.expect(got == w.R._cache_anchor and got.id == w.store.root_id, 'other anchor', lambda: f'{op} gives {got!r}', wit)
        if kind in ('missing', 'empty'):
            new = {k: v for k, v in after.items() if before.get(k) != v and k != f'{base.name}'}
            exp = {os.path.join(base.name, name, x) if x else os.path.join(base.name, name) for x in ('', '.operations', '.operations/objects', '.operations/trash')}
            # os.walk with '.' lists folders twice
            new = {os.path.normpath(k) for k in new}
            ctx.expect(new == exp, 'what is made', lambda: f'{op} over {kind} made {sorted(new ^ exp)}', wit)
            m = w.meta_at(q)
            ctx.expect(m is not None and m.id == w.store.root_id, 'id of the root', lambda: f'{op} over {kind} leaves {m} on the root', wit)
        else:
            ctx.expect(before == after, 'changed what was found', lambda: f'{op} changed {[k for k in {**before, **after} if before.get(k) != after.get(k)]}', wit)
        w.anchor = got
        # once there it stays
        ctx.count('again')
        for what, f, e in (('dropAnchor', lambda: w.R.dropAnchor(parent(w.L)), exc.RemoteAlreadyAnchoredError),
                           ('smartAnchor elsewhere', lambda: w.R.smartAnchor(w.L(top)), exc.RemoteAlreadyAnchoredError),
                           ('anchorTo', lambda: w.R.anchorTo(w.L(q)), ValueError),
                           ('anchorToCache', lambda: w.R.anchorToCache(w.L(q).cache), ValueError)):
            try:
                x = f()
                ctx.violation(f'again:{what}', f'{what} in an anchored session gives {x!r}', wit())
            except e:
                pass
        x = w.R.smartAnchor(parent(w.L))
        ctx.expect(x == got and x.id == w.store.root_id, 'again:smartAnchor', lambda: f'smartAnchor again gives {x!r}', wit)
        ctx.expect(everything(top) == after, 'again:changed', lambda: 'asking again changed something', wit)
    # it works from anywhere
    if '_anchor' not in w.C.__dict__:
        w.C._anchor = w.anchor
    if op == 'anchorTo' or kind.startswith('own'):
        w.anchor.local_data_dir_init()
    elsewhere = ctx.newdir()
    os.chdir(elsewhere)
    w.bootstrap()
    f = r.choice(w.files)
    w.where(f).exists() or w.local(f).cache.fetch()
    os.chdir(top)
    ctx.count('used from elsewhere')
    ctx.expect(not os.listdir(elsewhere), 'written elsewhere', lambda: f'{os.listdir(elsewhere)} in the working directory', wit)
    t = model.tree(w.root)
    ids = w.find_ids()
    ctx.expect(set(ids) >= {n.id for n in (*w.files, *w.dirs[1:])} and t.get(str(w.where(f).relative_to(w.root))) == ('file', f.data),
               'not usable', lambda: f'after {op} the project has {sorted(ids)}', wit)
    # a new session finds it
    w.reopen()
    ctx.expect(str(w.anchor) == str(w.root) and w.anchor.id == w.store.root_id, 'not found again', lambda: f'{w.anchor!r}', wit)
    # the way back, and in again in the same process
    w.R.weighAnchor(); w.C.weighAnchor()
    a = w.R.smartAnchor(w.L(w.base))
    ctx.expect(a.id == w.store.root_id and str(a) == str(w.root), 'weigh', lambda: f'{a!r}', wit)


STEPS = ['bootstrap', 'bootstrap', 'fetch', 'fetch', 'write', 'write', 'refresh', 'rename', 'add', 'crumple', 'move', 'update', 'reopen', 'edit', 'delete']


def step(w, r, k):
    """ one thing that happens in or to a project, its result """
    s = w.store
    if k == 'bootstrap':
        w.bootstrap()
        return
    if k == 'reopen':
        w.reopen()
        return
    if k in ('write', 'rename', 'add', 'delete'):
        f = r.choice(w.files)
        if k == 'write':
            s.write(f, w.blob())
        elif k == 'rename':
            f.name = w.free_name(f.parent)
            f.updated = s.tick()
        elif k == 'add':
            w.add_file()
        elif len(w.files) > 1:
            s.remove(f)
            w.files.remove(f)
        return
    ids = w.find_ids()
    here = sorted(m for m in ids if m in s.nodes and not s.nodes[m].is_dir)
    if not here:
        return
    p = w.L(w.root / ids[r.choice(here)][0])
    if k == 'edit':
        if not os.path.islink(p):
            with open(p, 'wb') as fh:
                fh.write(b'edit %d' % r.randrange(10**9))
        return
    try:
        x = dict(fetch=lambda: p.cache.fetch(), refresh=lambda: p.cache.refresh(update_data=True), crumple=lambda: p.cache.crumple(),
                 update=lambda: p.cache.remote.update_cache(), move=lambda: p.cache.move(target=p.parent / ('to %d' % r.randrange(100)), meta=p.cache.meta))[k]()
        return type(x).__name__
    except Exception as e:
        return type(e).__name__


def whole(w):
    """ with what was thrown away and the names of what was replaced """
    return state(w), sorted((k, v) for k, v in model.tree(w.root / '.operations').items())


def two(ctx, aug, i, r, plan):
    """ what is done to two projects in one process against what is done to each alone """
    top = ctx.newdir()
    same_id, same_prefix, nested_base = r.random() < .5, r.random() < .6, r.random() < .5
    ks = [[r.choice(STEPS) for _ in range(r.randint(3, 9))] for _ in range(2)]
    order = [j for j in (0, 1) for _ in ks[j]]
    r.shuffle(order)
    plan.update(ks=ks, order=order, same_id=same_id, same_prefix=same_prefix)

    def make(j, where):
        q = ctx.rng('project', i, j)
        base = where if nested_base else where / str(j)
        base.mkdir(parents=True, exist_ok=True)
        w = world(ctx, aug, q, base, name=f'p{j}', root_id=None if same_id else f'N:organization:{j}', prefix='vf' if same_prefix or not j else 'ano.ther')
        w.anchor = w.R.dropAnchor(w.L(w.base))
        return w, q

    def alone(j):
        w, q = make(j, top / 'alone')
        out = [step(w, q, k) for k in ks[j]]
        return dict(out=out, state=repr(whole(w)))

    ref = []
    for j in (0, 1):
        code, x = common.fork_child(lambda: alone(j))
        if code:
            raise common.Skip()
        ref.append(x)
    pair = [make(j, top / 'together') for j in (0, 1)]
    at, out = [0, 0], [[], []]
    for j in order:
        w, q = pair[j]
        out[j].append(step(w, q, ks[j][at[j]]))
        at[j] += 1
    ctx.count('interleaved', len(order))
    ctx.seen((tuple(order), repr(ks)))
    for j in (0, 1):
        got = repr(whole(pair[j][0]))
        ctx.expect(got == ref[j]['state'] and out[j] == ref[j]['out'], 'two projects mix',
                   lambda: f'project {j} after {ks} in order {order} is not as alone: {out[j]} {ref[j]["out"]} {got[:1500]} {ref[j]["state"][:1500]}', lambda: dict(plan))


def objects(ctx, aug, r, plan):
    """ the objects directory of a project and its replacement by a link """
    wit = lambda: dict(plan)
    top = ctx.newdir()
    (top / 'base').mkdir()
    w = world(ctx, aug, r, top / 'base')
    w.anchor = w.R.dropAnchor(w.L(w.base))
    lod = w.root / '.operations/objects'
    full = r.random() < .4
    shared = top / 'shared'
    if full:
        f = r.choice(w.files)
        w.bootstrap()
        (lod / 'obj').write_bytes(b'object')
        before = everything(w.root)
        shared.mkdir()
        try:
            w.anchor.local_data_dir_init(symlink_objects_to=w.L(shared))
            ctx.violation('objects replaced', 'the objects directory that was not empty was replaced by a link', wit())
        except OSError:
            pass
        w.anchor.local_data_dir_init()
        ctx.expect(everything(w.root) == before, 'objects lost', lambda: 'the objects directory changed', wit)
        ctx.count('objects kept')
        ctx.seen(('full', len(w.files)))
        return
    shared.mkdir()
    (shared / 'there').write_bytes(b'before')
    form = r.choice(['absolute', 'relative', 'up'])
    plan['link'] = form
    if form == 'absolute':
        to = w.L(shared)
    elif form == 'relative':
        os.chdir(top)
        to = w.L('shared')
    else:
        (top / 'cw').mkdir()
        os.chdir(top / 'cw')
        to = w.L('..') / 'shared'
    if r.random() < .5:
        shutil.rmtree(w.root / '.operations')
    for n in range(r.randint(1, 3)):
        w.anchor.local_data_dir_init(symlink_objects_to=to)
    w.anchor.local_data_dir_init()
    os.chdir(ctx.scratch)
    ok = lod.is_symlink() and os.path.realpath(lod) == os.path.realpath(shared) and (w.root / '.operations/trash').is_dir()
    ctx.expect(ok, 'objects link', lambda: f'objects is {os.path.realpath(lod)} not {shared} ({form})', wit)
    ctx.count('objects linked')
    ctx.seen(('linked', form, len(w.files)))
    for other in (top / 'other', top / 'more' / 'shared'):
        other.mkdir(parents=True)
        try:
            w.anchor.local_data_dir_init(symlink_objects_to=w.L(other))
            ctx.violation('objects link changed', f'a link to another objects directory {other} was accepted', wit())
        except OSError:
            pass
    ctx.expect(os.path.realpath(lod) == os.path.realpath(shared), 'objects link lost', lambda: 'the link changed', wit)
    # a second project with the same one, what both replace is kept in there
    (top / 'base2').mkdir()
    w2 = world(ctx, aug, r, top / 'base2', name='second', root_id='N:organization:second')
    w2.anchor = w2.R.dropAnchor(w2.L(w2.base))
    w2.anchor.local_data_dir_init(symlink_objects_to=w2.L(shared))
    for x in (w, w2):
        x.bootstrap()
        f = r.choice(x.files)
        x.local(f).cache.fetch()
        x.store.write(f, x.blob() + b'new')
        x.local(f).cache.refresh(update_data=True)
        ctx.expect(x.where(f).read_bytes() == f.data, 'shared objects', lambda: 'a project with linked objects does not fetch what is new', wit)
    ctx.expect((shared / 'there').read_bytes() == b'before' and lod.is_symlink(), 'shared objects lost', lambda: 'objects of others are gone', wit)
    ctx.count('shared')


def fails(ctx, aug, r, plan):
    """ something goes wrong while a project is set up, then it is set up again """
    wit = lambda: dict(plan)
    base = ctx.newdir()
    w = world(ctx, aug, r, base)
    q = w.root
    if r.random() < .5:
        q.mkdir()
    n = r.randint(1, 6)
    plan.update(n=n, death=r.random() < .5, op=r.choice(['dropAnchor', 'smartAnchor', 'create']))
    seen = [0]

    import xattr
    real = xattr.set

    def now(what):
        seen[0] += 1
        if seen[0] == n:
            plan['at'] = what
            if plan['death']:
                os._exit(9)
            raise OSError(errno.ENOSPC, f'injected at {what}')

    def hook(event, args):
        if event in ('os.mkdir', 'os.symlink', 'os.rename', 'os.remove', 'os.rmdir') and str(base) in str(args[0]):
            now(event)

    def xset(*a, **k):
        now('xattr')
        return real(*a, **k)

    def go():
        with common.guard.observe(hook):
            xattr.set = xset
            try:
                return (w.R.anchorTo(w.L(q), create=True) if plan['op'] == 'create' else getattr(w.R, plan['op'])(w.L(base)))
            finally:
                xattr.set = real

    if plan['death']:
        code, x = common.fork_child(lambda: (go(), None)[1])
        failed = code == 9
        if not failed and code:
            ctx.violation('set up without fault', f'{x}', wit())
            return
        w.open_session()
    else:
        try:
            go()
            failed = False
        except OSError as e:
            failed = True
            if 'injected' not in str(e):
                raise
        if r.random() < .5:
            w.open_session()
    if not failed:
        ctx.count('no fault')
    else:
        ctx.count('faults')
        ctx.count('fault:' + plan.get('at', 'death'))
        ctx.seen((n, plan['op'], plan['death'], seen[0]))
    try:
        w.anchor = w.R.smartAnchor(w.L(base))
    except Exception as e:
        ctx.violation('not finished', f'after set up failed at {plan.get("at", n)} setting up again raises {e!r}', wit())
        return
    if '_anchor' not in w.C.__dict__:
        w.C._anchor = w.anchor
    w.anchor.local_data_dir_init()
    w.bootstrap()
    f = r.choice(w.files)
    w.local(f).cache.fetch()
    ctx.count('finished')
    ids = w.find_ids()
    ctx.expect(w.where(f).read_bytes() == f.data and set(ids) >= {x.id for x in (*w.files, *w.dirs[1:])}, 'not usable after failure',
               lambda: f'only {sorted(ids)} are there', wit)
