""" what is left when a process ends in the middle of something """
import os
import shutil

from .. import common, gen, model

RULE = ('the process is ended right before every single change of the file system and every chunk of content of an operation; what is '
        'left on the disk is examined and the operation is done again by a new process; non-trivial when the crash came after at least '
        'one change had been made')

OPS = ['fetch', 'fetch', 'refetch', 'bootstrap', 'bootstrap', 'bootstrap', 'refresh', 'refresh', 'update', 'move', 'crumple', 'first']
MUTATE = common.Guard.MUTATE1 | common.Guard.MUTATE2
CRASHED = 83


class Clock:
    """ counts changes and ends the process before the chosen one """

    def __init__(self, at=None):
        self.at, self.n, self.log = at, 0, []

    def tick(self, what):
        if self.at is not None and self.n == self.at:
            os._exit(CRASHED)
        self.n += 1
        self.log.append(what)

    def xattrs(self):
        """ this module is written in C and makes no events """
        import xattr
        for name in ('set', 'remove', 'setxattr', 'removexattr'):
            real = getattr(xattr, name, None)
            if real is not None:
                def wrapped(path, key, *a, _real=real, _name=name, **k):
                    self.tick((_name, key))
                    return _real(path, key, *a, **k)
                setattr(xattr, name, wrapped)

    def __call__(self, event, args):
        if event in MUTATE:
            self.tick((event, *[os.path.basename(os.fsdecode(a)) for a in args[:2] if isinstance(a, (str, bytes, os.PathLike))]))
        elif event == 'open':
            path, mode, flags = args
            if isinstance(path, (str, bytes, os.PathLike)) and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) \
                    and not os.fspath(path).startswith('/dev'):
                self.tick((event, os.path.basename(path)))
        elif event == 'ctypes.call_function':
            self.tick((event,))


def main(ctx):
    aug = common.load_library()
    i = 0
    while i < ctx.size(60, 3000) and not ctx.time_up():
        r = ctx.rng(i)
        w = None
        plan = dict(i=i)
        wit = lambda: dict(plan)
        with ctx.case('crash', wit):
            try:
                w = model.World(ctx, aug, r, ndirs=r.randint(0, 3), nfiles=r.randint(1, 4), max_size=3000)
                one(ctx, aug, w, r, plan, wit, OPS[i % len(OPS)])
            finally:
                if w is not None:
                    w.close()
        i += 1
    ctx.require('crash', *sorted(set(OPS)))
    ctx.assumptions = ['the process ends between two changes of the file system, changes that were made are kept (no power loss)']


def snapshot(src, dst):
    shutil.copytree(src, dst, symlinks=True)


def restore(src, dst):
    for n in os.listdir(dst):
        p = os.path.join(dst, n)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    shutil.copytree(src, dst, symlinks=True, dirs_exist_ok=True)


def ids(w):
    """ every identity anywhere below the base, trash included → places """
    out = {}
    for rel, (kind, _) in model.tree(w.base, skip=()).items():
        try:
            m = w.meta_at(w.base / rel)
        except Exception:
            m = None
        if m is not None:
            out.setdefault(m.id, []).append(rel)
    return out


def state(w):
    """ what a user sees: tree without trash and the metadata of everything """
    out = {}
    for rel, (kind, c) in model.tree(w.root).items():
        m = w.meta_at(w.root / rel)
        out[rel] = (kind, c if kind == 'file' else None, m and {**gen.view(m), 'old_id': None})   # what was replaced is known to nobody if the process ended in between
    return out


def one(ctx, aug, w, r, plan, wit, op):
    store = w.store
    store.chunksize = r.choice([100, 1000, 4096])
    edits, target, fetched_before = {}, None, set()
    for f in w.files:
        if r.random() < .1:
            f.has_checksum = False
    if op != 'first':
        w.bootstrap()
        for f in w.files:
            if r.random() < .5 or op in ('refetch', 'refresh'):
                w.local(f).cache.fetch()
                if r.random() < .2:
                    edits[f.id] = b'local edit ' + r.randbytes(20)
                    w.where(f).write_bytes(edits[f.id])
                    plan.setdefault('edited', []).append(f.id)
        fetched_before = fetched = {f.id for f in w.files if not w.local(f).is_broken_symlink()}
        # then the remote changes
        target = r.choice(w.files)
        if op in ('bootstrap', 'refresh', 'update'):
            for _ in range(r.randint(1, 3)):
                k = r.choice(['write', 'rename', 'move', 'add', 'adddir', 'movedir'])
                plan.setdefault('remote', []).append(k)
                f = r.choice(w.files)
                if k == 'write' and f.id not in edits:
                    store.write(f, w.blob())
                elif k == 'rename':
                    f.name = w.free_name(f.parent)
                    if f.id not in fetched and r.random() < .6:
                        f.updated = store.tick()
                elif k == 'move':
                    p = r.choice(w.dirs)
                    if f.name not in {c.name for c in store.children(p)}:
                        f.parent = p
                        if f.id not in fetched and r.random() < .6:
                            f.updated = store.tick()
                elif k == 'add':
                    w.add_file()
                elif k == 'adddir':
                    w.add_dir()
                elif k == 'movedir' and len(w.dirs) > 1:
                    d = r.choice(w.dirs[1:])
                    d.name = w.free_name(d.parent)
    target = target or r.choice(w.files)
    plan.update(op=op, target=target.id)
    newname = w.free_name(target.parent)

    def find(node):
        for rel in w.find_ids().get(node.id, []):
            return w.L(w.root / rel)

    def run():
        w.reopen()
        p = find(target)
        if op in ('fetch', 'refetch'):
            p.cache.fetch()
        elif op in ('bootstrap', 'first'):
            w.bootstrap()
        elif op == 'refresh':
            p.cache.refresh(update_data=True)
        elif op == 'update':
            p.cache.remote.update_cache()
        elif op == 'move':
            c = p.cache
            t = p.parent / newname
            if p != t:
                c.move(target=t, meta=c.meta)
        elif op == 'crumple':
            if p is not None:
                p.cache.crumple()

    def child(at):
        def fn():
            clock = Clock(at)
            clock.xattrs()
            real = w.R._data_for

            def data_for(self, meta):
                for chunk in real(self, meta):
                    clock.tick(('chunk', len(chunk)))
                    yield chunk
            w_open = w.open_session

            def opened():
                w_open()
                w.R._data_for = data_for
            w.open_session = opened
            clock2 = clock
            err = None
            with common.guard.observe(clock2):
                try:
                    run()
                except Exception as e:
                    err = f'{type(e).__name__}: {e}'
                    import traceback
                    err += traceback.format_exc()[-1500:]
            return dict(n=clock.n, log=clock.log, err=err)
        return common.fork_child(fn)

    before_bytes, before_ids = w.all_bytes(), ids(w)
    if op in ('fetch', 'refetch', 'refresh') and target.id in edits:
        before_bytes.discard(edits[target.id])   # this is replaced because that is what was asked for
    # only remote content can be fetched again
    again = {n.data for n in store.nodes.values()} | {v for n in store.nodes.values() for v in n.versions.values()}
    # content that is replaced goes to the trash before the new one comes
    leaves = {n.id for n in w.files if n.id in fetched_before and any(v for v in n.versions)} if op in ('bootstrap', 'refresh', 'update') else set()
    in_tree = set(w.find_ids()) - leaves - ({target.id} if op == 'crumple' else set())
    snap = ctx.newdir() / 'snap'
    snapshot(w.base, snap)
    code, full = child(None)
    if code or full['err']:
        plan['full'] = full
        ctx.count('refused')
        return
    after = state(w)
    files = {x[2]['id'] for x in after.values() if x[0] == 'file' and x[2] is not None}
    fetched = [n for n in w.files if n.id in files]

    def recover():
        """ what the next process does: bring everything up to date and fetch what was fetched """
        def fn():
            w.reopen()
            w.bootstrap()
            for n in fetched:
                places = [w.L(w.root / rel) for rel in w.find_ids()[n.id]]
                # an extra placeholder is one thing, making another file out of it is up to us
                p = sorted(places, key=lambda p: (p.is_broken_symlink(), str(p)))[0]
                if p.is_broken_symlink() or p.read_bytes() != n.data and p.read_bytes() not in edits.values():
                    p.cache.fetch()
            return {}
        return common.fork_child(fn)

    restore(snap, w.base)
    wants = []
    for first in (True, False):
        restore(snap, w.base)
        if not first:
            child(None)
        code, out = recover()
        if code or out.get('err'):
            # also without any crash, not about this
            plan['full'] = out
            ctx.count('unrecoverable')
            return
        wants.append(state(w))
    plan['log'] = full['log']
    points = list(range(full['n']))
    if len(points) > 60:
        points = sorted(r.sample(points, 60))
    for k in points:
        plan['k'] = k
        ctx.sample(dict(i=plan['i'], op=op, before=full['log'][k], of=full['n'])) if k else None
        restore(snap, w.base)
        code, out = child(k)
        ctx.expect(code == CRASHED, 'repeatable', lambda: f'{code} {out}', wit)
        ctx.count('crash')
        ctx.seen((plan['i'], k), k > 0)
        # nothing is lost
        left = w.all_bytes()
        lost = {b for b in before_bytes if b not in left and b not in again}
        ctx.expect(not lost, f'{op}:bytes', lambda: f'lost {lost}', wit)
        now = ids(w)
        gone = {x: p for x, p in before_ids.items() if x not in now}
        ctx.expect(not gone, f'{op}:identity', lambda: f'{gone} before {full["log"][k]} of {full["log"]}', wit)
        away = in_tree - set(w.find_ids())
        ctx.expect(not away, f'{op}:place', lambda: f'{away} only in the trash before {full["log"][k]} of {full["log"]}', wit)
        # and the next process can go on
        code, out = recover()
        bare = [rel for rel, x in state(w).items() if x[0] == 'dir' and (x[2] is None or x[2]['id'] is None) and not os.listdir(w.root / rel)]
        if code and out['exception'] == 'PathExistsError' and bare:
            ctx.expect(False, 'bare-folder', lambda: f'{bare} before {full["log"][k]} of {full["log"]}: {out}', wit)
            for rel in bare:
                os.rmdir(w.root / rel)
            code, out = recover()
        ctx.expect(code == 0 and not out.get('err'), f'{op}:again', lambda: f'before {full["log"][k]} of {full["log"]}: {out}', wit)
        left = w.all_bytes()
        lost = {b for b in before_bytes if b not in left and b not in again}
        ctx.expect(not lost, f'{op}:bytes after', lambda: f'lost {lost}', wit)
        got = state(w)
        diff = differ(ctx, got, wants, wit, {target.id} if op == 'refresh' and target.id in edits else (),
                      {n.id: n.data for n in w.files})
        ctx.expect(not diff, f'{op}:state', lambda: f'before {full["log"][k]} of {full["log"]}: {diff}', wit)
    ctx.count(op)


def as_there(x):
    return x[0], x[1], x[2] and {k: v for k, v in x[2].items() if k not in ('name', 'parent_id')}


def differ(ctx, got, wants, wit, mixed=(), content={}):
    """ every identity once with the content and metadata it has without a crash, nothing else """
    def by_id(s):
        out, rest = {}, {}
        for rel, x in s.items():
            if x[2] is not None and x[2]['id'] is not None:
                out.setdefault(x[2]['id'], []).append((rel, x))
            else:
                rest[rel] = x
        return out, rest
    g, grest = by_id(got)
    ws = [by_id(w) for w in wants]
    bad = {}
    for rel, x in grest.items():
        if all(wrest.get(rel) != x for _, wrest in ws):
            bad[rel] = x
    for id in {*g, *ws[0][0], *ws[1][0]}:
        have = [x for _, x in g.get(id, [])]
        oks = [[x for _, x in w.get(id, [])] for w, _ in ws]

        def as_wanted(xs):
            if id in mixed and len(xs) == 1:
                # content as edited or as fetched with metadata from before or after
                ms = [x[2] for ok in oks for x in ok]
                return (xs[0][1] in [x[1] for ok in oks for x in ok] and xs[0][2] is not None and as_there(xs[0])[2] in [as_there((0, 0, m))[2] for m in ms]
                        and all(xs[0][2][k] in [m[k] for m in ms if m] for k in ('name', 'parent_id')))
            if xs in oks:
                return True
            if len(xs) == 1 and xs[0][0] == 'file' and xs[0][1] == content.get(id) and [('link', None, xs[0][2])] in oks:
                return True   # fetched early
            # each of the attributes is written on its own, a name or parent that differs
            # is not enough for a bootstrap to write them again
            where = ('name', 'parent_id')
            metas = [x[2] for ok in oks for x in ok if x[2] is not None]
            return (len(xs) == 1 and xs[0][2] is not None and all(xs[0][2][k] in [m[k] for m in metas] for k in where)
                    and [as_there(xs[0])] in [[as_there(x) for x in ok] for ok in oks])
        if len(have) > 1:
            # the complete file and one more placeholder of it
            one = [x for x in have if as_wanted([x])]
            if one and all(x[0] == 'link' for x in [y for y in have if y is not one[0]]):
                ctx.expect(False, 'second-placeholder', lambda: f'{g[id]}', wit)
                ctx.count('second_placeholder')
                have = one[:1]
        if not as_wanted(have):
            bad[id] = (g.get(id), *[w.get(id) for w, _ in ws])
    return bad
