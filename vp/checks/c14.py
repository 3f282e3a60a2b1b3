""" exchanging two paths """
import hashlib
import os
import stat
import sys

from .. import common, gen, model

RULE = ('pairs of every kind of file system object exchanged while a line tracer looks at both names after every step and '
        'another process looks at them all the time, with refusals and faults at every rename; non-trivial when something '
        'was exchanged or refused')


def ident(p):
    """ what is at p """
    try:
        st = os.lstat(p)
    except FileNotFoundError:
        return None
    xs = {k: os.getxattr(p, k) for k in os.listxattr(p)} if not stat.S_ISLNK(st.st_mode) else {}
    if stat.S_ISREG(st.st_mode):
        with open(p, 'rb') as f:
            c = f.read()
    elif stat.S_ISLNK(st.st_mode):
        c = os.readlink(p)
    elif stat.S_ISDIR(st.st_mode):
        c = {n: ident(os.path.join(p, n)) for n in os.listdir(p)}
    else:
        c = None
    return st.st_ino, stat.S_IFMT(st.st_mode), stat.S_IMODE(st.st_mode), c, xs


def make(r, p, kind, far):
    if kind == 'file':
        with open(p, 'wb') as f:
            f.write(r.randbytes(r.choice([0, 1, 30, 5000])))
        os.chmod(p, r.choice([0o644, 0o600, 0o755]))
        if r.random() < .5:
            os.setxattr(p, 'user.k', r.randbytes(5))
    elif kind == 'dir':
        os.mkdir(p)
        for i in range(r.randrange(3)):
            make(r, os.path.join(p, f'c{i}'), r.choice(['file', 'file', 'link', 'dir']), far)
        if r.random() < .5:
            os.setxattr(p, 'user.k', r.randbytes(5))
    elif kind == 'link':
        os.symlink(far, p)
    elif kind == 'broken':
        os.symlink('nowhere/at.all', p)
    elif kind == 'fifo':
        os.mkfifo(p)


class Tracer:
    """ look at both names after every line that runs inside the library or the standard library """
    def __init__(self, check):
        self.check = check
        self.steps = 0

    def __call__(self, frame, event, arg):
        self.steps += 1
        self.check()
        return self

    def run(self, fn, *a):
        old = sys.gettrace()
        sys.settrace(self)
        try:
            return fn(*a)
        finally:
            sys.settrace(old)


def main(ctx):
    aug = common.load_library()
    ctx.require('swapped', 'carefree', 'carefree_atomic', 'relative', 'undecodable', 'kind:link', 'kind:dir', 'kind:fifo',
                'missing_self', 'missing_target', 'nested', 'other_device', 'fallback', 'fallback_fault', 'fallback_death',
                'observed', 'transitions', 'broken', 'steps', 'cached', 'same')
    shm = ctx.extra_scratch('/dev/shm') if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    if shm is None or os.stat(shm).st_dev == os.stat(ctx.scratch).st_dev:
        ctx.required.remove('other_device')
        shm = None
    classes = [aug.AugmentedPath, aug.LocalPath, aug.EatPath]
    for i in range(ctx.size(500, 12000)):
        if ctx.left() < ctx.budget * .5:
            break
        exchange(ctx, aug, ctx.rng('swap', i), i, classes, shm)
    for i in range(ctx.size(250, 6000)):
        if ctx.left() < ctx.budget * .25:
            break
        fallback(ctx, aug, ctx.rng('fallback', i), i, classes)
    for i in range(ctx.size(6, 60)):
        if ctx.time_up():
            break
        watched(ctx, aug, ctx.rng('watch', i), i)
    for i in range(ctx.size(8, 100)):
        if ctx.time_up():
            break
        cached(ctx, aug, ctx.rng('cached', i), i)


def exchange(ctx, aug, r, i, classes, shm):
    d = ctx.newdir()
    cls = r.choice(classes)
    op = r.choice(['swap', 'swap', 'swap_carefree'])
    na, nb = r.choice(model.NAMES), 'x' + r.choice(model.NAMES)
    odd = r.random() < .1
    if odd:
        na = 'odd\udcff'
        ctx.count('undecodable')
    os.makedirs(d / 'p' / 'q')
    with open(d / 'far', 'w') as f:
        f.write('far')
    pa = str(d / na)
    pb = str(d / r.choice(['', 'p', 'p/q']) / nb)
    ka = r.choice(['file', 'file', 'dir', 'link', 'fifo', 'missing', 'broken'])
    kb = r.choice(['file', 'file', 'dir', 'link', 'fifo', 'missing', 'broken', 'nested', 'device', 'same'])
    if kb == 'device' and shm is None:
        kb = 'file'
    if kb == 'nested' and ka != 'dir':
        kb = 'file'
    if kb == 'device':
        pb = str(shm / f'o{i}')
    make(r, pa, ka, str(d / 'far'))
    if kb == 'nested':
        pb = os.path.join(pa, 'below')
        make(r, pb, 'file', None)
    elif kb == 'same':
        pb = pa
    else:
        make(r, pb, 'file' if kb == 'device' else kb, str(d / 'far'))
    base = ident(d)
    ia, ib = ident(pa), ident(pb)
    ra, rb = pa, pb
    rel = r.random() < .4
    if rel:
        cwd = r.choice([d, d / 'p', d / 'p' / 'q'])
        ra = os.path.relpath(pa, cwd)
        rb = r.choice([os.path.relpath(pb, cwd), pb])
        if r.random() < .5:
            ra, rb = rb, ra
        ctx.count('relative')
    else:
        cwd = d
        if r.random() < .5:
            ra, rb = rb, ra
    missing = 'missing' in (ka, kb) or kb == 'same' and ka == 'missing'
    broken = 'broken' in (ka, kb) or kb == 'same' and ka == 'broken'
    fails = missing or kb in ('nested', 'device')
    wit = lambda: dict(i=i, op=op, ka=ka, kb=kb, a=ra, b=rb, cwd=str(cwd), cls=cls.__name__)
    home = os.getcwd()
    fds = len(common.fds())
    bad = []

    inos = {x[0] for x in (ia, ib) if x}

    def look():
        for p in (pa, pb):
            try:
                ok = os.lstat(p).st_ino in inos
            except FileNotFoundError:
                ok = False
            if not ok:
                bad.append(p)

    with ctx.case('swap', wit):
        A, B = cls(ra), cls(rb)
        os.chdir(cwd)
        raised = None
        atomic = not fails and not (broken and op == 'swap_carefree')
        t = Tracer(look if atomic else lambda: None)
        try:
            t.run(getattr(A, op), B)
        except OSError as e:
            raised = e
        except ValueError as e:
            raised = e
        finally:
            os.chdir(home)
        ctx.count('steps', t.steps)
        ctx.expect(not bad, 'swap:window', lambda: f'{op}: {bad[:2]} was missing or something else in between', wit)
        ctx.expect(len(common.fds()) == fds, 'swap:descriptor', 'a descriptor stayed open', wit)
        if broken and not fails:
            # a broken link does not count as existing for swap, carefree may still manage
            ctx.count('broken')
            fails = raised is not None
        if fails:
            ctx.expect(raised is not None, f'swap:{kb} accepted', f'{op} of {ka} and {kb} raised nothing', wit)
            ctx.expect(ident(d) == base and ident(pb) == ib, f'swap:{op} damage',
                       lambda: f'{op} failed and changed something: {sorted(os.listdir(d))}', wit)
            if missing:
                ctx.expect(isinstance(raised, FileNotFoundError) or broken or kb in ('nested', 'device'),
                           'swap:missing error', f'{raised!r}', wit)
                ctx.count('missing_self' if not os.path.lexists(str(d / ra)) else 'missing_target')
            elif kb == 'nested':
                ctx.count('nested')
            elif kb == 'device':
                ctx.count('other_device')
        else:
            ctx.expect(raised is None, f'swap:{op} failed', lambda: f'{op} of {ka} and {kb}: {raised!r}', wit)
            na_, nb_ = ident(pa), ident(pb)
            ctx.expect((na_, nb_) == (ib, ia), f'swap:{op} exchange', 'the paths were not exchanged', wit)
            ctx.expect(listing(d) == listing_of(base), f'swap:{op} litter',
                       lambda: f'something was left behind or lost {listing(d)}', wit)
            ctx.count('swapped' if op == 'swap' else 'carefree')
            ctx.count('carefree_atomic', op == 'swap_carefree' and atomic)
            ctx.count('same', kb == 'same')
            ctx.count('kind:' + ka)
        ctx.seen((op, ka, kb, rel, odd))
    if kb == 'device':
        os.unlink(pb) if os.path.lexists(pb) else None
    common.force_rmtree(d)


def listing(d):
    """ every inode below d, wherever it is """
    out = []
    for b, ds, fs in os.walk(d):
        out += [os.lstat(os.path.join(b, n)).st_ino for n in ds + fs]
    return sorted(out)


def listing_of(idn):
    out = []
    for v in (idn[3] or {}).values():
        out.append(v[0])
        if v[1] == stat.S_IFDIR:
            out += listing_of(v)
    return sorted(out)


def fallback(ctx, aug, r, i, classes):
    """ where the system has no atomic exchange """
    d = ctx.newdir()
    base = r.choice(classes)

    class NoSwap(base):
        def swap(self, target):
            raise NotImplementedError('no')
    NoSwap._bind_flavours()
    os.mkdir(d / 'p')
    with open(d / 'far', 'w') as f:
        f.write('far')
    pa, pb = str(d / r.choice(model.NAMES)), str(d / r.choice(['p', '']) / ('x' + r.choice(model.NAMES)))
    ka = r.choice(['file', 'dir', 'link', 'broken', 'fifo'])
    kb = r.choice(['file', 'dir', 'link', 'broken', 'fifo'])
    mode = r.choice(['plain', 'fault', 'fault', 'death', 'missing_a', 'missing_b'])
    if mode != 'missing_a':
        make(r, pa, ka, str(d / 'far'))
    if mode != 'missing_b':
        make(r, pb, kb, str(d / 'far'))
    before = ident(d)
    inos = listing(d)
    ia, ib = ident(pa), ident(pb)
    k = r.randrange(1, 4)
    n = []
    wit = lambda: dict(i=i, mode=mode, k=k, ka=ka, kb=kb)

    def at(event, args):
        if event == 'os.rename':
            n.append(1)
            if len(n) == k:
                if mode == 'death':
                    os._exit(9)
                raise PermissionError(13, 'injected')

    with ctx.case('fallback', wit):
        A, B = NoSwap(pa), NoSwap(pb)
        if mode == 'death':
            def fn():
                with common.guard.observe(at):
                    A.swap_carefree(B)
            code, _ = common.fork_child(fn)
            now = listing(d)
            if code == 9:
                ctx.expect(set(inos) <= set(now), 'fallback:death', 'a path is gone after the process died in the middle', wit)
                ctx.count('fallback_death')
        else:
            raised = None
            try:
                if mode == 'fault':
                    with common.guard.observe(at):
                        A.swap_carefree(B)
                else:
                    A.swap_carefree(B)
            except OSError as e:
                raised = e
            if mode == 'plain' or mode == 'fault' and len(n) < k:
                ctx.expect(raised is None and (ident(pa), ident(pb)) == (ib, ia), 'fallback:exchange',
                           f'not exchanged {raised!r}', wit)
                ctx.expect(listing(d) == inos, 'fallback:litter', f'{sorted(os.listdir(d))}', wit)
                ctx.count('fallback')
            else:
                ctx.expect(raised is not None, 'fallback:swallowed', 'the failure was not reported', wit)
                ctx.expect(ident(d) == before, 'fallback:damage',
                           lambda: f'a failed exchange left {sorted(os.listdir(d))} {[ident(pa), ident(pb)]}', wit)
                ctx.count('fallback_fault')
        ctx.seen(('fallback', mode, k, ka, kb))
    common.force_rmtree(d)


def watched(ctx, aug, r, i):
    """ another process looks at the two names while they are exchanged over and over """
    d = ctx.newdir()
    pa, pb = str(d / 'a'), str(d / 'b')
    ka, kb = r.choice([('file', 'file'), ('file', 'dir'), ('dir', 'dir'), ('file', 'link')])
    with open(d / 'far', 'w') as f:
        f.write('far')
    make(r, pa, ka, str(d / 'far'))
    make(r, pb, kb, str(d / 'far'))
    inos = {os.lstat(pa).st_ino, os.lstat(pb).st_ino}
    rd, wr = os.pipe()
    stop_r, stop_w = os.pipe()
    os.set_blocking(stop_r, False)
    pid = os.fork()
    if pid == 0:
        seen = bad = trans = 0
        last = None
        try:
            while True:
                for p in (pa, pb):
                    try:
                        ino = os.lstat(p).st_ino
                        if ino not in inos:
                            bad += 1
                    except OSError:
                        bad += 1
                        ino = None
                    if p == pa:
                        trans += last is not None and ino != last
                        last = ino
                    seen += 1
                if seen % 64 == 0:
                    try:
                        os.read(stop_r, 1)
                        break
                    except BlockingIOError:
                        pass
            os.write(wr, f'{seen} {bad} {trans}'.encode())
        finally:
            os._exit(0)
    os.close(wr)
    op = r.choice(['swap', 'swap_carefree'])
    with ctx.case('watched', lambda: dict(i=i, op=op, ka=ka, kb=kb)):
        A, B = aug.AugmentedPath(pa), aug.AugmentedPath(pb)
        for _ in range(ctx.size(1500, 6000)):
            getattr(A, op)(B)
    os.write(stop_w, b'x')
    data = os.read(rd, 100).decode().split()
    os.waitpid(pid, 0)
    for f in (rd, stop_r, stop_w):
        os.close(f)
    seen, bad, trans = map(int, data)
    ctx.count('observed', seen)
    ctx.count('transitions', trans)
    ctx.expect(bad == 0, 'watched:window', f'{op}: {bad} of {seen} looks found a name missing', dict(i=i))
    ctx.seen(('watched', op, ka, kb))
    common.force_rmtree(d)


def cached(ctx, aug, r, i):
    """ the cached identity goes where the file goes """
    w = model.World(ctx, aug, r, ndirs=2, nfiles=5)
    with ctx.case('cached', lambda: dict(i=i)):
        w.bootstrap()
        fs = [f for f in w.files]
        for f in fs:
            w.local(f).cache.fetch()
        a, b = r.sample(fs, 2)
        pa, pb = w.where(a), w.where(b)
        ma, mb = w.meta_at(pa), w.meta_at(pb)
        w.L(pa).swap(w.L(pb))
        ctx.expect((w.meta_at(pa), w.meta_at(pb)) == (mb, ma), 'cached:meta', 'metadata did not go along', dict(i=i))
        ctx.expect(w.L(pa).cache.id == b.id and w.L(pa).cache.meta == mb, 'cached:object', 'the cache shows the other file')
        ctx.expect(pa.read_bytes() == b.data and pb.read_bytes() == a.data, 'cached:data', 'contents')
        ctx.count('cached')
    w.close()
