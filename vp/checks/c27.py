""" several processes and threads work on the same project """
import contextlib
import json
import os
import signal
import sys
import threading
import traceback

import xattr

from .. import common, gen, model
from .c26 import Clock, snapshot, restore, state

RULE = ('operation A is stopped before each of its changes of the file system and chunks of content, or of its reads, in turn while operation B runs in '
        'another process or thread, then A goes on; what is left must be what one of them after the other leaves; non-trivial when A '
        'was stopped after its first change')


class Gate(Clock):
    """ hands over before the chosen changes """

    def __init__(self, at, wait):
        super().__init__()
        self.points, self.wait = set(at), wait
        self.me = threading.get_ident()

    def tick(self, what):
        if threading.get_ident() != self.me:
            return
        n = self.n
        self.n += 1
        self.log.append(what)
        if n in self.points:
            self.wait()


INSIDE = threading.local()


@contextlib.contextmanager
def inside():
    """ what the library reads in here is seen by the gate """
    INSIDE.on = True
    try:
        yield
    finally:
        INSIDE.on = False


READS = [(os, 'stat'), (os, 'lstat'), (os, 'readlink'), (os, 'listdir'), (os, 'scandir'), (xattr, 'get'), (xattr, 'get_all')]


@contextlib.contextmanager
def reads(gate):
    """ reading is also something to be stopped before """
    real = [getattr(m, n) for m, n in READS]

    def wrap(f, name):
        def wrapped(*a, **k):
            if getattr(INSIDE, 'on', False) and a and isinstance(a[0], (str, bytes, os.PathLike)):
                gate.tick((name, os.path.basename(os.fspath(a[0]))))
            return f(*a, **k)
        return wrapped
    for (m, n), f in zip(READS, real):
        setattr(m, n, wrap(f, n))
    try:
        yield
    finally:
        for (m, n), f in zip(READS, real):
            setattr(m, n, f)


class Proc:
    """ an operation in a forked process that stops where it is told to """

    def __init__(self, fn, w, at=(), reading=False):
        self.out_r, out_w = os.pipe()
        go_r, self.go_w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 70
            try:
                os.close(self.out_r); os.close(self.go_w)
                signal.setitimer(signal.ITIMER_REAL, common.CASE_LIMIT_S)

                def wait():
                    os.write(out_w, b'paused\n')
                    os.read(go_r, 1)
                out = body(fn, w, Gate(at, wait), reading)
                os.write(out_w, json.dumps(out, default=repr).encode() + b'\n')
                code = 0
            finally:
                os._exit(code)
        os.close(out_w); os.close(go_r)
        self.f = os.fdopen(self.out_r)
        self.result = None

    def until(self):
        """ True if it waits, False if it is done """
        line = self.f.readline()
        if line == 'paused\n':
            return True
        self.f.close()
        os.close(self.go_w)
        _, st = os.waitpid(self.pid, 0)
        self.result = json.loads(line) if line else dict(err=f'ended with {st}', n=0, log=[])
        return False

    def go(self):
        os.write(self.go_w, b'g')

    def finish(self):
        while self.until():
            self.go()
        return self.result


def body(fn, w, gate, reading=False):
    gate.xattrs()
    real_open = w.open_session

    def opened():
        real_open()
        real = w.R._data_for

        def data_for(self, meta):
            for chunk in real(self, meta):
                gate.tick(('chunk', len(chunk)))
                yield chunk
        w.R._data_for = data_for
    w.open_session = opened
    err = out = None
    with common.guard.observe(gate), reads(gate) if reading else contextlib.nullcontext():
        try:
            out = fn()
        except Exception as e:
            err = f'{type(e).__name__}: {e} ' + traceback.format_exc()[-1200:]
    return dict(n=gate.n, log=gate.log, err=err, out=out)


OPS = ['fetch', 'fetch other', 'refetch', 'bootstrap', 'update', 'update other', 'refresh', 'crumple other', 'look']
PAIRS = [(a, b) for a in OPS for b in OPS if a != 'look']
THREADS = [('fetch', 'fetch'), ('fetch', 'fetch other'), ('fetch', 'look'), ('refetch', 'fetch other'), ('refetch', 'look'),
           ('fetch', 'crumple other'), ('refresh', 'fetch other'), ('update', 'look')]
# what these do to one file does not depend on what anybody else does to it meanwhile
SAFE = {'look', 'fetch', 'fetch other'}
# the same stopped before each of its reads as well
READING = [*((a, b) for a in ['fetch', 'look', 'bootstrap', 'fetch other'] for b in ['fetch', 'look', 'bootstrap'] if a + b != 'looklook'),
           *((a, b) for x in ['refetch', 'update', 'refresh', 'crumple other', 'update other'] for a, b in ((x, 'look'), ('look', x))),
           *((a, b) for x in ['refetch', 'update', 'refresh'] for a, b in ((x, 'fetch other'), ('fetch other', x)))]


def strict(pair, remote_changed, conflicting):
    """ neither is allowed to fail and what is left is what one after the other leaves """
    # conflicting: files and folders that have to be renamed, or fetched again
    a, b = pair
    if a == 'look':
        a, b = b, a
    if b == 'look':
        return not remote_changed or a == 'bootstrap' and not conflicting
    if {a, b} <= SAFE:
        return True
    if a == b == 'bootstrap':
        return not conflicting
    same_file = a.endswith('other') == b.endswith('other')
    if 'bootstrap' in pair:
        return not remote_changed and {a, b} <= {*SAFE, 'bootstrap'}
    return not same_file and not remote_changed


def main(ctx):
    aug = common.load_library()
    if 'VP_BUDGET' not in os.environ and not ctx.thorough:
        ctx.budget = 110  # all pairs of operations once
    only = os.environ.get('PAIR')
    jobs = [(pair, 'processes') for pair in PAIRS]
    for i, pair in enumerate(THREADS):
        jobs.insert(i * 9 + 4, (pair, 'threads'))
    jobs[6:6] = [(('bootstrap', 'bootstrap'), 'processes')] * 2
    reading = READING if ctx.thorough or os.environ.get('HOW') else READING[ctx.shard::3]   # all shards together
    for i, pair in enumerate(reading):
        jobs.insert(i * 9 + 2, (pair, 'reading'))
    if os.environ.get('HOW'):
        jobs = [x for x in jobs if x[1] == os.environ['HOW']]
    i = 0
    while i < ctx.size(len(jobs), 3000) and not ctx.time_up():
        pair, how = jobs[i % len(jobs)]
        i += 1
        if only and ','.join(pair) != only:
            continue
        r = ctx.rng(i)
        w = None
        plan = dict(i=i)
        wit = lambda: dict(plan)
        with ctx.case('together', wit):
            try:
                w = model.World(ctx, aug, r, ndirs=r.randint(0, 2), nfiles=r.randint(2, 4), max_size=3000)
                one(ctx, aug, w, r, plan, wit, pair, how)
            finally:
                if w is not None:
                    w.close()
    ctx.require('schedule', 'two_switches', 'threads', 'reading', 'strict', 'weak', 'looked', 'conflict', 'bad_content')
    ctx.assumptions = ['operations are interleaved at changes of the file system, chunks of content and reads of the library, at most two switches per schedule']


def one(ctx, aug, w, r, plan, wit, pair, how):
    threads, reading = how == 'threads', how == 'reading'
    store = w.store
    store.chunksize = r.choice([100, 1000, 4096])
    w.bootstrap()
    target, other = r.sample(w.files, 2)
    edits = {}
    if {'refetch', 'refresh'} & set(pair):
        w.local(target).cache.fetch()
    for f in w.files:
        if f is not target and r.random() < .4 and not {'fetch other'} & set(pair):
            w.local(f).cache.fetch()
            if r.random() < .5:
                edits[f.id] = b'local edit ' + r.randbytes(20)
                w.where(f).write_bytes(edits[f.id])
    # renews: content that was fetched is replaced by other content of the remote
    remote, conflicting, renews = [], False, False
    fetched = {f.id for f in w.files if not w.local(f).is_broken_symlink()}
    adding = pair == ('bootstrap', 'bootstrap') and r.random() < .85   # both make the same new things
    if adding or {'bootstrap', 'update', 'refresh', 'update other'} & set(pair) and r.random() < .75:
        for _ in range(r.randint(1, 3)):
            k = r.choice(['add', 'adddir'] if adding else ['write', 'rename', 'move', 'add', 'adddir', 'movedir'])
            f = r.choice([target, other])
            if k == 'write' and f.id not in edits:
                store.write(f, w.blob())
            elif k == 'rename':
                f.name = w.free_name(f.parent)
                if f.id not in fetched and r.random() < .6:
                    f.updated = store.tick()
            elif k == 'move':
                p = r.choice(w.dirs)
                if f.name in {c.name for c in store.children(p)} or p is f.parent:
                    continue
                f.parent = p
                if f.id not in fetched and r.random() < .6:
                    f.updated = store.tick()
            elif k == 'add':
                w.add_file()
            elif k == 'adddir':
                w.add_dir()
            elif k == 'movedir' and len(w.dirs) > 1:
                d = r.choice(w.dirs[1:])
                d.name = w.free_name(d.parent)
            else:
                continue
            remote.append((k, f is target))
            if k in ('rename', 'move', 'movedir') or k == 'write' and f.id in fetched:
                conflicting = True
            renews |= k == 'write' and f.id in fetched
    ctx.count('adding', adding)
    # what arrives is not what the remote said that it is
    bad_content = {*pair} <= SAFE and r.random() < .3 and bool(target.data) and bool(other.data)
    if bad_content:
        for f in (target, other):
            f.corrupt = bytes(b ^ 0x55 for b in f.data)
    ctx.count('bad_content', bad_content)
    plan.update(bad_content=bad_content, pair=pair, how=how, target=target.id, other=other.id, remote=remote, edits=sorted(edits))

    def find(node):
        for rel in w.find_ids().get(node.id, []):
            return w.L(w.root / rel)

    def op(name):
        def fn():
            if not threads:
                w.reopen()
            node = other if name.endswith('other') else target
            what = name.split()[0]
            p = find(node) if what not in ('bootstrap', 'look') else None
            if what != 'look':
                with inside():
                    if what in ('fetch', 'refetch'):
                        p.cache.fetch()
                    elif what == 'bootstrap':
                        w.bootstrap()
                    elif what == 'refresh':
                        p.cache.refresh(update_data=True)
                    elif what == 'update':
                        p.cache.remote.update_cache()
                    elif what == 'crumple':
                        p.cache.crumple()
            elif what == 'look':
                for rel, id in before.items():
                    places = w.find_ids().get(id)
                    if places is None:
                        return f'{id} is nowhere, it was {rel}'
                    p = w.L(w.root / places[0])
                    with inside():
                        c = p.cache
                        if c is None or c.id != id or c.meta is None or c.meta.id != id:
                            return f'{p} has no cache {c!r} want {id}'
                        if w.R(id).id != id:
                            return 'remote'
        return fn
    before = {rel: x[2]['id'] for rel, x in state(w).items() if x[2] is not None}
    if 'crumple other' in pair:
        before = {k: v for k, v in before.items() if v != other.id}
    A, B = op(pair[0]), op(pair[1])
    snap = ctx.newdir() / 'snap'
    snapshot(w.base, snap)

    def together(a_at, b_at=()):
        """ A until it stops, B until it stops, A, B """
        restore(snap, w.base)
        if threads:
            def fn():
                w.reopen()
                return list(thread_pair(A, B, w, a_at))
            code, out = common.fork_child(fn)
            if code:
                return [dict(err=f'{code} {out}', n=0, log=[], out=None)] * 2
            return out
        a = Proc(A, w, a_at, reading)
        going = a.until()
        b = Proc(B, w, b_at, reading)
        b_going = b.until()
        if going:
            a.go()
            a.finish()
        if b_going:
            b.go()
            b.finish()
        return a.result, b.result

    wants, fulls, alone = [], [], []
    for order in ((A, B), (B, A)):
        restore(snap, w.base)
        res = [Proc(x, w, (), reading).finish() for x in order]
        fulls.append(res[0])
        # one can be in the way of the other also when they take turns
        alone.append([x['err'] for x in (res if order[0] is A else res[::-1])])
        wants.append(state(w))
    if alone[0][0] or alone[1][1]:
        ctx.count('refused')
        return
    full = fulls[0]
    plan['log'] = full['log']
    is_strict = strict(pair, bool(remote), conflicting) and not any(x for y in alone for x in y)
    recovered = []

    def recover():
        def fn():
            w.reopen()
            w.bootstrap()
            for n in [target, other]:
                p = find(n)
                if p.is_broken_symlink() or n.id not in edits and p.read_bytes() != n.data:
                    p.cache.fetch()
            return {}
        return common.fork_child(fn)

    only_here = set(edits.values())
    points = list(range(full['n']))
    most = 60 if reading else 30
    if len(points) > most:
        points = sorted(r.sample(points, most))
    schedules = [(k, None) for k in points]
    if not threads and pair[1] != 'look' and fulls[1]['n'] and full['n']:
        schedules += [(r.randrange(full['n']), r.randrange(fulls[1]['n'])) for _ in range(6)]
    tag = f'{pair[0]}+{pair[1]}' + (f' {how}' if how != 'processes' else '')
    for k, j in schedules:
        plan.update(k=k, j=j)
        at = lambda: f'A before {full["log"][k]} of {full["log"]}' + (f' B before {fulls[1]["log"][j]} of {fulls[1]["log"]}' if j is not None else '')
        a, b = together([k], [j] if j is not None else ())
        ctx.count('schedule')
        ctx.count('two_switches', j is not None)
        ctx.count('threads', threads)
        ctx.count('reading', reading)
        ctx.seen((plan['i'], k, j), k > 0)
        ctx.sample(dict(pair=pair, k=k, j=j, before=full['log'][k]), 6) if k else None
        if pair[1] == 'look' and not renews:
            ctx.expect(not b['err'] and not b['out'], f'{tag}:look', lambda: f'{at()}: {b}', wit)
            ctx.count('looked')
        left = w.all_bytes()
        ctx.expect(only_here <= left, f'{tag}:bytes', lambda: f'{at()}: lost {only_here - left}', wit)
        got = state(w)
        bad = honest(w, got, edits)
        ctx.expect(not bad or not is_strict and remote, f'{tag}:honest', lambda: f'{at()}: {bad}', wit)
        if is_strict:
            ctx.count('strict')
            for n, x in (('a', a), ('b', b)):
                ctx.expect(not x['err'], f'{tag}:{n} fails', lambda: f'{at()}: {x["err"]}', wit)
            ctx.expect(got in wants, f'{tag}:state', lambda: f'{at()}: {[apart(got, x) for x in wants]}', wit)
            stray = [x for x in os.listdir(w.root / '.operations') if x.startswith(('fetch-', 'placeholder-'))]
            ctx.expect(not stray, f'{tag}:stray', lambda: f'{at()}: {stray}', wit)
            continue
        ctx.count('weak')
        ctx.count('conflict', bool(a['err'] or b['err']))
        # whatever happened, doing it again gives what one process alone would have got
        if not recovered:
            mine = ctx.newdir() / 'mine'
            snapshot(w.base, mine)
            for order in ((A, B), (B, A)):
                restore(snap, w.base)
                for x in order:
                    Proc(x, w).finish()
                code, out = recover()
                if not code:
                    recovered.append(state(w))
            restore(mine, w.base)
            if not recovered:
                ctx.count('unrecoverable')
                return
        code, out = recover()
        ctx.expect(not code, f'{tag}:recover', lambda: f'{at()}: {a["err"]} {b["err"]} then {out}', wit)
        got = state(w)
        now = w.find_ids()
        ctx.expect(all(id in now or id not in store.nodes for id in before.values()), f'{tag}:identity',
                   lambda: f'{at()}: {a["err"]} {b["err"]} {[(rel, id) for rel, id in before.items() if id not in now]}', wit)
        # two that change the place or the content of the same file may leave what one of them did in the wrong order
        ctx.expect(remote or by_id(got) in [by_id(x) for x in recovered], f'{tag}:recovered',
                   lambda: f'{at()}: {a["err"]} {b["err"]} {[apart(got, x) for x in recovered]}', wit)
        left = w.all_bytes()
        ctx.expect(only_here <= left, f'{tag}:bytes after', lambda: f'{at()}: lost {only_here - left}', wit)


def thread_pair(A, B, w, a_at):
    stopped, go = threading.Event(), threading.Event()
    res = [None, None]

    def wait():
        stopped.set()
        go.wait(20)

    def run(n, fn, gate):
        gate.me = threading.get_ident()
        res[n] = body(fn, w, gate)
        stopped.set()
    ta = threading.Thread(target=run, args=(0, A, Gate(a_at, wait)))
    ta.start()
    stopped.wait(20)
    tb = threading.Thread(target=run, args=(1, B, Gate((), None)))
    tb.start()
    tb.join(20)
    go.set()
    ta.join(20)
    return res


def honest(w, got, edits):
    """ what is there and was not edited is what its metadata says, or it is known to be bad """
    import hashlib
    bad = []
    for rel, (kind, data, m) in got.items():
        if kind == 'file' and m is not None and m['id'] not in edits and m['checksum'] is not None \
                and 'checksum-mismatch' not in m['errors'] and w.cypher(data).digest() != m['checksum']:
            bad.append((rel, data[:20], m))
    return bad


def apart(got, want):
    return {k: (got.get(k), want.get(k)) for k in {*got, *want} if got.get(k) != want.get(k)}


def by_id(s):
    """ identity to content and metadata, wherever it is """
    out = {}
    for rel, x in s.items():
        out.setdefault(x[2]['id'] if x[2] is not None else rel, []).append(x)
    return out
