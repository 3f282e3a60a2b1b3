""" extended attributes and sparse marks """
import errno
import os

from .. import common, gen, model

RULE = ('random programs of attribute operations on files and directories against a dictionary per path and the attributes the '
        'operating system reports, and random sparse marks in projects with every path asked; non-trivial with more than '
        'three attributes or a mark')

KEYS = ['k', 'vf.id', 'a.b.c', 'é', 'sp ace', 'x' * 100, 'K', 'user.k', '-', 'vf.name', 'augpathlib.other', 'ab', 'a']


def sysattrs(p):
    return {k[5:].encode('utf-8', 'surrogateescape'): os.getxattr(p, k) for k in os.listxattr(p) if k.startswith('user.')}


def main(ctx):
    aug = common.load_library()
    ctx.require('set', 'get', 'get_missing', 'delete', 'delete_missing', 'delete_fail', 'all', 'not_bytes', 'no_file',
                'through_link', 'bulk', 'zero', 'too_big', 'namespace', 'sparse_asked', 'sparse_true', 'sparse_false',
                'sparse_placeholder', 'sparse_relative', 'sparse_cleared', 'sparse_cache', 'sparse_boot', 'sparse_again')
    for i in range(ctx.size(400, 10000)):
        if ctx.left() < ctx.budget * .5:
            break
        attrs(ctx, aug, ctx.rng('attrs', i), i)
    for i in range(ctx.size(25, 600)):
        if ctx.time_up():
            break
        marks(ctx, aug, ctx.rng('marks', i), i)
        boot(ctx, aug, ctx.rng('boot', i), i)


def attrs(ctx, aug, r, i):
    exc = aug.exceptions
    d = ctx.newdir()
    names = ['f', 'dir', 'odd\udcff', 'é x', '-n']
    home = os.getcwd()
    shadow = {}
    for n in names:
        if n == 'dir':
            os.mkdir(d / n)
        else:
            (d / n).write_bytes(b'content')
        shadow[n] = {}
    os.symlink('f', d / 'ln')
    os.symlink('nope', d / 'broken')
    log = []
    wit = lambda: dict(i=i, log=log)
    rel = r.random() < .4
    keys = r.sample(KEYS, r.choice([2, 4, 8]))
    some = r.sample(names, 2) + ['ln']
    os.chdir(d)
    try:
        with ctx.case('attrs', wit):
            for _ in range(r.randrange(4, 25)):
                n = r.choice(some)
                real = 'f' if n == 'ln' else n
                ctx.count('through_link', n == 'ln')
                cls = r.choice([aug.EatPath, aug.LocalPath])
                p = cls(n if rel else os.path.join(d, n))
                sh = shadow[real]
                k = r.choice(keys)
                bk = k.encode()
                key = r.choice([k, bk])
                op = r.choice(['set', 'set', 'set', 'get', 'get', 'del', 'all', 'bulk', 'bad', 'nofile', 'big', 'ns'])
                log.append((op, n, k))
                if op == 'set':
                    v = r.choice([b'', b'\0', b'x', r.randbytes(r.randrange(1, 300)), 'é'.encode(), b'\xff\xfe'])
                    p.setxattr(key, v)
                    sh[bk] = v
                    ctx.count('set')
                    ctx.count('zero', not v)
                elif op == 'get':
                    if bk in sh:
                        got = p.getxattr(key)
                        ctx.expect(got == sh[bk] and type(got) is bytes, 'get', f'{got!r} for {sh[bk]!r}', wit)
                        ctx.count('get')
                    else:
                        try:
                            got = p.getxattr(key)
                            ctx.expect(False, 'get:missing', f'a missing attribute is {got!r}', wit)
                        except exc.NoStreamError:
                            ctx.count('get_missing')
                elif op == 'del':
                    fail = r.random() < .4
                    kw = dict(fail=True) if fail else {}
                    try:
                        p.delxattr(key, **kw)
                        raised = False
                    except OSError as e:
                        raised = True
                        ctx.expect(e.errno == errno.ENODATA, 'delete:errno', f'{e!r}', wit)
                    ctx.expect(raised == (fail and bk not in sh), 'delete:raise', f'deleting {k} with fail={fail} raised {raised}', wit)
                    ctx.count('delete' if bk in sh else ('delete_fail' if fail else 'delete_missing'))
                    sh.pop(bk, None)
                elif op == 'all':
                    got = p.xattrs()
                    ctx.expect(got == sh, 'all', lambda: f'{got} for {sh}', wit)
                    ctx.count('all')
                elif op == 'bulk':
                    new = {r.choice(keys): r.randbytes(5) for _ in range(r.randrange(4))}
                    p.setxattrs(new)
                    sh.update({a.encode(): b for a, b in new.items()})
                    ctx.count('bulk')
                elif op == 'bad':
                    try:
                        p.setxattr(key, r.choice(['text', 5, None, bytearray(b'x'), [1]]))
                        ctx.expect(False, 'set:type', 'a value that is not bytes was accepted', wit)
                    except TypeError:
                        ctx.count('not_bytes')
                elif op == 'nofile':
                    q = cls('missing' if r.random() < .5 else 'broken')
                    for f in (lambda: q.getxattr(key), lambda: q.setxattr(key, b'x'), lambda: q.delxattr(key), lambda: q.xattrs(),
                              lambda: q.delxattr(key, fail=True)):
                        try:
                            f()
                            ctx.expect(False, 'no file', 'an operation on a missing file raised nothing', wit)
                        except FileNotFoundError:
                            ctx.count('no_file')
                    ctx.expect(not os.path.lexists('missing'), 'no file:made', 'the file was made', wit)
                elif op == 'big':
                    try:
                        p.setxattr(key, b'x' * 70000)
                        ctx.expect(False, 'too big', 'an oversized value was accepted', wit)
                    except OSError:
                        ctx.count('too_big')
                elif op == 'ns':
                    ns = b'trusted' if os.geteuid() == 0 else b'user'
                    try:
                        p.setxattr('vp', b'1', namespace=ns)
                    except OSError:
                        ns = b'user'
                        p.setxattr('vp', b'1', namespace=ns)
                    ctx.expect(os.getxattr(os.path.join(d, n), ns.decode() + '.vp') == b'1' and p.getxattr('vp', namespace=ns) == b'1'
                               and b'vp' in p.xattrs(namespace=ns), 'namespace', 'another namespace', wit)
                    p.delxattr('vp', namespace=ns)
                    ctx.count('namespace')
                got = {x: sysattrs(os.path.join(d, x)) for x in names}
                ctx.expect(got == shadow, f'{op}:system', lambda: f'{op} {n} {k}: the system has {got[real]}, want {sh}', wit)
            for x in names:
                if x != 'dir':
                    ctx.expect((d / x).read_bytes() == b'content', 'content', 'the content changed', wit)
            ctx.seen(tuple(log), sum(map(len, shadow.values())) > 3)
    finally:
        os.chdir(home)
    common.force_rmtree(d)


def ask(ctx, w, nodes, marked, wit, kept=None):
    """ every path below the root, as local, as cache and as relative path """
    home = os.getcwd()
    for n in nodes:
        want, m = False, n
        while m is not None:
            want = want or m in marked
            m = m.parent
        p = w.local(n)
        if not os.path.lexists(p):
            continue
        got = p.is_sparse()
        ctx.expect(got is want, 'sparse:local', f'{w.store.path(n)} is_sparse {got}, want {want}', wit)
        c = p.cache
        if kept is not None:
            p, c = kept.setdefault(n, (p, c))   # the same objects as the last time
            ctx.expect(p.is_sparse() is want, 'sparse:again', f'{w.store.path(n)} asked again, want {want}', wit)
            ctx.count('sparse_again')
        ctx.expect(c.is_sparse() is want, 'sparse:cache', f'cache of {w.store.path(n)} is_sparse {c.is_sparse()}', wit)
        ctx.count('sparse_asked')
        ctx.count('sparse_cache')
        ctx.count('sparse_true' if want else 'sparse_false')
        ctx.count('sparse_placeholder', os.path.islink(p))
        if n.parent is not None:
            os.chdir(p.parent)
            try:
                got = w.L(n.name).is_sparse()
            finally:
                os.chdir(home)
            ctx.expect(got is want, 'sparse:relative', f'{n.name} inside of {p.parent} is_sparse {got}, want {want}', wit)
            ctx.count('sparse_relative')


def marks(ctx, aug, r, i):
    w = model.World(ctx, aug, r, ndirs=6, nfiles=6)
    log = []
    wit = lambda: dict(i=i, log=log)
    with ctx.case('marks', wit):
        w.bootstrap()
        for f in r.sample(w.files, 2):
            w.local(f).cache.fetch()
        nodes = list(w.store.rchildren(w.store.root)) + [w.store.root]
        markable = [n for n in nodes if not os.path.islink(w.where(n))]
        marked, kept = set(), {}
        for _ in range(r.randrange(1, 5)):
            n = r.choice(markable)
            p = w.local(n)
            q = p.cache if r.random() < .5 else p
            before = {x: w.meta_at(w.where(x)) for x in nodes}
            if n in marked or r.random() < .2:
                q._clear_sparse()
                marked.discard(n)
                log.append(('clear', n.name))
                ctx.count('sparse_cleared')
            else:
                q._mark_sparse()
                marked.add(n)
                log.append(('mark', n.name))
            ask(ctx, w, nodes, marked, wit, kept)
            ctx.expect({x: w.meta_at(w.where(x)) for x in nodes} == before, 'sparse:meta', 'a mark changed cached metadata', wit)
        ctx.seen(tuple(log), bool(marked))
        # a new process sees the same marks
        w.reopen()
        ask(ctx, w, nodes, marked, wit)
    w.close()


def boot(ctx, aug, r, i):
    """ bootstrapping part of a project sparsely marks exactly that part and leaves out what the remote excludes """
    w = model.World(ctx, aug, r, ndirs=5, nfiles=8)
    log = []
    wit = lambda: dict(i=i, log=log)
    with ctx.case('boot', wit):
        tops = [d for d in w.dirs if d.parent is w.store.root]
        if not tops:
            raise common.Skip()
        top = r.choice(tops)
        for f in w.files:
            f.sparse = r.random() < .5
        below = list(w.store.rchildren(top))
        p = w.local(top)
        p.mkdir()
        cache = w.C(p, meta=w.R(top.id).meta)
        cache.bootstrap(w.R(top.id).meta, recursive=True, sparse=(top.id,))
        here = {x.id for x in below if os.path.lexists(w.where(x))}
        want = {x.id for x in below if x.is_dir or x.sparse}
        log.append((top.name, sorted(x.name for x in below)))
        ctx.expect(here == want, 'sparse:included', lambda: f'made {sorted(here ^ want)} differently', wit)
        ask(ctx, w, [top, *below], {top}, wit)
        ctx.count('sparse_boot')
    w.close()
