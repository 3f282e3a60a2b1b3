""" recursive removal """
import os
import stat

from .. import common, gen, model

RULE = ('random trees with links in, out and around, hard links, odd names and file types removed while a complete snapshot '
        'of everything else is kept, with errors and substitutions injected between single removals, and protected paths in '
        'every disguise; non-trivial when something was removed or refused')


def snapshot(d):
    """ everything below d: kind, content, inode, number of names """
    out = {}
    for b, ds, fs in os.walk(os.fspath(d)):
        for n in ds + fs:
            p = os.path.join(b, n)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                v = ('link', os.readlink(p))
            elif stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as f:
                    v = ('file', f.read())
            else:
                v = (stat.S_IFMT(st.st_mode), None)
            out[p] = v
    return out


def plant(ctx, r, top, outside, n):
    """ fill the directory top with n things """
    dirs = [top]
    names = model.NAMES + ['..x', ' ', 'new\nline', 'a\\b', '-rf', '*', 'y\udcff']
    for _ in range(n):
        d = r.choice(dirs)
        p = os.path.join(d, r.choice(names) + r.choice(['', '', '0', '1', '2']))
        if os.path.lexists(p):
            continue
        k = r.randrange(12)
        if k < 4:
            os.mkdir(p)
            dirs.append(p)
        elif k < 7:
            with open(p, 'wb') as f:
                f.write(r.randbytes(r.randrange(20)))
            if r.random() < .2:
                os.chmod(p, 0)
        elif k == 7:
            os.symlink(r.choice([outside, os.path.join(outside, 'keep'), '..', '../..', '.', '/', p, 'nowhere/at/all',
                                 top, r.choice(dirs)]), p)
            ctx.count('links')
        elif k == 8:
            os.link(os.path.join(outside, 'keep'), p)
            ctx.count('hard_links')
        elif k == 9:
            os.mkfifo(p)
        elif k == 10:
            os.mkdir(p)
        else:
            os.symlink(outside + '/dir', p)
            ctx.count('links')
    return dirs


class Area:
    def __init__(self, ctx, aug, r, n=None):
        self.base = ctx.newdir()
        self.outside = os.path.join(self.base, 'outside')
        os.makedirs(os.path.join(self.outside, 'dir', 'sub'))
        for x in ('keep', 'dir/a', 'dir/sub/b'):
            with open(os.path.join(self.outside, x), 'w') as f:
                f.write(x)
        self.top = os.path.join(self.base, 'top')
        os.mkdir(self.top)
        self.beside = self.top + 'x'      # a name with the same prefix
        os.mkdir(self.beside)
        open(os.path.join(self.beside, 'f'), 'w').close()
        self.dirs = plant(ctx, r, self.top, self.outside, r.randrange(0, 25) if n is None else n)

    def rest(self, snap):
        return {k: v for k, v in snap.items() if k != self.top and not k.startswith(self.top + '/')}

    def done(self):
        common.force_rmtree(self.base)


def main(ctx):
    aug = common.load_library()
    ctx.require('removed', 'links', 'hard_links', 'single', 'linked_dir_refused', 'linked_dir_danger', 'missing', 'protected', 'fault_raise',
                'fault_ignore', 'fault_onerror', 'fault_link', 'swapped', 'empty_removed', 'empty_kept', 'empty_unreadable', 'empty_late',
                'relative', 'cwd', 'cwd_parent', 'truthy', 'through_link', 'dangerzone', 'cache')
    i = 0
    steps = [remove, remove, faults, faults, swapped, empty, empty, refuse]
    n = ctx.size(640, 20000)
    while i < n and ctx.left() > ctx.budget * .3:
        r = ctx.rng('rm', i)
        steps[i % len(steps)](ctx, aug, r, i)
        i += 1
    for i in range(ctx.size(6, 100)):
        if ctx.time_up():
            break
        cache(ctx, aug, ctx.rng('cache', i), i)
    protected(ctx, aug)


def remove(ctx, aug, r, i):
    a = Area(ctx, aug, r)
    cls = r.choice([aug.AugmentedPath, aug.LocalPath, aug.XopenPath])
    snap = snapshot(a.top)
    links = sorted(k for k in snap if os.path.islink(k) and os.path.isdir(k))
    if links and r.random() < .3:
        what = r.choice(links)
    else:
        what = r.choice(sorted(snap)) if r.random() < .3 and snap else a.top
    wit = lambda: dict(i=i, what=what, before=sorted(before))
    before = snapshot(a.base)
    want = {k: v for k, v in before.items() if k != what and not k.startswith(what + '/')}
    with ctx.case('rmtree', wit):
        p = cls(what)
        if os.path.islink(what) and os.path.isdir(what):
            kw = r.choice([{}, dict(ignore_errors=True), dict(DANGERZONE=True), dict(DANGERZONE=True, ignore_errors=True)])
            try:
                p.rmtree(**kw)
                ctx.expect('ignore_errors' in kw, 'link to a directory', 'a link to a directory was removed recursively', wit)
            except OSError:
                pass
            want = before
            ctx.count('linked_dir_danger', 'DANGERZONE' in kw)
            ctx.count('linked_dir_refused')
        else:
            kw = r.choice([{}, {}, dict(ignore_errors=True), dict(DANGERZONE=True)])
            p.rmtree(**kw)
            ctx.count('removed' if what == a.top else 'single')
            ctx.count('dangerzone', 'DANGERZONE' in kw)
        now = snapshot(a.base)
        ctx.expect(now == want, 'rmtree:exact', lambda: f'{what}: left {sorted(set(now) - set(want))[:5]}, lost '
                   f'{sorted(set(want) - set(now))[:5]}', wit)
        ctx.seen(('rm', tuple(sorted(str(v[0]) for v in before.values())), what == a.top))
        try:
            cls(a.base / 'never').rmtree()
            ctx.expect(False, 'missing', 'removing what does not exist raised nothing', wit)
        except FileNotFoundError:
            ctx.count('missing')
    a.done()


def faults(ctx, aug, r, i):
    """ one thing in the tree cannot be removed """
    a = Area(ctx, aug, r, r.randrange(2, 25))
    before = snapshot(a.base)
    cands = [k for k in before if k.startswith(a.top + '/')]
    if not cands:
        a.done()
        return
    victim = r.choice(sorted(cands))
    how = r.choice(['raise', 'ignore', 'onerror'])
    hit = []

    def obs(event, args):
        if event in ('os.remove', 'os.rmdir') and os.path.normpath(os.fspath(args[0])) == victim and not retry:
            hit.append(event)
            raise PermissionError(13, 'injected', victim)

    calls, retry = [], []

    def onerror(func, path, info):
        calls.append((getattr(func, '__name__', '?'), os.fspath(path), info))
        if path_is(path, victim) and again:
            retry.append(1)
            func()      # the cause is gone, the same call again

    def path_is(p, q):
        return os.path.normpath(os.fspath(p)) == q

    again = r.random() < .4
    wit = lambda: dict(i=i, victim=victim, how=how, again=again, calls=[c[:2] for c in calls], before=sorted(before))
    with ctx.case('fault', wit):
        p = aug.AugmentedPath(a.top)
        raised = None
        with common.guard.observe(obs):
            try:
                if how == 'raise':
                    p.rmtree()
                elif how == 'ignore':
                    p.rmtree(ignore_errors=True)
                else:
                    p.rmtree(onerror=onerror)
            except OSError as e:
                raised = e
        now = snapshot(a.base)
        ctx.count('fault_' + how)
        ctx.expect(hit, 'fault:skipped', 'the undeletable thing was never tried', wit)
        ctx.expect(a.rest(now) == a.rest(before), 'fault:outside', 'something outside the tree changed', wit)
        ctx.expect(all(before[k] == v for k, v in now.items()), 'fault:changed', 'what is left is not what was there', wit)
        stays = {victim} | {k for k in before if victim.startswith(k + '/')}
        gone = how == 'onerror' and again
        if how == 'raise':
            ctx.expect(isinstance(raised, PermissionError), 'fault:swallowed', f'the error was lost: {raised!r}', wit)
            ctx.expect(stays <= set(now), 'fault:victim', 'a parent of what cannot be removed is gone', wit)
        else:
            ctx.expect(raised is None, f'fault:{how} raised', lambda: f'{raised!r}', wit)
            want = set(a.rest(before)) | (set() if gone else {k for k in stays if k.startswith(a.top)})
            ctx.expect(set(now) == want, f'fault:{how} rest', lambda: f'left {sorted(set(now) - want)[:4]} '
                       f'lost {sorted(want - set(now))[:4]}', wit)
        if how == 'onerror':
            first = calls[0] if calls else None
            isdir = before[victim][0] == stat.S_IFDIR
            ctx.count('fault_link', before[victim][0] == 'link')
            ctx.expect(first is not None and path_is(first[1], victim)
                       and first[0] == ('rmdir' if isdir else 'unlink')
                       and isinstance(first[2][1], PermissionError), 'fault:onerror call',
                       lambda: f'{first and first[:2]} for {victim}', wit)
            ups = [] if gone else [k for k in stays if k.startswith(a.top) and k != victim]
            ctx.expect(sorted(c[1] for c in calls[1:]) == sorted(ups), 'fault:onerror parents',
                       lambda: f'reported {[c[:2] for c in calls]}', wit)
        ctx.seen(('fault', how, again, len(before), hit and hit[0]))
    a.done()


def swapped(ctx, aug, r, i):
    """ while the tree is being removed one of its directories becomes a link to the outside """
    a = Area(ctx, aug, r, r.randrange(4, 25))
    before = snapshot(a.base)
    done = []
    when = r.randrange(0, 6)
    seen = []

    def obs(event, args):
        if event in ('os.remove', 'os.rmdir'):
            seen.append(event)
            if len(seen) > when and not done:
                with common.guard.off():
                    ds = [k for k, v in before.items() if k.startswith(a.top + '/') and os.path.isdir(k)
                          and not os.path.islink(k) and not os.fspath(args[0]).startswith(k)]
                    if ds:
                        d = r.choice(sorted(ds))
                        os.rename(d, os.path.join(a.base, 'aside'))
                        os.symlink(a.outside, d)
                        done.append(d)

    kw = r.choice([{}, dict(ignore_errors=True), dict(DANGERZONE=True), dict(DANGERZONE=True, ignore_errors=True)])
    wit = lambda: dict(i=i, done=done, kw=kw, before=sorted(before))
    with ctx.case('swap', wit):
        try:
            with common.guard.observe(obs):
                aug.AugmentedPath(a.top).rmtree(**kw)
        except OSError:
            pass
        now = snapshot(a.base)
        out = lambda s: {k: v for k, v in s.items() if k.startswith((a.outside, a.beside))}
        ctx.expect(out(now) == out(before), 'swap:followed', 'removal went through a link that appeared meanwhile', wit)
        ctx.count('swapped', bool(done))
        ctx.seen(('swap', when, len(before)), bool(done))
    a.done()


def empties(before, top):
    """ directories below and including top with nothing but such directories in them """
    kids = {}
    for k in before:
        kids.setdefault(os.path.dirname(k), []).append(k)

    def walk(d):
        ok = [walk(k) if before[k][0] == stat.S_IFDIR else False for k in kids.get(d, ())]
        if all(ok):
            out.add(d)
            return True
        return False

    out = set()
    walk(top)
    return out


def empty(ctx, aug, r, i):
    a = Area(ctx, aug, r, r.choice([0, 3, 12, 30]))
    for _ in range(r.choice([0, 0, 1, 5])):
        d = r.choice(a.dirs)
        for _ in range(r.randrange(1, 4)):
            d = os.path.join(d, 'e%d' % r.randrange(3))
        os.makedirs(d, exist_ok=True)
    before = snapshot(a.base)
    top = r.choice(a.dirs) if r.random() < .3 else a.top
    want = empties(before, top)
    alld = sorted(k for k, v in before.items() if v[0] == stat.S_IFDIR and (k + '/').startswith(top + '/'))
    mode = r.choice(['plain', 'plain', 'unreadable', 'late', 'link'])
    victim = r.choice(sorted(want)) if want and mode == 'late' else r.choice(alld)
    late = []

    def obs(event, args):
        if not args or not isinstance(args[0], (str, os.PathLike)):
            return
        at = os.path.normpath(os.fspath(args[0]))
        if mode == 'unreadable' and event in ('os.scandir', 'os.listdir') and at == victim:
            raise PermissionError(13, 'injected', victim)
        if mode == 'late' and event == 'os.rmdir' and at == victim and not late:
            with common.guard.off():
                with open(os.path.join(victim, 'late'), 'w') as f:
                    f.write('late')
            late.append(1)

    wit = lambda: dict(i=i, top=top, mode=mode, victim=victim, before=sorted(before), want=sorted(want))
    with ctx.case('empty', wit):
        p = aug.AugmentedPath(top)
        if mode == 'link':
            ln = a.base / 'ln'
            os.symlink(top, ln)
            before = snapshot(a.base)
            try:
                aug.AugmentedPath(ln).rmdirtree()
                ctx.expect(False, 'rmdirtree:link', 'a link was accepted', wit)
            except NotADirectoryError:
                pass
            want = set()
        else:
            with common.guard.observe(obs):
                try:
                    p.rmdirtree()
                except OSError:
                    if mode != 'late':
                        raise
        now = snapshot(a.base)
        if mode == 'late' and late:
            ctx.expect(now.get(victim + '/late') == ('file', b'late'), 'rmdirtree:late', 'a new file was lost', wit)
            ctx.expect(all(k in now for k in before if k not in want) and set(now) <= set(before) | {victim + '/late'},
                       'rmdirtree:late rest', 'something that was not empty is gone', wit)
            ctx.count('empty_late')
        else:
            if mode == 'unreadable':
                want = {k for k in want if k != victim and not victim.startswith(k + '/')
                        and not k.startswith(victim + '/')}
                ctx.count('empty_unreadable')
            w = {k: v for k, v in before.items() if k not in want}
            ctx.expect(now == w, 'rmdirtree:exact', lambda: f'left {sorted(set(now) - set(w))[:4]} '
                       f'lost {sorted(set(w) - set(now))[:4]}', wit)
            ctx.count('empty_removed', len(want))
            ctx.count('empty_kept', len(alld) - len(want))
        ctx.seen(('empty', mode, len(alld), len(want)), bool(alld))
    a.done()


def refuse(ctx, aug, r, i):
    """ paths that are refused because of where the process is or how they are written """
    exc = aug.exceptions
    a = Area(ctx, aug, r, r.randrange(2, 12))
    deep = os.path.join(a.top, 'in', 'side')
    os.makedirs(deep, exist_ok=True)
    home = os.getcwd()
    link = os.path.join(a.base, 'ln')
    os.symlink(a.base, link)
    before = snapshot(a.base)
    kind = r.choice(['relative', 'cwd', 'cwd_parent', 'truthy', 'through_link', 'dots'])
    where = deep
    kw = {}
    if kind == 'relative':
        where = a.base
        what = r.choice(['top', './top', 'ln/top', '../' + a.base.name + '/top', 'ln'])
    elif kind == 'cwd':
        what = deep
    elif kind == 'cwd_parent':
        what = r.choice([a.top, os.path.dirname(deep), str(a.base)])
    elif kind == 'truthy':
        what, kw = r.choice([deep, a.top]), dict(DANGERZONE=r.choice([1, 'yes', [1], 'True', 1.0]))
    elif kind == 'through_link':
        what = link + r.choice(['/top/in/side', '/top/in', '/top', '/ln/top'])
    else:
        what = r.choice([deep + '/..', deep + '/../side', a.top + '/../top', a.outside + '/../top/in',
                         deep + '/../..', a.outside + '/dir/../../ln/top'])
    kw.update(r.choice([{}, {}, dict(ignore_errors=True), dict(onerror=lambda *x: None)]))
    wit = lambda: dict(i=i, what=what, cwd=where, kw=repr(kw))
    with ctx.case('refuse', wit):
        os.chdir(where)
        try:
            aug.AugmentedPath(what).rmtree(**kw)
            ctx.expect(False, f'refuse:{kind}', f'{what} was removed from {where}', wit)
        except exc.WillNotRemovePathError:
            pass
        finally:
            os.chdir(home)
        ctx.count('through_link' if kind == 'dots' else kind)
        ctx.expect(snapshot(a.base) == before, f'refuse:{kind} damage', 'a refused removal removed something', wit)
        ctx.seen(('refuse', kind, what.replace(str(a.base), ''), tuple(kw)))
        # the same directory is fine from elsewhere
        if kind in ('cwd', 'cwd_parent') and what != str(a.base):
            aug.AugmentedPath(what).rmtree()
            ctx.expect(not os.path.lexists(what), 'refuse:too much', f'{what} is still there', wit)
    a.done()


def cache(ctx, aug, r, i):
    """ removing a cached directory takes its placeholders and files and nothing else """
    w = model.World(ctx, aug, r, ndirs=5, nfiles=9)
    with ctx.case('cache', lambda: dict(i=i)):
        w.bootstrap()
        for f in w.files:
            if r.random() < .5:
                w.local(f).cache.fetch()
        node = r.choice(w.dirs[1:])
        p = w.local(node)
        before = snapshot(w.base)
        (p.cache if r.random() < .7 else p).rmtree()
        now = snapshot(w.base)
        want = {k: v for k, v in before.items() if k != str(p) and not k.startswith(str(p) + '/')}
        ctx.expect(now == want, 'cache:exact', lambda: f'left {sorted(set(now) - set(want))[:4]} '
                   f'lost {sorted(set(want) - set(now))[:4]}', lambda: dict(i=i, p=str(p)))
        ctx.count('cache')
    w.close()


def protected(ctx, aug):
    """ top level and home directories, as an unprivileged user with every removal vetoed """
    d = ctx.newdir()
    links = dict(root='/', tmp='/tmp', etc='/etc', home='/home', usrbin='/usr/bin')
    for k, v in links.items():
        os.symlink(v, d / k)
    S = str(d)
    whats = ['/', '//', '/etc', '/usr/', '/home', '/tmp', '/home/someone', '/home/x.y', '/etc/../usr', '/usr/bin/..',
             '/usr/bin/../../etc', '/home/./someone',
             f'{S}/root/etc', f'{S}/root/usr', f'{S}/root/home/someone', f'{S}/home/someone', f'{S}/usrbin/../../etc',
             f'{S}/etc/../usr', f'{S}/root/home', f'{S}/tmp/../etc', f'{S}/../../../etc', f'{S}/../..',
             '/tmp/../home/someone', '/no/such/../../etc', '/nonexistent', '/home/nonexistent']

    def tryit(what, kw):
        def fn():
            os.setgid(65534)
            os.setuid(65534)
            os.chdir('/')
            try:
                aug.AugmentedPath(what).rmtree(**kw)
                return 'removed'
            except BaseException as e:
                return type(e).__name__
        return common.fork_child(fn)

    for what in whats:
        for kw in ({}, dict(DANGERZONE=1)):
            with ctx.case('protected', lambda: what):
                code, got = tryit(what, kw)
                ctx.expect(code == 0 and got == 'WillNotRemovePathError', 'protected', f'{what} {kw}: {got!r}', what)
                ctx.count('protected')
                ctx.seen(('protected', what.replace(S, 'S'), bool(kw)))
    with ctx.case('not protected'):
        code, got = tryit('/home/someone/not-there', {})
        ctx.expect(got != 'WillNotRemovePathError', 'protected:too much', f'{got}')
