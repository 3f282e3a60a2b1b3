""" paths on another machine, read through ssh """
import hashlib
import os
import shutil
import stat
import subprocess
import threading
from pathlib import Path, PurePosixPath

from .. import common

RULE = ('random trees behind a stand-in for ssh that runs the real shell and coreutils as another user, compared with the same tree seen '
        'without ssh; non-trivial when a name means something to a shell or terminal, something failed, or several threads ask')

SSH = '''#!/bin/bash
# stand-in for ssh: the other machine is a folder on this one
while [ $# -gt 0 ]; do
  case "$1" in
    -q|-t|-T|-n|-A|-x) shift;;
    -*) shift 2;;
    *) break;;
  esac
done
shift
export HOME=@HOME@ LC_ALL=@LOCALE@ PATH=@BIN@:$PATH
cd "$HOME" || exit 255
echo "$$ $#" >> @LOG@
if [ $# -eq 0 ]; then exec @AS@ bash --noprofile --norc -i; fi
exec 2>> @LOG@
if [ -e @FAULT@ ]; then
  read -r n rc < @FAULT@
  @AS@ bash -c "$*" | head -c "$n"
  exit "$rc"
fi
exec @AS@ bash -c "$*"
'''
SLOW = '''#!/bin/bash
[ -e @SLOW@ ] && sleep 1
exec @REAL@ "$@"
'''
WORDS = ['plain', 'with space', ' lead', 'trail ', 'two  spaces', "it's", 'do"uble', "both'\"", '$HOME', '${IFS}x', '$(echo hi)', '`echo hi`',
         'a;b', 'a&b', 'a|b', 'a>b', 'a<b', '(x)', '{a,b}', '[ab]', '*', '?', '~', '!x', '!!', '#c', '%s', '%n', 'back\\slash', '\\n', '\\', '-n', '--help',
         '-', 'é漢', 'combining e\u0301', 'new\nline', '\n', 'tab\t', 'ctrl\x03c', 'esc\x1b[A', 'del\x7f', 'bell\x07', 'cr\rx', '\x04', '\x15', '\x16\x03', '\udcff\udcfe',
         'No such file or directory', 'Permission denied', 'directory', 'x' * 40, '0', '=', 'a=b', '.hidden', '...', 'a:b', 'echo', 'e\x00'.strip('\0'), '^a^b', "$'x'", "'", '"', '""']


class Box:
    """ another machine and a session with it """

    def __init__(self, ctx, aug, r):
        from augpathlib.caches import SshCache
        from augpathlib.remotes import SshRemote
        self.dir = ctx.newdir()
        self.bin, self.home = self.dir / 'b', self.dir / 'r'
        self.bin.mkdir(); self.home.mkdir()
        rbin = self.dir / 'rb'
        rbin.mkdir()
        self.log, self.fault, self.slow = (self.dir / x for x in ('log', 'fault', 'slow'))
        self.log.touch()
        self.log.chmod(0o666)
        self.other = os.getuid() == 0 and subprocess.run(
            ['setpriv', '--reuid=65534', '--regid=65534', '--groups=60001,60002', 'true'], capture_output=True).returncode == 0
        s = SSH
        for k, v in dict(HOME=self.home, LOG=self.log, FAULT=self.fault, BIN=rbin, LOCALE=r.choice(['C', 'C.UTF-8']),
                         AS='setpriv --reuid=65534 --regid=65534 --groups=60001,60002' if self.other else '').items():
            s = s.replace(f'@{k}@', str(v))
        (self.bin / 'ssh').write_text(s)
        (self.bin / 'ssh').chmod(0o755)
        for cmd in ('b2sum', 'sha256sum'):
            (rbin / cmd).write_text(SLOW.replace('@SLOW@', str(self.slow)).replace('@REAL@', shutil.which(cmd)))
            (rbin / cmd).chmod(0o755)
        me = self.dir / 'me'
        (me / '.ssh').mkdir(parents=True)
        (me / '.ssh/config').write_text('Host host\n  HostName localhost\n  User me\n')
        self.was = dict(os.environ)
        os.environ.update(PATH=f'{self.bin}:{os.environ["PATH"]}', HOME=str(me))
        self.cwd = os.getcwd()
        self.tree = self.home / 't'
        self.tree.mkdir()

        class L(aug.LocalPath):
            pass
        L._bind_flavours()

        class C(SshCache):
            cypher = r.choice([hashlib.blake2b, hashlib.sha256])
        C._bind_flavours()
        self.R = SshRemote._new(L, C)
        self.L, self.C = L, C
        self.local = self.dir / 'l'
        (self.local / 't').mkdir(parents=True)
        self.anchor = L(self.local, 't').cache_init(f'host:{self.tree}', anchor=True)
        self.R.session.delaybeforesend = None
        self.asked = 0

    def readable(self, p):
        """ for the user on the other side """
        if not self.other:
            return True
        return all(self.may(x, 1) for x in p.parents if str(x).startswith(str(self.home))) and self.may(p, 4)

    def may(self, p, bit):
        st = os.lstat(p)
        shift = 6 if st.st_uid == 65534 else 3 if st.st_gid in (65534, 60001, 60002) else 0
        return bool(st.st_mode >> shift & bit)

    def at(self, p):
        """ by its path or by its id """
        self.asked += 1
        return self.R(f'host:{p}' if self.asked % 3 == 0 else str(p))

    def snapshot(self):
        out = {}
        for d, ds, fs in os.walk(self.home):
            for x in ds + fs:
                p = os.path.join(d, x)
                st = os.lstat(p)
                out[p] = (st.st_mode, st.st_size if stat.S_ISREG(st.st_mode) else None, st.st_mtime_ns)
        return out

    def close(self):
        try:
            self.R.session.close(force=True)
        except Exception:
            pass
        os.chdir(self.cwd)
        os.environ.clear()
        os.environ.update(self.was)
        common.force_rmtree(self.dir)


def strange(r):
    k = r.random()
    if k < .7:
        n = r.choice(WORDS)
    elif k < .85:
        n = ''.join(chr(r.choice([*range(1, 47), *range(48, 128)])) for _ in range(r.randint(1, 8)))
    else:
        n = r.choice(WORDS)[:14] + r.choice(WORDS)[:14]
    n = n.replace('/', '_')
    return 'dots' if n in ('', '.', '..') else n


def content(r):
    k = r.random()
    if k < .15:
        return b''
    return r.choice([r.randbytes(r.randint(1, 300)), b'line\r\n' * 5, bytes(range(256)) * r.choice([1, 16, 33]), b'\0', b'x' * 4096, r.randbytes(4097)])


def fill(b, r):
    dirs, files = [b.tree], []
    for _ in range(r.randint(0, 2)):
        p = r.choice(dirs) / strange(r)
        if not p.exists() and not p.is_symlink():
            p.mkdir()
            dirs.append(p)
    for k in range(9):
        p = r.choice(dirs) / strange(r)
        if k == 8:
            # about as long as what fits on a line
            n = r.randint(100, 230) - len(str(b.tree))
            p = b.tree / ('l' * n)
        if p.exists() or p.is_symlink():
            continue
        p.write_bytes(content(r))
        os.utime(p, ns=tuple(10**9 * r.randint(10, 2 * 10**9) + r.choice([r.randrange(10**9), 0, 1, 10**8, 999999999]) for _ in 'am'))
        p.chmod(r.choice([0o644, 0o644, 0o664, 0o755, 0o640, 0o000, 0o600, 0o750, 0o711, 0o4755]))
        if b.other and r.random() < .5:
            mode = p.stat().st_mode
            os.chown(p, r.choice([0, 65534, 60007]), r.choice([0, 65534, 60001, 60002, 60009]))
            p.chmod(mode)
        files.append(p)
    return dirs, files


def outcome(fn):
    try:
        return 'value', fn()
    except (common.Hang, common.Veto):
        raise
    except Exception as e:
        return 'error', e


def main(ctx):
    aug = common.load_library()
    from augpathlib import exceptions as exc
    global TooLong
    TooLong = exc.CommandTooLongError
    if 'VP_BUDGET' not in os.environ and not ctx.thorough:
        ctx.budget = 60
    for i in range(ctx.size(4, 60)):
        if ctx.time_up() or any(k.endswith(':hang') for k in ctx.violations):
            break
        r = ctx.rng(i)
        b = None
        plan = dict(i=i)
        try:
            with ctx.case('login', plan):
                b = Box(ctx, aug, r)
            if b is None:
                break
            ctx.count('sessions')
            ctx.count('other_user', b.other)
            with ctx.case('edge', plan):
                edge(ctx, b, lambda: dict(plan))
            for j in range(ctx.size(6, 12)):
                if ctx.time_up() or any(k.endswith(':hang') for k in ctx.violations):
                    break
                rr = ctx.rng(i, j)
                plan = dict(i=i, j=j)
                with ctx.case('remote', lambda: dict(plan)):
                    one(ctx, b, rr, plan)
            ctx.count('commands', len(b.log.read_bytes().splitlines()))
        finally:
            if b is not None:
                b.close()
    ctx.require('sessions', 'too_long', 'edge', 'file', 'missing', 'cut', 'threads', 'slow', 'mapped', 'again', 'strange')
    ctx.assumptions = ['ssh is replaced by a program that starts the same shell on this machine', 'the shell on the other side is bash with GNU coreutils']


def one(ctx, b, r, plan):
    dirs, files = fill(b, r)
    plan['files'] = [repr(str(p.relative_to(b.tree))) for p in files]
    wit = lambda: dict(plan)
    before = b.snapshot()
    for p in files:
        look(ctx, b, p, wit)
    for d in dirs:
        rp = b.at(d)
        ctx.expect(outcome(rp.is_dir) == ('value', True) and outcome(rp.is_file) == ('value', False), 'dir:kind', lambda: f'{d} {outcome(rp.is_dir)} {outcome(rp.is_file)}', wit)
        o = outcome(rp.exists)
        ctx.expect(o == ('value', True) or isinstance(o[1], TooLong), 'dir:exists', lambda: f'{d} {o}', wit)
        o = outcome(lambda: b''.join(rp.data))
        ctx.expect(isinstance(o[1], (OSError, TooLong)), 'dir:data', lambda: f'{d} {o}', wit)
    for _ in range(3):
        p = r.choice(dirs) / strange(r)
        if r.random() < .3 and files:
            p = r.choice(files) / 'below a file'
        try:
            os.lstat(p)
        except OSError:
            missing(ctx, b, p, wit)
    if files:
        whole = [p for p in files if b.readable(p)]
        if whole:
            cut(ctx, b, r, r.choice(whole), wit)
            threads(ctx, b, r, whole, wit)
        top = [p for p in whole if p.parent == b.tree]
        if top:
            mapped(ctx, b, r, r.choice(top), wit)
        if whole and r.random() < .4:
            slow(ctx, b, r, whole, wit)
    after = b.snapshot()
    ctx.expect(before == after, 'changed', lambda: f'{[(k, before.get(k), after.get(k)) for k in {*before, *after} if before.get(k) != after.get(k)]}', wit)
    if files:
        history(ctx, b, r, r.choice(files), wit)
    for x in os.listdir(b.local / 't'):
        if x != '.operations':
            (b.local / 't' / x).unlink()
    for x in os.listdir(b.tree):
        p = b.tree / x
        common.force_rmtree(p) if p.is_dir() and not p.is_symlink() else p.unlink()


def look(ctx, b, p, wit, rp=None):
    data, st = p.read_bytes(), os.stat(p)
    name = p.name
    odd = bool(set(name) - set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-'))
    ctx.count('file')
    ctx.count('strange', odd)
    ctx.seen((str(p.relative_to(b.tree)), len(data)), odd or not b.readable(p) or not data)
    ctx.sample(dict(name=repr(name), size=len(data), mode=oct(st.st_mode)), 12) if odd else None
    rp = rp or b.at(p)

    def is_(what, fn, ok, closed=None):
        """ right, refused because it can not be asked, or an error if it is closed """
        o = outcome(fn)
        if o[0] == 'error' and isinstance(o[1], TooLong):
            ctx.count('too_long')
            return
        if closed is not None and not b.readable(p):
            ctx.count('closed')
            ctx.expect(closed(o), f'closed:{what}', lambda: f'{p!r} {oct(st.st_mode)} {o!r}', wit)
            return
        ctx.expect(o[0] == 'value' and ok(o[1]), f'file:{what}', lambda: f'{p!r} {o!r}', wit)
    fails = lambda o: o[0] == 'error' and isinstance(o[1], OSError)
    is_('data', lambda: list(rp.data), lambda v: b''.join(v) == data and all(v), fails)
    is_('checksum', rp.checksum, lambda v: v == b.C.cypher(data).digest(), lambda o: o[0] == 'error' and isinstance(o[1], PermissionError))
    is_('exists', rp.exists, lambda v: v is True)
    is_('is_file', rp.is_file, lambda v: v is True)
    is_('is_dir', rp.is_dir, lambda v: v is False)
    for k, (mode, flag, bit) in enumerate((('read', os.R_OK, 4), ('write', os.W_OK, 2), ('execute', os.X_OK, 1))):
        if b.other:
            is_(mode, lambda: bool(rp.access((mode, flag)[len(name) % 2])), lambda v: v is b.may(p, bit), lambda o: o == ('value', b.may(p, bit)))
    is_('id', lambda: (rp.id, rp.name), lambda v: v == (f'host:{p}', name))
    is_('parent', lambda: (rp.parent.rpath, rp.parent == b.at(p.parent)), lambda v: v == (str(p.parent), True))

    def same(s):
        return ((s.st_size, s.st_mode, s.st_uid, s.st_gid, s.st_ino) == (st.st_size, st.st_mode, st.st_uid, st.st_gid, st.st_ino)
                and abs(s.st_mtime - st.st_mtime) < 1e-6 and abs(s.st_atime - os.stat(p).st_atime) < 1e-6 and abs(s.st_ctime - st.st_ctime) < 1e-6)
    is_('stat', rp.stat, same)
    want = {k: v for k, v in b.L(p).meta.items() if k not in ('id', 'parent_id')}
    is_('meta', lambda: {k: v for k, v in rp.meta.items() if k not in ('id', 'parent_id')},
        lambda v: v == want, lambda o: o[0] == 'error' or o[1]['checksum'] is None)


def edge(ctx, b, wit):
    """ commands about as long as a line """
    base = len(str(b.tree)) + 1
    for what, want in (('is_file', True), ('size', 1), ('checksum', b.C.cypher(b'x').digest())):
        def ask(n):
            p = b.tree / ('l' * n)
            p.write_bytes(b'x')
            rp = b.at(p)
            try:
                return outcome(lambda: rp.stat().st_size if what == 'size' else getattr(rp, what)())
            finally:
                p.unlink()
        low, high = 60 - base % 30, 250
        while high - low > 1:
            mid = (low + high) // 2
            if isinstance(ask(mid)[1], TooLong):
                high = mid
            else:
                low = mid
        for n in range(max(low - 30, 1), min(low + 4, 250)):
            o = ask(n)
            ctx.count('edge')
            ctx.expect(o == ('value', want) or isinstance(o[1], TooLong), f'edge:{what}', lambda: f'{base + n} {o!r}', wit)


def missing(ctx, b, p, wit, rp=None):
    ctx.count('missing')
    ctx.seen(('missing', str(p.relative_to(b.tree))))
    rp = rp or b.at(p)
    try:
        for what, ok in (('exists', lambda o: o == ('value', False)), ('is_file', lambda o: o == ('value', False)),
                         ('is_dir', lambda o: o == ('value', False)),
                         ('stat', lambda o: isinstance(o[1], (FileNotFoundError, NotADirectoryError))),
                         ('checksum', lambda o: isinstance(o[1], (FileNotFoundError, NotADirectoryError)))):
            o = outcome(getattr(rp, what))
            ctx.expect(ok(o) or isinstance(o[1], TooLong), f'missing:{what}', lambda: f'{p!r} {o!r}', wit)
        o = outcome(lambda: list(rp.data))
        ctx.expect(o[0] == 'error' and isinstance(o[1], (FileNotFoundError, NotADirectoryError, TooLong)), 'missing:data', lambda: f'{p!r} {o!r}', wit)
    finally:
        pass


def cut(ctx, b, r, p, wit):
    """ the connection fails after some of the content """
    data = p.read_bytes()
    n = r.choice([0, 1, len(data) // 2, max(len(data) - 1, 0), len(data)])
    b.fault.write_text(f'{n} {r.choice([255, 255, 1, 137])}\n')
    try:
        got, err = [], None
        try:
            for c in b.at(p).data:
                got.append(c)
        except Exception as e:
            err = e
    finally:
        b.fault.unlink()
    ctx.count('cut')
    ctx.seen(('cut', p.name, n))
    ctx.expect(err is not None and not isinstance(err, FileNotFoundError), 'cut:silent', lambda: f'{p!r} {n} of {len(data)} {err!r}', wit)
    ctx.expect(b''.join(got) == data[:n], 'cut:data', lambda: f'{p!r} {n} of {len(data)}', wit)
    # somebody who only wants the start
    g = b.at(p).data
    first = next(g, b'')
    g.close()
    ctx.expect(data.startswith(first), 'start', lambda: f'{p!r}', wit)


def threads(ctx, b, r, files, wit):
    jobs = [r.choice(files) for _ in range(4)]
    bad, start = [], threading.Barrier(len(jobs))

    def work(p, kind):
        try:
            rp = b.at(p)
            start.wait(10)
            for _ in range(3):
                if kind == 0 and rp.checksum() != b.C.cypher(p.read_bytes()).digest():
                    bad.append((p, 'checksum'))
                if kind == 1 and rp.stat().st_ino != os.stat(p).st_ino:
                    bad.append((p, 'stat'))
                if kind == 2 and (not rp.is_file() or rp.is_dir()):
                    bad.append((p, 'kind'))
                if kind == 3 and b''.join(rp.data) != p.read_bytes():
                    bad.append((p, 'data'))
        except TooLong:
            pass
        except Exception as e:
            bad.append((p, repr(e)))
    ts = [threading.Thread(target=work, args=(p, (k + r.randrange(2)) % 4), daemon=True) for k, p in enumerate(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(15)
    ctx.count('threads', len(ts))
    ctx.seen(('threads', [p.name for p in jobs]))
    ctx.expect(not any(t.is_alive() for t in ts), 'threads:stuck', lambda: f'{jobs}', wit)
    ctx.expect(not bad, 'threads:wrong', lambda: f'{bad}', wit)


def slow(ctx, b, r, files, wit):
    """ an answer that takes longer than the session usually waits """
    p, q = r.choice(files), r.choice(files)
    b.slow.touch()
    timeout, b.R.session.timeout = b.R.session.timeout, .3
    try:
        o = outcome(b.at(p).checksum)
    finally:
        b.slow.unlink()
        b.R.session.timeout = timeout
    ctx.count('slow')
    ok = lambda o, p: o[0] == 'error' or o[1] == b.C.cypher(p.read_bytes()).digest()
    ctx.expect(ok(o, p), 'slow:wrong', lambda: f'{p!r} {o!r}', wit)
    o2 = outcome(b.at(q).checksum)
    ctx.expect(o2[0] == 'value' and ok(o2, q) or isinstance(o2[1], TooLong), 'slow:next', lambda: f'{q!r} {o2!r}', wit)


def mapped(ctx, b, r, p, wit):
    """ the place in the local tree that stands for it """
    rp = b.at(p)
    try:
        cache = rp.cache_init()
    except (TooLong, ValueError):   # there are ids that a placeholder can not have
        return
    local = b.local / 't' / p.relative_to(b.tree)
    data = p.read_bytes()
    ctx.count('mapped')
    ctx.expect(os.path.islink(local), 'mapped:placeholder', lambda: f'{p!r} {local!r}', wit)
    m = b.L(local).cache.meta
    ctx.expect(m is not None and m.checksum == b.C.cypher(data).digest() and m.size == len(data), 'mapped:meta', lambda: f'{p!r} {m!r}', wit)
    ctx.expect(b.L(local).remote.rpath == str(p), 'mapped:remote', lambda: f'{p!r} {b.L(local).remote!r}', wit)
    ctx.expect(rp.local == b.L(local), 'mapped:local', lambda: f'{p!r} {rp.local!r}', wit)
    ctx.expect(b''.join(b.L(local).cache.data) == data, 'mapped:data', lambda: f'{p!r}', wit)


def history(ctx, b, r, p, wit):
    """ what is asked later is about what is there then """
    ctx.count('again')
    rp = b.at(p)
    outcome(lambda: rp.meta)
    for k in r.choices(['same size', 'other', 'delete', 'folder', 'create'], k=3):
        if k in ('delete', 'folder', 'create', 'other', 'same size') and os.path.isdir(p):
            os.rmdir(p)
        if k == 'same size' and p.exists():
            data = bytes(255 - x for x in p.read_bytes())
            p.chmod(0o644)
            p.write_bytes(data)
        elif k in ('other', 'create', 'same size'):
            if p.exists():
                p.unlink()
            p.write_bytes(content(r))
            p.chmod(0o644)
        elif k == 'delete' and p.exists():
            p.unlink()
        elif k == 'folder':
            if p.exists():
                p.unlink()
            p.mkdir()
        if p.is_dir():
            o = outcome(lambda: (rp.exists(), rp.is_dir(), rp.is_file()))
            ctx.expect(o == ('value', (True, True, False)) or isinstance(o[1], TooLong), 'again:folder', lambda: f'{p!r} {k} {o!r}', wit)
        elif p.exists():
            look(ctx, b, p, wit, rp)
            if b.readable(p):
                o = outcome(lambda: rp.meta.checksum)
                ctx.expect(o == ('value', b.C.cypher(p.read_bytes()).digest()) or isinstance(o[1], TooLong), 'again:meta', lambda: f'{p!r} {k} {o!r}', wit)
        else:
            missing(ctx, b, p, wit, rp)
