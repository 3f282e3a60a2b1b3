""" Shared machinery: context, verdicts, evidence, containment, scratch space.

Verdict discipline: exit 0 held on what was observed, exit 1 violation (with a
VIOLATION line and a replay file), exit 2 inconclusive (a deciding monitor was
never reached, or the whole run was cut off).
"""
import contextlib
import hashlib
import json
import logging
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('VP_REPO', '/repo'))
EVIDENCE = Path(os.environ.get('VP_EVIDENCE', VERIF / 'evidence'))
KNOWN = VERIF / 'known_findings.txt'

CASE_LIMIT_S = 200   # a case is milliseconds of work; this only cuts off hangs


class Veto(BaseException):
    """ raised out of the audit hook to stop an operation outside the scratch area """


class Hang(BaseException):
    """ a case made no progress for CASE_LIMIT_S """


class DebuggerReached(Exception):
    """ the library dropped into the interactive debugger """


class Skip(Exception):
    """ the case turned out not to be in the domain """


# ---------------------------------------------------------------- audit hook

class Guard:
    """ One process wide audit hook.

    * containment: mutations outside the allowed roots are refused and recorded
    * observers: callables called with (event, args) for every file system event
    """
    MUTATE1 = {'os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate', 'os.chmod', 'os.chown',
               'os.removexattr', 'os.setxattr', 'os.utime'}
    MUTATE2 = {'os.rename', 'os.link', 'os.symlink'}

    def __init__(self):
        self.roots = []
        self.observers = []
        self.escapes = []
        self.enforce = False
        self._tl = threading.local()
        sys.addaudithook(self._hook)

    @property
    def busy(self):
        return getattr(self._tl, 'busy', False)

    @busy.setter
    def busy(self, v):
        self._tl.busy = v

    def _s(self, p):
        if isinstance(p, int):
            return None
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p

    def allowed(self, p, follow_last=False):
        p = self._s(p)
        if p is None:
            return True
        a = os.path.abspath(p) if '..' not in p.split('/') else p
        head, tail = os.path.split(a if a.startswith('/') else os.path.join(os.getcwd(), a))
        if tail in ('', '.', '..') or follow_last:
            r = os.path.realpath(p)
        else:
            r = os.path.join(os.path.realpath(head), tail)
        for root in self.roots:
            if r == root or r.startswith(root + '/'):
                return True
        return False

    def _hook(self, event, args):
        if self.busy or (not self.enforce and not self.observers):
            return
        if not (event == 'open' or event.startswith('os.') or event.startswith('shutil.')
                or event.startswith('ctypes.')):
            return
        self.busy = True
        try:
            if self.enforce:
                self._contain(event, args)
            for o in list(self.observers):
                self.busy = False
                try:
                    o(event, args)
                finally:
                    self.busy = True
        finally:
            self.busy = False

    def _contain(self, event, args):
        bad = None
        if event in self.MUTATE1:
            # with a dir_fd the path is relative to a directory we cannot name cheaply
            fd = args[-1] if event in ('os.remove', 'os.rmdir', 'os.mkdir') else -1
            if isinstance(fd, int) and fd not in (-1, None) and fd >= 0:
                base = os.readlink(f'/proc/self/fd/{fd}')
                p = os.path.join(base, self._s(args[0]))
            else:
                p = args[0]
            if not self.allowed(p):
                bad = p
        elif event in self.MUTATE2:
            ps = (args[0], args[1]) if event == 'os.rename' else (args[1],)
            for p in ps:
                if not self.allowed(p):
                    bad = p
        elif event == 'open':
            path, mode, flags = args
            w = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC
            if isinstance(flags, int) and flags & w or (isinstance(mode, str) and set(mode) & set('wax+')):
                if not self.allowed(path, follow_last=True):
                    bad = path
        if bad is not None:
            self.escapes.append((event, str(bad)))
            raise Veto(f'{event} {bad}')

    @contextlib.contextmanager
    def observe(self, fn):
        self.observers.append(fn)
        try:
            yield
        finally:
            self.observers.remove(fn)

    @contextlib.contextmanager
    def off(self):
        was, self.enforce = self.enforce, False
        obs, self.observers = self.observers, []
        try:
            yield
        finally:
            self.enforce = was
            self.observers = obs


guard = None


# ------------------------------------------------------------------- context

class Ctx:
    def __init__(self, prop, level='exploration', rule=''):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.level = level
        self.rule = rule
        self.thorough = self.tier == 'thorough'
        self.t0 = time.monotonic()
        self.budget = float(os.environ.get('VP_BUDGET', 40 if not self.thorough else 600))
        self.n = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.required = []
        self.violations = {}
        self.known_hits = {}
        self.known = load_known(prop)
        self.exhaustive = False
        self.assumptions = []
        base = os.environ.get('VP_SCRATCH', '/tmp')
        self.scratch = Path(tempfile.mkdtemp(prefix=f'vp-{prop}-', dir=base))
        os.chmod(self.scratch, 0o755)
        self._dirs = 0
        self._extra = []
        self.shard = int(os.environ.get('VP_SHARD', 0) or 0)

    # randomness: every case has its own reproducible stream
    def rng(self, *labels):
        seed = f'{self.seed}.{self.shard}' if self.shard else self.seed
        return random.Random(f'{seed}/{self.prop}/' + '/'.join(str(x) for x in labels))

    def result(self):
        """ what one of several processes hands over """
        return dict(n=self.n, distinct=self.distinct, samples=json.loads(json.dumps(self.samples, default=repr)), counts=self.counts,
                    required=self.required, known_hits=self.known_hits,
                    violations=json.loads(json.dumps(self.violations, default=repr)))

    def merge(self, o):
        self.n += o['n']
        self.distinct |= o['distinct']
        for k, v in o['counts'].items():
            self.count(k, v)
        self.required.extend(k for k in o['required'] if k not in self.required)
        for s in o['samples'][:2]:
            self.sample(s, 12)
        for m, (hits, msg) in o['known_hits'].items():
            self.known_hits.setdefault(m, [0, msg])[0] += hits
        for m, v in o['violations'].items():
            if m in self.violations:
                self.violations[m]['hits'] += v['hits']
            else:
                self.violations[m] = v

    def size(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self):
        return self.budget - (time.monotonic() - self.t0)

    def time_up(self):
        return self.left() <= 0

    def newdir(self, name=None, base=None):
        self._dirs += 1
        d = (base or self.scratch) / (name or f'd{self._dirs}')
        d.mkdir(parents=True)
        return d

    def extra_scratch(self, base):
        """ a second scratch directory, e.g. on another device """
        with (guard.off() if guard is not None else contextlib.nullcontext()):
            d = Path(tempfile.mkdtemp(prefix=f'vp-{self.prop}-', dir=base))
        self._extra.append(d)
        if guard is not None:
            guard.roots.append(os.path.realpath(d))
        return d

    def count(self, key, k=1):
        self.counts[key] = self.counts.get(key, 0) + k

    def require(self, *keys):
        """ counters that must be non zero for the run to mean anything """
        self.required.extend(keys)

    def seen(self, key, nontrivial=True):
        if nontrivial:
            self.distinct.add(hashlib.blake2b(repr(key).encode('utf-8', 'surrogateescape'),
                                              digest_size=8).digest())

    def sample(self, s, limit=8):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, mech, msg, witness=None):
        if mech in self.known:
            if mech not in self.known_hits:
                self.known_hits[mech] = [0, msg]
            self.known_hits[mech][0] += 1
            return False
        if mech not in self.violations:
            self.violations[mech] = dict(mech=mech, message=msg, witness=witness, hits=0,
                                         seed=self.seed, tier=self.tier, shard=self.shard)
        self.violations[mech]['hits'] += 1
        return True

    def expect(self, ok, mech, msg, witness=None):
        self.count('assertions')
        if not ok:
            self.violation(mech, msg() if callable(msg) else msg,
                           witness() if callable(witness) else witness)
        return bool(ok)

    @contextlib.contextmanager
    def case(self, label, witness=None):
        """ one execution; an exception the oracle did not ask for is a violation """
        self.n += 1
        signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
        try:
            yield
        except Skip:
            self.count('skipped')
        except Hang:
            self.violation(f'{label}:hang', f'{label}: no answer after {CASE_LIMIT_S}s', witness)
        except Veto as e:
            self.violation(f'{label}:escape', f'{label}: touched a path outside its area: {e}', witness)
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:
            tb = traceback.format_exc()
            self.violation(f'{label}:unexpected:{type(e).__name__}',
                           f'{label}: unexpected {type(e).__name__}: {e}',
                           dict(case=witness() if callable(witness) else witness,
                                traceback=tb[-3000:]))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    # ---------------------------------------------------------------- finish
    def finish(self):
        wall = time.monotonic() - self.t0
        missing = [k for k in self.required if not self.counts.get(k)]
        EVIDENCE.mkdir(exist_ok=True, parents=True)
        cov = dict(evaluations=self.n, distinct_nontrivial=len(self.distinct),
                   rule=self.rule, samples=self.samples or ['none'],
                   observed={k: self.counts[k] for k in sorted(self.counts)})
        if self.exhaustive:
            cov['exhaustive'] = True
        if self.known_hits:
            cov['known_findings_observed'] = {k: v[0] for k, v in self.known_hits.items()}
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(wall, 2),
                  violations=len(self.violations))
        (EVIDENCE / f'{self.prop}.json').write_text(
            json.dumps(ev, indent=1, default=repr) + '\n', errors='backslashreplace')
        for old in EVIDENCE.glob(f'replay-{self.prop}-*.json'):
            old.unlink()
        for mech, (hits, msg) in self.known_hits.items():
            print(f'KNOWN-FINDING: property={self.prop} {self.known[mech]}')
        for i, (mech, v) in enumerate(sorted(self.violations.items())):
            rp = EVIDENCE / f'replay-{self.prop}-{i}.json'
            v['replay_with'] = (f'VERIF_SEED={self.seed} VERIF_TIER={self.tier} VP_SHARD={v["shard"]} '
                                f'python3 /verif/run.py {self.prop}')
            rp.write_text(json.dumps(v, indent=1, default=repr) + '\n', errors='backslashreplace')
            if i < 20:
                print(f'VIOLATION property={self.prop} replay={rp}')
                print(f'  {mech}: {str(v["message"])[:600]}'.encode('utf-8', 'backslashreplace').decode())
        print(f'{self.prop} {self.tier} seed={self.seed}: {self.n} executions, '
              f'{len(self.distinct)} distinct, {wall:.1f}s, '
              f'{len(self.violations)} violation kinds', {k: self.counts[k] for k in sorted(self.counts)})
        if self.violations:
            return 1
        if missing or not self.n:
            print(f'INCONCLUSIVE: never observed {missing or "anything"}')
            return 2
        return 0

    def cleanup(self):
        if guard is not None:
            guard.enforce = False
        for d in [self.scratch, *self._extra]:
            force_rmtree(d)


def force_rmtree(d):
    d = str(d)
    assert '/vp-C' in d and d.count('/') >= 2, d
    for r, ds, fs in os.walk(d):
        for x in ds:
            p = os.path.join(r, x)
            if not os.path.islink(p):
                try:
                    os.chmod(p, 0o700)
                except OSError:
                    pass
    shutil.rmtree(d, ignore_errors=True)


def load_known(prop):
    """ finding: property=<id> mech=<key> <what fails> """
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith('finding: '):
                parts = line[len('finding: '):].split(' ', 2)
                kv = dict(p.split('=', 1) for p in parts[:2])
                if kv['property'] == prop:
                    out[kv['mech']] = parts[2]
    return out


# ------------------------------------------------------------------- library

_aug = None


def load_library():
    """ import augpathlib from the current working tree of the repository """
    global _aug
    if _aug is None:
        sys.dont_write_bytecode = True
        sys.path.insert(0, str(REPO))
        import augpathlib as aug
        here = Path(aug.__file__).resolve()
        assert REPO.resolve() in here.parents, here
        quiet()
        _aug = aug
    return _aug


def quiet():
    for name in ('augpathlib', 'augpathlib.repo', 'augpathlib.package', 'git'):
        lg = logging.getLogger(name)
        lg.setLevel(logging.CRITICAL + 10)
    logging.getLogger('augpathlib').handlers[:] = [logging.NullHandler()]
    logging.disable(logging.CRITICAL)


def _breakpoint(*a, **k):
    raise DebuggerReached('breakpoint() reached')


def _alarm(*a):
    raise Hang()


def run_check(prop, main, level='exploration', rule='', shards=(3, 4)):
    """ entry point used by run.py
    a run is spread over several processes, each with a stream of random numbers of its own """
    sys.breakpointhook = _breakpoint
    signal.signal(signal.SIGALRM, _alarm)
    ctx = Ctx(prop, level, rule)
    others = []
    if 'VP_SHARD' not in os.environ:
        for k in range(1, int(os.environ.get('VP_SHARDS') or shards[ctx.thorough])):
            others.append(_shard(k, prop, main, level, rule))
    ok = _drive(ctx, main)
    for pid, r in others:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            o = pickle.loads(data)
        except Exception:
            traceback.print_exc()
            ok = False
            continue
        ok = ok and o['ok']
        ctx.merge(o)
    # violations found before the harness stopped are still violations
    rc = ctx.finish() if ok or ctx.violations else 2
    ctx.cleanup()
    return rc


def _shard(k, prop, main, level, rule):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    try:
        os.close(r)
        ctx = Ctx(prop, level, rule)
        ctx.shard = k
        ok = _drive(ctx, main)
        ctx.cleanup()
        with os.fdopen(w, 'wb') as f:
            pickle.dump(dict(ctx.result(), ok=ok), f)
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        os._exit(0)


def _drive(ctx, main):
    global guard
    try:
        guard = Guard()
        guard.roots = [os.path.realpath(ctx.scratch), os.path.realpath(EVIDENCE),
                       '/dev/null', '/dev/tty', '/dev/ptmx', '/dev/pts']
        load_library()
        os.chdir(ctx.scratch)
        guard.enforce = True
        try:
            main(ctx)
        finally:
            guard.enforce = False
            os.chdir('/')
        for ev, p in guard.escapes:
            ctx.violation(f'escape:{ev}', f'{ev} on {p} outside the scratch area')
        return True
    except BaseException as e:
        traceback.print_exc()
        # the workload drives the library outside of a case only to set things up
        if (any(str(REPO) + '/' in f.filename for f in traceback.extract_tb(e.__traceback__))
                or isinstance(e, (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError))):
            ctx.violation(f'setup:{type(e).__name__}', f'the library failed while a workload was set up: {e}',
                          dict(traceback=traceback.format_exc()[-3000:]))
        return False
    finally:
        guard.enforce = False


# ------------------------------------------------------------ misc utilities

@contextlib.contextmanager
def env(**kw):
    old = {k: os.environ.get(k) for k in kw}
    for k, v in kw.items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


@contextlib.contextmanager
def timezone(tz):
    with env(TZ=tz):
        time.tzset()
        try:
            yield
        finally:
            pass
    time.tzset()


@contextlib.contextmanager
def stdout_to_devnull():
    with open(os.devnull, 'w') as f, contextlib.redirect_stdout(f):
        yield


def fds():
    return {f for f in os.listdir('/proc/self/fd')}


def fork_child(fn):
    """ run fn in a forked child, return (exit code or -signal, payload)
    payload is whatever json fn returns """
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
            try:
                out = fn()
                code = 0
            except BaseException as e:
                out = dict(exception=type(e).__name__, message=str(e),
                           traceback=traceback.format_exc()[-2500:])
                code = 71
            with os.fdopen(w, 'w') as f:
                json.dump(out, f, default=repr)
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    try:
        payload = json.loads(data) if data else None
    except ValueError:
        payload = data
    return code, payload
