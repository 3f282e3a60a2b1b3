""" single objects of the remote get their place, folders are made on both sides """
import os

from .. import common, gen, model
from .c26 import state

RULE = ('histories of giving single objects a place (with and without their parents), making folders on both sides, fetches, edits, restarts and remote '
        'failures; after every step the whole project is compared with a model; distinct are pairs of situation and step')


def main(ctx):
    aug = common.load_library()
    i, n = 0, ctx.size(400, 8000)
    while i < n and not ctx.time_up():
        r = ctx.rng('place', i)
        steps = []
        with ctx.case('place', lambda: dict(i=i, steps=steps)):
            w = None
            try:
                w = model.World(ctx, aug, r, ndirs=r.randint(2, 7), nfiles=r.randint(1, 6), max_size=3000, remote_body=dict(_mkdir_child=mkdir_child))
                One(ctx, aug, w, r, steps).run()
            finally:
                if w is not None:
                    w.close()
        i += 1
    ctx.require('retry same', 'init', 'init parents', 'init again', 'no parents', 'gone', 'fault', 'mkdir_remote', 'mkdir_remote parents', 'mkdir_cache', 'bare folder',
                'refused', 'no tracked parent', 'exists on the remote', 'bootstrap', 'restart', 'edited', 'children', 'rchildren')


def mkdir_child(self, name):
    import augpathlib
    n = self._node
    s = self._store()
    if s.mkdir_fault:
        raise model.FetchFault(5, 'injected remote failure')
    if any(c.name == name for c in s.children(n)):
        raise augpathlib.exceptions.RemotePathExistsError(name)
    return self.__class__(s.add(n, name, True).id)


class One:
    def __init__(self, ctx, aug, w, r, steps):
        self.ctx, self.aug, self.w, self.r, self.steps = ctx, aug, w, r, steps
        self.wit = lambda: dict(steps=steps, names={n.id: str(w.store.path(n)) for n in w.store.nodes.values()}, here=sorted(state(w)))
        w.store.mkdir_fault = False
        self.bind()
        self.made = 0
        self.want = {}      # what has to be there

    def bind(self):
        store = self.w.store
        self.w.R._store = lambda self: store

    # the model
    def view(self, n):
        return {**gen.view(self.w.R(n.id).meta), 'old_id': None}

    def rel(self, n):
        return str(self.w.store.path(n))

    def put(self, want, n):
        """ n gets its place """
        rel = self.rel(n)
        old = want.get(rel)
        if old is not None and old[2] is not None:
            return
        want[rel] = ('dir' if n.is_dir else 'link', None, self.view(n))

    def missing(self, n):
        """ folders that have no place yet, outermost first """
        return [p for p in reversed(self.w.store.parents(n)) if p.parent is not None and self.rel(p) not in self.want]

    def compare(self, op, allowed=None):
        got = state(self.w)
        diff = {k: (got.get(k), self.want.get(k)) for k in {*got, *self.want} if got.get(k) != self.want.get(k)}
        if allowed is not None:      # part of the way there
            diff = {k: v for k, v in diff.items() if not (v[1] is None and v[0] == allowed.get(k)
                                                          or v[1] is not None and v[0] is not None and v[0] == allowed.get(k))}
        self.ctx.count('compared')
        self.ctx.seen((op, len(self.want), tuple(sorted(x[0] for x in self.want.values()))[:8]))
        return self.ctx.expect(not diff, f'{op}:state', lambda: f'{op} {self.steps[-1:]}: {diff}', self.wit)

    def adopt(self):
        self.want = state(self.w)

    # the run
    def run(self):
        ctx, w, r = self.ctx, self.w, self.r
        if r.random() < .3:
            w.store.remove(r.choice(w.files))
            w.files = [f for f in w.files if f.id in w.store.nodes]
        for _ in range(r.randint(3, 20)):
            op = r.choice(['init'] * 6 + ['bare', 'bare', 'user', 'fetch', 'fetch', 'edit', 'edit', 'restart', 'mkdir_remote', 'mkdir_remote', 'mkdir_remote', 'mkdir_cache', 'gone', 'write', 'children', 'rchildren'])
            getattr(self, op)()
        self.bootstrap()

    def nodes(self, placed=None, dirs=None):
        return [n for n in self.w.store.nodes.values() if n.parent is not None and (dirs is None or n.is_dir == dirs)
                and (placed is None or placed == (self.rel(n) in self.want and self.want[self.rel(n)][2] is not None))]

    def taken(self, n):
        """ something of the user is where n or one of its parents would have to go """
        for x in (n, *self.w.store.parents(n)):
            if x.parent is not None:
                h = self.want.get(self.rel(x))
                if h is not None and h[2] is None and (h[0] != 'dir' or not x.is_dir):
                    return True

    def init(self):
        ctx, w, r = self.ctx, self.w, self.r
        ns = [n for n in self.nodes() if not self.taken(n)]
        if not ns:
            return
        n = r.choice(ns)
        parents = r.random() < .6
        fault = r.choice([None, None, None, 0, 1, 2])
        missing = self.missing(n)
        again = self.rel(n) in self.want and self.want[self.rel(n)][2] is not None
        if again and self.want[self.rel(n)][2] != self.view(n):
            return    # that is an update
        self.steps.append(('init', self.rel(n), parents, fault, again))
        place = w.where(n)
        after = dict(self.want)
        for x in missing:
            self.put(after, x)
        self.put(after, n)
        rem = w.R(n.id)
        w.store.meta_fault = fault
        try:
            cache = rem.cache_init(parents=True) if parents else r.choice([rem.cache_init, lambda: rem.cache_init(parents=False)])()
        except model.FetchFault:
            w.store.meta_fault = None
            ctx.count('fault')
            ctx.expect(fault is not None, 'init:fault', 'failure out of nothing', self.wit)
            self.compare('init that failed', after)
            self.adopt()
            made = self.rel(n) in self.want and self.want[self.rel(n)][2] is not None
            ctx.expect(made or rem.cache is None, 'init:remembers', lambda: f'after {fault} {rem!r} has {rem.cache!r} and nothing is there', self.wit)
            return self.retry(n, parents, rem if r.random() < .5 else None)
        except FileNotFoundError as e:
            w.store.meta_fault = None
            ctx.count('no parents')
            ctx.expect(missing and not parents, 'init:refused', lambda: f'{e} {[self.rel(x) for x in missing]} {parents}', self.wit)
            self.compare('init without parents')
            return
        finally:
            w.store.meta_fault = None
        self.done(n, parents, rem, cache, missing, again, after)

    def retry(self, n, parents, rem=None):
        missing = self.missing(n)
        if missing and not parents:
            return
        again = self.rel(n) in self.want and self.want[self.rel(n)][2] is not None
        after = dict(self.want)
        for x in missing:
            self.put(after, x)
        self.put(after, n)
        self.ctx.count('retry same', rem is not None)
        self.steps.append(('retry', self.rel(n), parents, rem is not None))
        rem = rem or self.w.R(n.id)
        self.done(n, parents, rem, rem.cache_init(parents=parents), missing, again, after)

    def done(self, n, parents, rem, cache, missing, again, after):
        ctx, w = self.ctx, self.w
        ctx.count('init again' if again else 'init parents' if missing else 'init')
        ctx.expect(not missing or parents, 'init:made parents', lambda: f'{[self.rel(x) for x in missing]} were made', self.wit)
        self.want = after
        if not self.compare('init again' if again else 'init with parents' if missing else 'init'):
            self.adopt()
        ctx.expect(isinstance(cache, w.C) and os.fspath(cache.local) == os.fspath(w.where(n)) and cache.id == n.id and cache.remote.id == n.id
                   and rem.cache is not None and rem.cache.id == n.id and os.fspath(rem.local) == os.fspath(w.where(n)),
                   'init:agree', lambda: f'{cache!r} {rem!r} {w.where(n)}', self.wit)
        l = w.local(n)
        ctx.expect(l.cache is not None and l.cache.id == n.id and l.remote.id == n.id and l.remote.name == n.name, 'init:found', lambda: f'{l.cache!r}', self.wit)
        for x in missing:
            l = w.local(x)
            ctx.expect(l.cache is not None and l.cache.id == x.id and l.remote.id == x.id, 'init:parents found', lambda: f'{l} {l.cache!r} {x.id}', self.wit)

    def gone(self):
        """ what is not on the remote gets no place """
        w, r = self.w, self.r
        ns = [n for n in self.nodes(placed=False) if not any(self.rel(x) in self.want for x in (n, *w.store.rchildren(n)))]
        if not ns:
            return
        n = r.choice(ns)
        rem = w.R(n.id)
        self.steps.append(('gone', self.rel(n)))
        w.store.remove(n)
        w.files = [f for f in w.files if f.id in w.store.nodes]
        w.dirs = [f for f in w.dirs if f.id in w.store.nodes]
        try:
            rem.cache_init(parents=r.random() < .5)
        except (self.aug.exceptions.NoRemoteFileWithThatIdError, FileNotFoundError):
            self.ctx.count('gone')
        else:
            self.ctx.violation('gone:accepted', f'{rem!r} is not on the remote', self.wit())
        self.compare('init of something gone')

    def spot(self):
        """ a folder that is here """
        return self.r.choice(['.', *[k for k, v in self.want.items() if v[0] == 'dir']])

    def bare(self):
        """ a user makes a folder, perhaps where one of the remote belongs """
        w, r = self.w, self.r
        ns = [n for n in self.nodes(placed=False, dirs=True) if not self.missing(n) and self.rel(n) not in self.want]
        rel = self.rel(r.choice(ns)) if ns and r.random() < .7 else os.path.normpath(f'{self.spot()}/bare-{len(self.want)}')
        os.mkdir(w.root / rel)
        self.want[rel] = ('dir', None, None)
        self.steps.append(('bare', rel))
        self.ctx.count('bare folder')
        if r.random() < .5:
            self.user(rel)

    def user(self, d=None):
        rel = os.path.normpath(f'{d or self.spot()}/user-{len(self.want)}')
        data = self.r.randbytes(9)
        (self.w.root / rel).write_bytes(data)
        self.want[rel] = ('file', data, None)
        self.steps.append(('user', rel))

    def fetch(self):
        w, r = self.w, self.r
        ns = [n for n in self.nodes(placed=True, dirs=False) if self.want[self.rel(n)][0] == 'link' and self.want[self.rel(n)][2] == self.view(n)]
        if not ns:
            return
        n = r.choice(ns)
        self.steps.append(('fetch', self.rel(n)))
        w.local(n).cache.fetch(size_limit_mb=None)
        self.want[self.rel(n)] = ('file', n.data, self.want[self.rel(n)][2])
        if not self.compare('fetch'):
            self.adopt()

    def edit(self):
        w, r = self.w, self.r
        ns = [n for n in self.nodes(placed=True, dirs=False) if self.want[self.rel(n)][0] == 'file']
        if not ns:
            return
        n = r.choice(ns)
        data = r.randbytes(r.randrange(20))
        with open(w.where(n), 'wb') as f:
            f.write(data)
        self.steps.append(('edit', self.rel(n)))
        self.ctx.count('edited')
        self.want[self.rel(n)] = ('file', data, self.want[self.rel(n)][2])

    def write(self):
        """ somebody else changes what has no place here yet """
        w, r = self.w, self.r
        ns = self.nodes(placed=False, dirs=False)
        if ns:
            n = r.choice(ns)
            w.store.write(n, w.blob())
            self.steps.append(('write', self.rel(n)))

    def restart(self):
        self.w.reopen()
        self.bind()
        self.steps.append(('restart',))
        self.ctx.count('restart')
        self.compare('restart')

    def mkdir_cache(self):
        w, r = self.w, self.r
        ns = [n for n in self.nodes() if not self.taken(n)]
        if not ns:
            return
        n = r.choice(ns)
        self.steps.append(('mkdir_cache', self.rel(n)))
        missing = self.missing(n)
        w.L(w.root).mkdir_cache(w.R(n.id), anchor=w.anchor)
        for x in missing:
            self.put(self.want, x)
        self.ctx.count('mkdir_cache')
        if not self.compare('mkdir_cache'):
            self.adopt()

    def children(self, below=False):
        """ what the remote has in a folder, all of it gets its place """
        w, r, ctx = self.w, self.r, self.ctx
        ds = [w.store.root, *self.nodes(placed=True, dirs=True)]
        d = r.choice(ds)
        ns = list(w.store.rchildren(d)) if below else w.store.children(d)
        if any(self.taken(n) or self.rel(n) in self.want and self.want[self.rel(n)][2] not in (None, self.view(n)) for n in ns):
            return
        op = 'rchildren' if below else 'children'
        self.steps.append((op, self.rel(d)))
        for n in ns:
            self.put(self.want, n)
        c = w.local(d).cache
        got = list(c.rchildren if below else c.children)
        ctx.count(op)
        ctx.expect(sorted((x.id, os.fspath(x.local)) for x in got) == sorted((n.id, os.fspath(w.where(n))) for n in ns), f'{op}:listed', lambda: f'{got}', self.wit)
        if not self.compare(op):
            self.adopt()

    def rchildren(self):
        self.children(below=True)

    def mkdir_remote(self):
        ctx, w, r = self.ctx, self.w, self.r
        s, exc = w.store, self.aug.exceptions
        self.made += 1
        d = self.spot()
        parts = [f'made {self.made}{x}' for x in 'abc'][:r.choice([1, 1, 1, 2, 3])]
        if len(parts) > 1 and r.random() < .3:      # a user has made the first of them already
            rel = os.path.normpath(f'{d}/{parts[0]}')
            os.mkdir(w.root / rel)
            self.want[rel] = ('dir', None, None)
            if r.random() < .5:
                self.user(rel)
        rel = os.path.normpath(f'{d}/' + '/'.join(parts))
        here = [n for n in self.nodes(dirs=True)]
        if here and r.random() < .25:
            rel = self.rel(r.choice(here))    # the remote has it
        elif r.random() < .2:
            rels = [k for k, v in self.want.items() if v[0] == 'dir' and v[2] is None]
            rel = r.choice(rels) if rels else rel
        parents = r.random() < .6
        s.mkdir_fault = r.random() < .15
        self.steps.append(('mkdir_remote', rel, parents, s.mkdir_fault))
        chain = [rel]       # everything without identity, outermost first
        while True:
            up = os.path.dirname(chain[0])
            if not up or up in self.want and self.want[up][2] is not None:
                break
            chain.insert(0, up)
        at_remote = {self.rel(n): n for n in self.nodes()}
        before = set(s.nodes)
        p = w.L(w.root / rel)
        try:
            rem = p.mkdir_remote(parents=True) if parents else p.mkdir_remote()
        except exc.RemotePathExistsError:
            ctx.count('exists on the remote')
            ctx.expect(any(c in at_remote for c in chain), 'mkdir_remote:exists', lambda: f'{chain} is not on the remote', self.wit)
            why = 'exists'
        except model.FetchFault:
            ctx.count('refused')
            ctx.expect(s.mkdir_fault, 'mkdir_remote:fault', 'failure out of nothing', self.wit)
            why = 'fault'
        except FileNotFoundError as e:
            ctx.count('no tracked parent')
            ctx.expect(len(chain) > 1 and not parents and str(p) in str(e), 'mkdir_remote:parents', lambda: f'{e} {chain}', self.wit)
            why = 'parents'
        else:
            why = None
        finally:
            s.mkdir_fault = False
        new = [n for k, n in s.nodes.items() if k not in before]
        if why is not None:
            made = [self.rel(n) for n in new]
            # parents may have been made before the one that could not be
            ctx.expect(made == (chain[:len(made)] if why == 'exists' and parents else []), 'mkdir_remote:made anyway', lambda: f'{why} {made} {chain}', self.wit)
        else:
            ctx.count('mkdir_remote parents' if len(chain) > 1 else 'mkdir_remote')
            ctx.expect([self.rel(n) for n in new] == chain, 'mkdir_remote:remote', lambda: f'{[self.rel(n) for n in new]} instead of {chain}', self.wit)
            if new:
                l = w.L(w.root / rel)
                ctx.expect(rem.id == new[-1].id and l.cache is not None and l.cache.id == rem.id and p.cache is not None and p.cache.id == rem.id
                           and rem.cache is not None and rem.cache.id == rem.id and os.fspath(rem.local) == os.fspath(p),
                           'mkdir_remote:agree', lambda: f'{rem!r} {l.cache!r} {rem.cache!r}', self.wit)
        for n in new:
            w.dirs.append(n)
            self.put(self.want, n)
        if not self.compare('mkdir_remote'):
            self.adopt()

    def bootstrap(self):
        w, ctx = self.w, self.ctx
        ns = sorted(self.nodes(), key=lambda n: len(w.store.parents(n)))
        if any(self.taken(n) for n in ns):
            return
        self.steps.append(('bootstrap',))
        w.bootstrap()
        for n in ns:
            rel = self.rel(n)
            if rel in self.want and self.want[rel][0] == 'link':
                self.want.pop(rel)
            self.put(self.want, n)
        ctx.count('bootstrap')
        self.compare('bootstrap')
