""" a small Local / Cache / Remote stack for the demonstrations; run with cwd at the repository """
import atexit, contextlib, hashlib, logging, os, pathlib, shutil, sys, tempfile
from datetime import datetime, timedelta, timezone
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import augpathlib as aug
from augpathlib.meta import PathMeta
logging.disable(logging.CRITICAL)
sys.breakpointhook = lambda *a, **k: (_ for _ in ()).throw(RuntimeError('breakpoint'))
TMP = pathlib.Path(tempfile.mkdtemp(prefix='vp-demo-', dir='/tmp'))
atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
os.chdir(TMP)
EPOCH = datetime(2021, 1, 1, tzinfo=timezone.utc)


class Node:
    def __init__(self, id, name, parent, data=None):
        self.id, self.name, self.parent, self.data = id, name, parent, data
        self.is_dir = data is None
        self.created = self.updated = EPOCH
        self.file_id = None if self.is_dir else 100
        self.over = {}
        self.served = None


class Store:
    def __init__(self):
        self.nodes, self.clock, self.fail_after = {}, 0, None
        self.root = self.add(None, 'proj', id='N:root')

    def tick(self):
        self.clock += 1
        return EPOCH + timedelta(seconds=self.clock)

    def add(self, parent, name, data=None, id=None):
        n = Node(id or f'N:{"file" if data is not None else "dir"}:{len(self.nodes)}', name, parent, data)
        n.created = n.updated = self.tick()
        if not n.is_dir:
            n.file_id += len(self.nodes)
        self.nodes[n.id] = n
        return n

    def write(self, n, data):
        n.data, n.file_id = data, n.file_id + 1000
        n.created = n.updated = self.tick()

    def path(self, n):
        parts = []
        while n.parent is not None:
            parts.append(n.name)
            n = n.parent
        return pathlib.PurePosixPath(*reversed(parts))

    def below(self, n):
        for c in [c for c in self.nodes.values() if c.parent is n]:
            yield c
            yield from self.below(c)


def stack(store, prefix='demo'):
    class Local(aug.LocalPath):
        @property
        def cache_id(self):
            return self.cache.id if self.cache else None
    Local._bind_flavours()

    class Cache(aug.PrimaryCache, aug.EatCache):
        xattr_prefix = prefix
        _backup_cache = aug.SqliteCache
        _not_exists_cache = aug.SymlinkCache
        cypher = hashlib.sha256

        @property
        def anchor(self):
            return getattr(self.__class__._abstract_class(), '_anchor', None)

        @property
        def trash(self):
            return self.local_data_dir / 'trash'

        @property
        def cache_key(self):
            return f'{self.id}-{self.meta.file_id}'

        def _meta_is_root(self, meta):
            return meta.id == store.root.id

        def _sparse_include(self):
            return True

        @property
        def data(self):
            yield from self.remote.data
    Cache._bind_flavours()

    class Api:
        def __init__(self, identifier):
            self.root = store.root.id

    class Remote(aug.RemotePath):
        _api_class = Api

        def __init__(self, thing, cache=None):
            super().__init__(thing, cache=cache)

        @property
        def _node(self):
            if self.id not in store.nodes:
                raise aug.exceptions.NoRemoteFileWithThatIdError(self.id)
            return store.nodes[self.id]

        def is_dir(self): return self._node.is_dir
        def is_file(self): return not self._node.is_dir
        def exists(self): return self.id in store.nodes
        def as_path(self): return store.path(self._node)
        def _sparse_include(self): return True
        name = property(lambda self: self._node.name)
        stem = property(lambda self: pathlib.PurePosixPath(self.name).stem)
        suffix = property(lambda self: pathlib.PurePosixPath(self.name).suffix)
        anchor = property(lambda self: self.__class__(store.root.id))
        parent = property(lambda self: self._node.parent and self.__class__(self._node.parent.id))

        @property
        def children(self):
            for c in [c for c in store.nodes.values() if c.parent is self._node]:
                yield self.__class__(c.id)

        def _rchildren(self, create_cache=True, sparse=False):
            for c in list(store.below(self._node)):
                r = self.__class__(c.id)
                if create_cache:
                    r.cache_init()
                yield r

        @property
        def meta(self):
            n = self._node
            kw = dict(id=n.id, name=n.name, created=n.created, updated=n.updated)
            if not n.is_dir:
                kw.update(file_id=n.file_id, size=len(n.data), checksum=hashlib.sha256(n.data).digest())
            kw.update(n.over)
            return PathMeta(**kw)

        @property
        def data(self):
            n = self._node
            data = n.data if n.served is None else n.served
            for i in range(0, max(len(data), 1), 10):
                if store.fail_after is not None and i >= store.fail_after * 10:
                    raise OSError(5, 'remote failure')
                yield data[i:i + 10]

        def refresh(self, update_cache=False, update_data=False, update_data_on_cache=False,
                    size_limit_mb=2, force=False):
            if self.id not in store.nodes:
                return None
            cache = self.cache
            if update_cache or update_data:
                different = self.update_cache()
                new = (cache.anchor.local / self.as_path()).cache
                if new is not None:
                    self._cache, new._remote = new, self
                update_data = update_data or update_data_on_cache and different
            if update_data and self.is_file():
                self.cache.fetch(size_limit_mb=size_limit_mb)
            return self.cache

    R = Remote._new(Local, Cache)
    R.init(store.root.id)
    return Local, Cache, R


class Project:
    def __init__(self, store):
        self.store = store
        self.base = TMP / 'base'
        self.base.mkdir()
        self.open()
        self.anchor = self.R.dropAnchor(self.L(self.base))

    def open(self):
        self.L, self.C, self.R = stack(self.store)

    def reopen(self):
        self.open()
        self.anchor = self.R.smartAnchor(self.L(self.base))
        self.C._anchor = self.anchor

    def bootstrap(self, **kw):
        with contextlib.redirect_stdout(open(os.devnull, 'w')):
            return self.anchor.bootstrap(self.anchor.remote.meta, recursive=True, **kw)

    def local(self, n):
        return self.L(self.base / self.store.root.name / self.store.path(n))

    def meta(self, n):
        p = self.local(n)
        if p.is_symlink():
            return PathMeta.from_symlink(aug.AugmentedPath(p), match_name=False)
        xs = {k[5:].encode(): os.getxattr(p, k) for k in os.listxattr(p) if k.startswith('user.demo.')}
        return PathMeta.from_xattrs(xs, 'demo') if xs else None
