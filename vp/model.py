""" A complete concrete Local / Cache / Remote stack over an in memory remote.

The repository only ships abstract Cache and Remote classes plus an ssh
implementation; every real deployment subclasses them the way this file does.
The remote here is the *environment* of the code under test: it is a tree of
objects with ids, metadata and bytes that the workload mutates, it records
every request the library makes of it, and it can be told to fail.
"""
import hashlib
import pathlib
from datetime import datetime, timezone, timedelta

EPOCH = datetime(2021, 1, 1, tzinfo=timezone.utc)


class Node:
    __slots__ = ('id', 'name', 'parent', 'is_dir', 'data', 'created', 'updated',
                 'file_id', 'has_checksum', 'has_size', 'corrupt', 'errors', 'mode',
                 'cypher', 'user_id', 'sparse', 'override', 'versions')

    def __init__(self, id, name, parent, is_dir, data=b''):
        self.id = id
        self.name = name
        self.parent = parent
        self.is_dir = is_dir
        self.data = data
        self.created = EPOCH
        self.updated = EPOCH
        self.file_id = None
        self.has_checksum = True
        self.has_size = True
        self.corrupt = None   # bytes served instead of data
        self.errors = ()
        self.mode = None
        self.cypher = None    # checksum_cypher name or None for the class default
        self.user_id = None
        self.sparse = True
        self.versions = {}    # file_id -> content of earlier versions
        self.override = None  # keyword arguments of the metadata the remote reports


class FetchFault(OSError):
    """ injected remote failure """


class Store:
    """ the remote system """
    def __init__(self, root_id='N:root:0', name='proj', default_cypher=hashlib.sha256):
        self.default_cypher = default_cypher
        self.nodes = {}
        self.clock = 0
        self.n = 0
        self.log = []
        self.fault_after = None      # raise after serving this many chunks
        self.meta_fault = None       # raise after answering this many metadata requests
        self.yields_empty = True     # an empty object is served as one empty chunk, not as nothing
        self.order = None            # a random.Random that decides the order of listings
        self.chunksize = 4096
        self.keeps_versions = True
        self.root_id = root_id
        root = Node(root_id, name, None, True)
        self.nodes[root_id] = root
        self.root = root

    def tick(self):
        self.clock += 1
        return EPOCH + timedelta(seconds=self.clock, milliseconds=self.clock % 7)

    def add(self, parent, name, is_dir, data=b'', id=None):
        self.n += 1
        if id is None:
            id = f'N:{"collection" if is_dir else "package"}:{self.n}'
        node = Node(id, name, parent, is_dir, data)
        node.created = node.updated = self.tick()
        if not is_dir:
            node.file_id = self.n + 1000
        self.nodes[id] = node
        return node

    def remove(self, node):
        for n in [n for n in self.nodes.values() if n.parent is node]:
            self.remove(n)
        self.nodes.pop(node.id, None)

    def children(self, node):
        return [n for n in self.nodes.values() if n.parent is node]

    def rchildren(self, node):
        for c in self.children(node):
            yield c
            yield from self.rchildren(c)

    def path(self, node):
        parts = []
        while node.parent is not None:
            parts.append(node.name)
            node = node.parent
        return pathlib.PurePosixPath(*reversed(parts))

    def parents(self, node):
        """ nearest first """
        out = []
        while node.parent is not None:
            node = node.parent
            out.append(node)
        return out

    def write(self, node, data):
        node.versions[node.file_id] = node.data
        node.data = data
        node.created = node.updated = self.tick()
        node.file_id += 100000
        node.corrupt = None


def build(aug, store, *, cypher=hashlib.sha256, prefix='vf', local_bases=(), chunksize=None,
          cache_body=None, local_body=None, remote_body=None, init=True, default_place=False):
    """ make a fresh bound (Local, Cache, Remote) class triple over store """
    exc = aug.exceptions
    from augpathlib.meta import PathMeta
    from augpathlib import LocalPath, PrimaryCache, EatCache, SymlinkCache, SqliteCache, RemotePath

    lbody = dict(cache_id=property(lambda self: self.cache.id if self.cache else None))
    if chunksize is not None:
        lbody['chunksize'] = chunksize
    lbody.update(local_body or {})
    Local = type('VfLocal', (*local_bases, LocalPath), lbody)
    Local._bind_flavours()

    class VfCache(PrimaryCache, EatCache):
        xattr_prefix = prefix
        _backup_cache = SqliteCache
        _not_exists_cache = SymlinkCache

        @property
        def anchor(self):
            acls = self.__class__._abstract_class()
            a = getattr(acls, '_anchor', None)
            return a

        @property
        def trash(self):
            return self.local_data_dir / 'trash'

        @property
        def cache_key(self):
            return f'{self.id.replace(":", "-").replace("/", "-")}-{self.meta.file_id}'

        def _meta_is_root(self, meta):
            return meta.id == store.root_id

        def _sparse_include(self):
            return store.nodes[self.id].sparse if self.id in store.nodes else True

        @property
        def data(self):
            yield from self.remote._data_for(self.meta)

    VfCache.cypher = cypher
    for k, v in (cache_body or {}).items():
        setattr(VfCache, k, v)
    VfCache._bind_flavours()

    class Api:
        def __init__(self, identifier):
            self.root = store.root_id

    class VfRemote(RemotePath):
        _api_class = Api

        def __init__(self, thing_with_id, cache=None):
            super().__init__(thing_with_id, cache=cache)

        @property
        def _node(self):
            try:
                return store.nodes[self.id]
            except KeyError:
                raise exc.NoRemoteFileWithThatIdError(self.id)

        def is_dir(self): return self._node.is_dir
        def is_file(self): return not self._node.is_dir
        def exists(self): return self.id in store.nodes

        @property
        def name(self): return self._node.name

        @property
        def stem(self): return pathlib.PurePosixPath(self.name).stem

        @property
        def suffix(self): return pathlib.PurePosixPath(self.name).suffix

        @property
        def anchor(self): return self.__class__(store.root_id)

        @property
        def parent(self):
            p = self._node.parent
            return self.__class__(p.id) if p is not None else None

        @property
        def children(self):
            for c in store.children(self._node):
                yield self.__class__(c.id)

        def _rchildren(self, create_cache=True, sparse=False):
            store.log.append(('rchildren', self.id, create_cache, bool(sparse)))
            cs = list(store.rchildren(self._node))
            if store.order is not None and not sparse and not create_cache:
                store.order.shuffle(cs)   # remotes list things in any order
            for c in cs:
                r = self.__class__(c.id)
                if create_cache:
                    r.cache_init()
                yield r

        def as_path(self):
            return store.path(self._node)

        def _sparse_include(self):
            return self._node.sparse

        @property
        def meta(self):
            n = self._node
            store.log.append(('meta', n.id))
            if store.meta_fault is not None:
                store.meta_fault -= 1
                if store.meta_fault < 0:
                    store.meta_fault = None
                    raise FetchFault(5, 'injected remote failure')
            if n.override is not None:
                return PathMeta(**n.override)
            kw = dict(id=n.id, name=n.name, created=n.created, updated=n.updated,
                      parent_id=n.parent.id if n.parent is not None else None,
                      errors=n.errors, mode=n.mode, user_id=n.user_id)
            if not n.is_dir:
                kw['file_id'] = n.file_id
                if n.has_size:
                    kw['size'] = len(n.data)
                if n.has_checksum:
                    c = store.default_cypher if n.cypher is None else getattr(hashlib, n.cypher)
                    kw['checksum'] = c(n.data).digest()
                    if n.cypher is not None:
                        kw['checksum_cypher'] = n.cypher
            return PathMeta(**kw)

        def _data_for(self, meta):
            n = self._node
            store.log.append(('data', n.id))
            data = n.data if n.corrupt is None else n.corrupt
            if meta is not None and meta.file_id != n.file_id:
                if meta.file_id not in n.versions or not store.keeps_versions:
                    raise exc.NoRemoteFileWithThatIdError(f'{n.id} {meta.file_id}')
                data = n.versions[meta.file_id]
            cs = store.chunksize
            served = 0
            for i in range(0, len(data) if not store.yields_empty else max(len(data), 1), cs):
                if store.fault_after is not None and served >= store.fault_after:
                    raise FetchFault(5, 'injected remote failure')
                yield data[i:i + cs]
                served += 1
            if store.fault_after is not None and served >= store.fault_after:
                raise FetchFault(5, 'injected remote failure at end')

        @property
        def data(self):
            yield from self._data_for(None)

        def refresh(self, update_cache=False, update_data=False,
                    update_data_on_cache=False, size_limit_mb=2, force=False):
            # mirrors the only published subclass of this interface
            if self.id not in store.nodes:
                return None
            cache = self.cache
            if update_cache or update_data:
                file_is_different = self.update_cache()
                # the cache may have been moved
                path = cache.anchor.local / self.as_path()
                newcache = path.cache
                if newcache is not None:
                    self._cache = newcache
                    newcache._remote = self
                udoc = update_data_on_cache and file_is_different
                update_data = update_data or udoc
            if update_data and self.is_file():
                self.cache.fetch(size_limit_mb=size_limit_mb)
            return self.cache

    if default_place:
        del VfRemote.as_path
    for k, v in (remote_body or {}).items():
        setattr(VfRemote, k, v)

    Remote = VfRemote._new(Local, VfCache)
    if init:
        Remote.init(store.root_id)
    return Local, VfCache, Remote


# ------------------------------------------------------- looking at the disk

def raw_xattrs(path, prefix=None):
    """ user namespace attributes straight from the operating system """
    import os
    out = {}
    for k in os.listxattr(path, follow_symlinks=False):
        if k.startswith('user.'):
            kk = k[len('user.'):]
            if prefix is None or kk.startswith(prefix + '.'):
                out[kk.encode()] = os.getxattr(path, k, follow_symlinks=False)
    return out


def disk_meta(aug, path, prefix='vf'):
    """ cached metadata as a new process would find it, None if there is none """
    import os
    path = os.fspath(path)
    if os.path.islink(path):
        first, *rest = os.readlink(path).split('/')
        # placeholders point to their own name and then a record, all other links are not ours
        if os.path.exists(path) or not rest or not rest[-1].startswith(('.meta.', '.mdv')):
            return None
        return aug.PathMeta.from_symlink(aug.AugmentedPath(path), match_name=False)
    xs = raw_xattrs(path, prefix)
    if not xs:
        return None
    m = aug.PathMeta.from_xattrs(xs, prefix)
    return m if m.id is not None else None


def tree(root, skip=('.operations',)):
    """ relative path -> (kind, content) """
    import os
    root = os.fspath(root)
    out = {}
    for d, ds, fs in os.walk(root):
        for n in list(ds):
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            if d == root and n in skip:
                ds.remove(n)
                continue
            if os.path.islink(p):
                out[rel] = ('link', os.readlink(p))
            else:
                out[rel] = ('dir', None)
        for n in fs:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ('link', os.readlink(p))
            elif os.path.isfile(p):
                with open(p, 'rb') as f:
                    out[rel] = ('file', f.read())
            else:
                out[rel] = ('other', None)
    return out


NAMES = ['a', 'b.txt', 'c d.dat', 'é.csv', 'data.tar.gz', '.hidden', 'x-1_2', 'sub-01', 'primary',
         'README', 'n.0', '漢字', 'UPPER.TXT', 'a.b.c', 'z' * 60, 'q(1)', 'k=v', 'p+q', "o'brien", 'tab\tx']


class World:
    """ one project: a remote store and one local replica of it """

    def __init__(self, ctx, aug, r, *, ndirs=4, nfiles=6, max_size=20000, cypher=None, prefix='vf',
                 anchor=True, base=None, default_place=None, **kw):
        self.ctx, self.aug, self.r = ctx, aug, r
        self.prefix = prefix
        self.cypher = cypher or r.choice([hashlib.sha256, hashlib.md5, hashlib.blake2b])
        self.store = Store(default_cypher=self.cypher)
        self.store.chunksize = r.choice([7, 100, 1000, 4096, 100000])
        self.store.yields_empty = r.random() < .5
        self.max_size = max_size
        self.boots = r.randrange(2)
        self.dirs = [self.store.root]
        self.files = []
        for _ in range(ndirs):
            self.add_dir()
        for _ in range(nfiles):
            self.add_file()
        self.base = ctx.newdir() if base is None else base
        # some remotes know where they are, for others the library works it out
        kw['default_place'] = r.random() < .5 if default_place is None else default_place
        self.kw = kw
        self.open_session()
        if anchor:
            self.anchor = self.R.dropAnchor(self.L(self.base))

    def open_session(self):
        """ new process: nothing survives except the disk and the remote """
        self.L, self.C, self.R = build(self.aug, self.store, cypher=self.cypher, prefix=self.prefix, **self.kw)

    def reopen(self):
        self.open_session()
        self.anchor = self.R.smartAnchor(self.L(self.base))
        if '_anchor' not in self.C.__dict__:
            self.C._anchor = self.anchor
        return self.anchor

    # remote side
    def free_name(self, parent):
        used = {c.name for c in self.store.children(parent)}
        for _ in range(40):
            n = self.r.choice([*NAMES, self.store.root.name])
            if n not in used:
                return n
        return 'f%d' % self.r.randrange(10**9)

    def blob(self):
        r = self.r
        n = r.choice([0, 1, 2, 6, 7, 8, 99, 100, 101, 4095, 4096, 4097, r.randrange(0, self.max_size)])
        return r.randbytes(n)

    def add_dir(self, parent=None, name=None):
        parent = parent or self.r.choice(self.dirs)
        n = self.store.add(parent, name or self.free_name(parent), True)
        self.dirs.append(n)
        return n

    def add_file(self, parent=None, data=None, name=None):
        parent = parent or self.r.choice(self.dirs)
        n = self.store.add(parent, name or self.free_name(parent), False,
                           self.blob() if data is None else data)
        self.files.append(n)
        return n

    # local side
    @property
    def root(self):
        return self.base / self.store.root.name

    def where(self, node):
        return self.root / self.store.path(node)

    def local(self, node):
        return self.L(self.where(node))

    def bootstrap(self, **kw):
        r = self.anchor.remote
        self.boots += 1
        if self.boots % 2 == 0 and set(kw) <= {'only', 'skip', 'sparse'}:
            return r.bootstrap(recursive=True, **kw)     # the other way to say the same
        return self.anchor.bootstrap(r.meta, recursive=True, **kw)

    def meta_at(self, path):
        return disk_meta(self.aug, path, self.prefix)

    def find_ids(self):
        """ id -> list of relative paths that carry it, from the disk alone """
        import os
        out = {}
        for rel in tree(self.root):
            m = self.meta_at(self.root / rel)
            if m is not None:
                out.setdefault(m.id, []).append(rel)
        return out

    def all_bytes(self):
        """ every file content anywhere below the base directory, trash included """
        return {c for k, c in tree(self.base, skip=()).values() if k == 'file'}

    def expected_tree(self, fetched=()):
        out = {}
        for n in self.store.rchildren(self.store.root):
            rel = str(self.store.path(n))
            out[rel] = 'dir' if n.is_dir else ('file' if n.id in fetched else 'link')
        return out

    def close(self):
        from .common import force_rmtree
        force_rmtree(self.base)
