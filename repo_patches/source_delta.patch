From 6fa8c210b84df6d4871f4975aeb24bbf463bf4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 01/80] fix: compare PathMeta by field value not by how
 timestamps are stored

---
 augpathlib/meta.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 99cc09a..b431033 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -156,11 +156,9 @@ class PathMeta:
 
     def __eq__(self, other):
         if isinstance(other, PathMeta):
-             for field, value in self.__dict__.items():
-                  if value != getattr(other, field):
-                       return False
-             else:
-                  return True
+             # compare via items because how a timestamp happens to be stored
+             # (parsed, or still the string it was decoded from) is not data
+             return dict(self.items()) == dict(other.items())
 
     def __bool__(self):
         for k, v in self.__dict__.items():
-- 
2.43.0


From 67826602e59c834aadc06bda22910a3ddf5dd440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 02/80] fix: PathMeta mapping access returns values, copy and
 pickle work

---
 augpathlib/meta.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index b431033..2a3ce51 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -5,6 +5,7 @@ import pickle
 import struct
 import pathlib
 from datetime import datetime
+from functools import partial
 from dateutil import parser as dateparser
 from terminaltables3 import AsciiTable
 from augpathlib import exceptions as exc
@@ -140,15 +141,16 @@ class PathMeta:
 
     def __getitem__(self, key):
         try:
-            getattr(self, key)
+            return getattr(self, key)
         except AttributeError as e:
             raise KeyError(key)
 
     def __iter__(self):
-        yield from (k for k in self.__dict__ if not k.startswith('_'))
+        yield from (k for k, v in self.items())
 
     def __reduce__(self):
-        return (self.__class__, {k:v for k, v in self.items() if v is not None})
+        kwargs = {k:v for k, v in self.items() if v is not None}
+        return partial(self.__class__, **kwargs), tuple()
 
     def __repr__(self):
         _dict = {k:v for k, v in self.items() if not k.startswith('_')}
-- 
2.43.0


From 236e212012c6f9900f264da31681727ce29446b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 03/80] fix: refuse to write symlink metadata that would be
 read back as something else

---
 augpathlib/meta.py | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 2a3ce51..3fef516 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -277,6 +277,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
     write_version = 'mdv6'  # update this on new version
     order = versions[write_version]
     extras = 'size.hr',
+    string_fields = ('name', 'id', 'mode', 'old_id', 'parent_id', 'user_id', 'checksum_cypher')
 
     def __init__(self):
         # register functionality on PathMeta
@@ -308,11 +309,18 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             return self.empty
 
         if field in ('errors',):
-            return self.subfieldsep.join(value)
+            out = self.subfieldsep.join(value)
+            if '/' in out or self.fieldsep in out:
+                msg = f'Y U DO DIS >:| {field}: {value!r}'
+                raise ValueError(msg)  # FIXME error type
+
+            return self._readable(field, out, list(value))
 
         if field == 'checksum':
             return value.hex()  # raw hex may contain field separators :/
 
+        original = value
+
         if isinstance(value, str) and '/' in value:
             if self.pathsep in value:
                 msg = f'Y U DO DIS >:| {field}: {value!r}'
@@ -330,8 +338,24 @@ class _PathMetaAsSymlink(_PathMetaConverter):
 
             value = value.replace(self.fieldsep, self.fieldsep_esc)
 
+        if field in self.string_fields and isinstance(value, str):
+            return self._readable(field, value, original)
+
         return _str_encode(field, value)
 
+    def _readable(self, field, encoded, value):
+        """ fail now instead of writing something that will be
+            read back as some other value """
+        decoded = self.decode(field, encoded, int(self.write_version[3:]))
+        if field == 'user_id' and decoded is not None:
+            decoded = str(decoded)  # numeric user ids are always read as integers
+
+        if decoded != value or field == 'id' and not value:
+            msg = f'Y U DO DIS >:| {field}: {value!r}'
+            raise ValueError(msg)  # FIXME error type
+
+        return encoded
+
     def decode(self, field, value, version):
         if value == self.empty:
             return None
@@ -355,13 +379,13 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             count = int(strcount)
             return bytes.fromhex(checksum), count
 
-        elif field == 'user_id':
-            try:
-                return int(value)
-            except ValueError:  # FIXME :/ uid vs owner_id etc ...
-                return value
+        elif field in ('name', 'id', 'mode', 'old_id', 'parent_id', 'user_id'):
+            if field == 'user_id':
+                try:
+                    return int(value)
+                except ValueError:  # FIXME :/ uid vs owner_id etc ...
+                    pass
 
-        elif field in ('name', 'id', 'mode', 'old_id', 'parent_id'):
             if self.pathsep in value:
                 if field == 'name':
                     if version >= 5:
-- 
2.43.0


From 751beafbe3690c6862d258eb6f46628f1fb9d2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 04/80] fix: metadata symlinks in the original format can be
 read again

---
 augpathlib/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 3fef516..6839a6c 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -473,7 +473,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
     def from_parts(self, parts):
         data = parts[-1]
         _, version, *suffixes = data.split(self.fieldsep)
-        vint = int(version[3:])
+        vint = 0 if version == 'meta' else int(version[3:])  # meta predates mdv1
         order = self.versions[version]
         kwargs = {field:self.decode(field, value, vint)
                   for field, value in zip(order, suffixes)}
-- 
2.43.0


From ecca63059c6d1d5a0429bf74de9088d60017eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 05/80] fix: cache metadata on disk does not keep fields that
 are no longer present

---
 augpathlib/caches.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 2caee15..0659f0b 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1091,7 +1091,15 @@ class EatCache(EatPath, _CachePath):
             # where the checksum differs, the old version needs to be
             # trashed before any of this is written, otherwise the old
             # metadata is lost >_<
-            self.setxattrs(pathmeta.as_xattrs(self.xattr_prefix))
+            new = pathmeta.as_xattrs(self.xattr_prefix)
+            self.setxattrs(new)
+            existing = self.xattrs()
+            for field in PathMeta().keys():
+                # fields that are no longer present must not linger
+                key = f'{self.xattr_prefix}.{field}' if self.xattr_prefix else field
+                if key.encode() in existing and key.encode() not in new:
+                    self.delxattr(key)
+
             if hasattr(self, '_meta'):  # prevent reading from in-memory store
                 delattr(self, '_meta')
 
-- 
2.43.0


From 7991c2c91667684d1fb01b6886a5d37bd8a51b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 06/80] fix: errors recorded for old content are dropped when
 the content changes

---
 augpathlib/caches.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 0659f0b..458d2f4 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1393,7 +1393,8 @@ class PrimaryCache(CachePath):
                 if k == 'old_id':
                     continue
 
-                if vnew is None:
+                if vnew is None or k == 'errors' and not vnew:
+                    # errors about the old content say nothing about the new content
                     log.debug(kwargs.pop(k))
 
         #old.updated == new.updated
-- 
2.43.0


From 1062490d2603110df0aec17abf9a3d1c9a027b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 07/80] fix: content_different does not fail when a timestamp
 is missing

---
 augpathlib/meta.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 6839a6c..926020d 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -123,6 +123,7 @@ class PathMeta:
             return self.checksum != other.checksum
         else:
             return (self.size != other.size or
+                    None not in (self.updated, other.updated) and
                     self.updated < other.updated)
 
     def items(self):
-- 
2.43.0


From ec6a33e4e8423d0739ea103c24dd7f4386983e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 08/80] fix: pretty diff shows the fields of both sides instead
 of failing or dropping them

---
 augpathlib/meta.py | 43 +++++--------------------------------------
 1 file changed, 5 insertions(+), 38 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 926020d..73203ff 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -779,46 +779,13 @@ class _PathMetaAsPrettyDiff(_PathMetaAsPretty):
             title = red.format(title)
 
         def merge(a, b):
-            keys = [k for k, _ in a]
-            okeys = [ok for ok, _ in b]
-            kind = [(k, okeys.index(k) - i, k)
-                    if k in okeys else
-                    (None, 0, k) for i, k in enumerate(keys)]
-            okind = [(ok, keys.index(ok) - i, ok)
-                     if ok in keys else
-                     (None, 0, ok) for i, ok in enumerate(okeys)]
-            long, short = ((kind, okind)
-                           if len(kind) > len(okind) else
-                           (okind, kind))
-            start_align = None
-            aligned = []
-            offset = 0
-            for i, (k, v, av) in enumerate(long):
-                i -= offset
-                if k is None and start_align is None:
-                    aligned.append(av)
-                    aligned.append(short[i + v][-1])
-                elif k is not None:
-                    if v <= 0:
-                        start_align = i
-                        aligned.append(av)
-                    else:
-                        for j in range(v):
-                            aligned.append(short[i + j][-1])
-                        offset += v
-                        aligned.append(av)
-
-                elif k is None:
-                    aligned.append(av)
-                # FIXME what to do if short has a key that long does not?
-
-            lkv = len(a[0])
-            lokv = len(b[0])
             kv = {k:[k, v] for k, v in a}
             okv = {k:[k, v] for k, v in b}
-            for k in aligned:
-                l = kv[k] if k in kv else ([''] * lkv)
-                r = okv[k] if k in okv else ([''] * lokv)
+            known = [k for k in self.fields if k in kv or k in okv]
+            other = [k for k in {**kv, **okv} if k not in known]
+            for k in known + other:
+                l = kv[k] if k in kv else ['', '']
+                r = okv[k] if k in okv else ['', '']
                 yield l + r
 
         h = [['Key', 'Value', 'Key Other', 'Value Other']]
-- 
2.43.0


From d5c72d5b018d36e7391ae79b6597dbb2b66c78f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 09/80] fix: paths of one class that store extended attributes
 share one type so cached files can be moved

---
 augpathlib/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 8c48831..348e8d9 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -934,8 +934,12 @@ class EatPath(EatHelper, AugmentedPath):
         def __new__(cls, *args, **kwargs):
             helper = ADSHelper if os.name == 'nt' else XattrHelper
             if helper not in cls.mro():
-                # FIXME do we need to cache these so the types match?
-                cls = type(f'{cls.__name__}_{helper.__name__}', (cls, helper), {})
+                # always use the same class for cls so that the types match
+                # check __dict__ to avoid getting the class made for a parent
+                if '_helper_class' not in cls.__dict__:
+                    cls._helper_class = type(f'{cls.__name__}_{helper.__name__}', (cls, helper), {})
+
+                cls = cls._helper_class
 
             #breakpoint()
             return super().__new__(cls, *args, **kwargs)
-- 
2.43.0


From 400cb078a80bb7620644932ddbebe16bc8cc09a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 10/80] fix: remote paths are hashable so a project can be
 bootstrapped again

---
 augpathlib/remotes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 7188f8c..6e86a79 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -568,6 +568,9 @@ class RemotePath:
     def __ne__(self, other):
         return not self == other
 
+    def __hash__(self):
+        return hash(self.id)  # remotes are put in sets during bootstrap
+
     def __repr__(self):
         return f'{self.__class__.__name__}({self.id!r})'
 
-- 
2.43.0


From c264803ca234c1d81596c37779a7aa876146836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 11/80] fix: metadata that cannot be written as a symlink does
 not displace the existing symlink

---
 augpathlib/caches.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 458d2f4..9d0a3a1 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1252,6 +1252,9 @@ class SymlinkCache(_CachePath):
                 # FIXME do the timestamp dance above here
                 log.debug('Metadata exists, but ids match so will update')
 
+                # fail before the existing metadata is moved out of the way
+                pathmeta.as_symlink(local_name=self.local.name)
+
                 # trash old versions instead of just unlinking
                 primary_cache = self.local.cache
                 # the primary cache has the same path as self which
-- 
2.43.0


From 60178a3dd733ef0f9bd6a7988eb5bdc3fec35d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 12/80] fix: checksum uses the cypher it was asked for even if
 that is the default one

---
 augpathlib/core.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 348e8d9..029e9aa 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -793,22 +793,22 @@ class AugmentedPath(pathlib.Path):
                 else:
                     raise e
 
-    def checksum(self, cypher=default_cypher, extra_cyphers=tuple()):
+    def checksum(self, cypher=None, extra_cyphers=tuple()):
         """ checksum() always recomputes from the data
             meta.checksum is static for cache and remote IF it exists """
         # FIXME the cypher cannot be determined independent of a call to checksum
 
         if self.is_file():
-            if cypher != default_cypher:
-                pass  # FIXME this is SO DUMB (see commit message)
-            elif ((hasattr(self, '_cache_class') and
-                 hasattr(self._cache_class, 'cypher') and
-                 self._cache_class.cypher != cypher)):  # FIXME this could be static ...
-                cypher = self._cache_class.cypher
-
-            elif (hasattr(self, 'cypher') and
-                  self.cypher != cypher):
-                cypher = self.cypher
+            if cypher is None:
+                cypher = default_cypher
+                if ((hasattr(self, '_cache_class') and
+                     hasattr(self._cache_class, 'cypher') and
+                     self._cache_class.cypher != cypher)):  # FIXME this could be static ...
+                    cypher = self._cache_class.cypher
+
+                elif (hasattr(self, 'cypher') and
+                      self.cypher != cypher):
+                    cypher = self.cypher
 
             m = cypher()
             extra = [c() for c in extra_cyphers]
-- 
2.43.0


From 18c465ba2c0f4514a0ac263c55ead6dac65cfde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 13/80] fix: local changes are detected using the cypher of the
 cached checksum

---
 augpathlib/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 029e9aa..09424ca 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1479,6 +1479,10 @@ class LocalPath(EatPath, AugmentedPath):
     def content_different(self):
         cmeta = self.cache.meta
         if cmeta.checksum:
+            if cmeta.checksum_cypher is not None:
+                # not all files from one remote have to use the same cypher
+                return self.checksum(cypher=self.cache._instance_cypher()) != cmeta.checksum
+
             return self.meta.content_different(cmeta)
         else:
             # TODO use the index for this
-- 
2.43.0


From 599db0f49aa242f073e15346b6f4c2e7e6256fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 14/80] fix: moving a cached path does not take over the
 identity of whatever is at the target

The target was given the metadata of the path being moved before checking
whether it is something else, so the check could never fail and renames onto
an occupied name overwrote the id (and data) of what was there. Missing
parents are now created with their own metadata, and when the rename itself
fails the freshly made target is removed again and the error is raised.
---
 augpathlib/caches.py | 42 +++++++++++++++++++++++++++++++++++++++---
 augpathlib/core.py   |  7 +++++--
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 9d0a3a1..b71d39a 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -936,16 +936,36 @@ class _CachePath(AugmentedPath):
             raise TypeError('either remote or meta and target are required arguments')
 
         # deal with moving to a different directory that might not even exist yet
-        if target is None:
+        from_remote = target is None
+        if from_remote:
             if not isinstance(self.anchor, self.__class__):
                 raise TypeError(f'mismatched anchor types {self!r} {self.anchor!r}')
 
-            target = self.anchor / remote  # FIXME why does this not try to instantiate the caches? or does it?
+            # do not write metadata until we know that the target is not something else
+            target = self.anchor.__truediv__(remote, update_meta=False)
 
         if target.absolute() == self.absolute():
             log.warning(f'trying to move a file onto itself {self.absolute()}')
+            if from_remote:
+                remote._cache_setter(target)
+
             return target
 
+        # this has to be checked before any metadata is written to the target
+        # because otherwise the target will always have the id of self
+        target_local = self.local_class(target)
+        target_existed = target_local.exists() or target_local.is_symlink()
+        if target_existed:
+            existing = target_local.cache
+            if existing is None or existing.id != self.id:
+                if remote is not None:
+                    remote._cache = self  # restore the mapping for remote -> self
+
+                if target_local.is_broken_symlink():
+                    raise exc.WhyDidntThisGetMovedBeforeError(f'\n{target}\n{self}')
+                else:
+                    raise exc.PathExistsError(f'Target {target} already exists!')
+
         common = self.local.commonpath(target).absolute()
         target_parent = target.parent.absolute()
         parent = self.local.parent.absolute()
@@ -963,7 +983,10 @@ class _CachePath(AugmentedPath):
             if remote is None:  # we have to have a remote to pull parent structure
                 remote = self._remote_class(meta)
 
-            target_parent.mkdir_cache(remote)
+            self.local_class(target_parent).mkdir_cache(remote, anchor=self.anchor)
+
+        if from_remote:
+            remote._cache_setter(target)
 
         do_cast = not isinstance(target, self.__class__)
         if do_cast:
@@ -1008,6 +1031,19 @@ class _CachePath(AugmentedPath):
                 log.exception(e)
                 if safe_unlink.is_broken_symlink():
                     safe_unlink.rename(target)
+
+                if not target_existed:
+                    # self is still where it was so there must not be
+                    # a second path with the same id
+                    if target.is_broken_symlink():
+                        target.unlink()
+                    elif target.is_dir():
+                        target.rmdir()
+
+                    if remote is not None:
+                        remote._cache = self
+
+                    raise e
             finally:
                 if safe_unlink.is_broken_symlink():
                     safe_unlink.unlink()
diff --git a/augpathlib/core.py b/augpathlib/core.py
index 09424ca..877f3ed 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1065,7 +1065,7 @@ class LocalPath(EatPath, AugmentedPath):
 
         return cache
 
-    def mkdir_cache(self, remote):  # XXX hack around my idiocy / desire to not hit the network
+    def mkdir_cache(self, remote, anchor=None):  # XXX hack around my idiocy / desire to not hit the network
         """ wow side effects everywhere
             given a remote, create the local folder structure
             and attach the remote metadata as cache
@@ -1077,10 +1077,13 @@ class LocalPath(EatPath, AugmentedPath):
 
         cc = self._cache_class
         rc = cc._remote_class
+        if anchor is None:
+            anchor = cc.anchor
+
         for parent in reversed(tuple(remote.parents)):
             # remote as_path is always a PurePosixPath relative to the
             # anchor and does not include the anchor
-            local_path = cc.anchor.local / parent.as_path()
+            local_path = anchor.local / parent.as_path()
             if not local_path.exists():
                 local_path.mkdir()
                 rc(parent, cache=cc(local_path, remote=parent, meta=parent.meta))
-- 
2.43.0


From c5b1fd103e96ed504365844f3549610c38ceb492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 15/80] fix: bootstrap does not loop forever when there are
 local folders that are not on the remote

---
 augpathlib/caches.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index b71d39a..6dd2c3c 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -485,6 +485,10 @@ class _CachePath(AugmentedPath):
                     ad = self.anchor.local / d
                     if ad.cache is None:
                         log.critical(f'would you fix the nullability already? {d}')
+                        # there is nothing to refresh for a folder that the
+                        # remote does not know about so do not look again
+                        local_dirs = local_dirs - {d}
+                        old_local = local_dirs - rd
                         continue
                     new = ad.cache.refresh()
                     #log.info(f'{new}')
-- 
2.43.0


From 80a2c9305528b3058ed6abb3b5504c64a82078ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 16/80] fix: bootstrap moves folders that were renamed together
 with their parents or whose name is used by another folder

---
 augpathlib/caches.py | 80 +++++++++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 27 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 6dd2c3c..3d49532 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -467,34 +467,14 @@ class _CachePath(AugmentedPath):
         #rcs = sname(self.remote._rchildren(create_cache=False, sparse=sparse))
         rcs = self.remote._rchildren(create_cache=False, sparse=sparse)
 
-        local_paths = list(self.local.rchildren)
-        local_files = set(p for p in local_paths if p.is_file() or p.is_broken_symlink())
-        file_index = {f.cache_id:f for f in local_files}  # FIXME WARNING can get big
-        # FIXME have to compute file_index here because for some reason
-        # computing local_dirs will remove folders entirely !??
-        local_dirs = set(p.relative_to(self.anchor) for p in local_paths if p.is_dir())
-        if local_dirs:
+        if any(p.is_dir() for p in self.local.rchildren):
             rcs = list(rcs)  # sigh
-            remote_dirs = set(c for c in rcs if c.is_dir())
-
-            rd = set(d.as_path() for d in remote_dirs)  # FIXME as_path => lots of network calls
-            old_local = local_dirs - rd
-            while old_local:
-                thisl = sorted(old_local, key=lambda d: len(d.as_posix()))
-                for d in thisl:
-                    ad = self.anchor.local / d
-                    if ad.cache is None:
-                        log.critical(f'would you fix the nullability already? {d}')
-                        # there is nothing to refresh for a folder that the
-                        # remote does not know about so do not look again
-                        local_dirs = local_dirs - {d}
-                        old_local = local_dirs - rd
-                        continue
-                    new = ad.cache.refresh()
-                    #log.info(f'{new}')
-                    local_dirs = set(ld for ld in local_dirs
-                                     if not ld.as_posix().startswith(d.as_posix()))
-                    old_local = local_dirs - rd
+            self._bootstrap_existing_dirs([c for c in rcs if c.is_dir()])
+
+        # has to come after the folders are where they are supposed to be
+        # because otherwise the paths in the index are out of date
+        local_files = set(p for p in self.local.rchildren if p.is_file() or p.is_broken_symlink())
+        file_index = {f.cache_id:f for f in local_files}  # FIXME WARNING can get big
 
         if sparse:
             #if local_dirs:
@@ -536,6 +516,52 @@ class _CachePath(AugmentedPath):
 
             yield cc
 
+    def _bootstrap_existing_dirs(self, remote_dirs):
+        """ bring local folders to where they are on the remote and
+            get rid of those that are no longer there """
+        rd = {d.id: d.as_path() for d in remote_dirs}  # FIXME as_path => lots of network calls
+        done = set()
+        progress = True
+        while progress:
+            progress = False
+            error = None
+            todo = []
+            for p in self.local.rchildren:
+                if p.is_dir():
+                    id = None if p.cache is None else p.cache.id
+                    d = p.relative_to(self.anchor)
+                    if id is None:
+                        # there is nothing to refresh for a folder that the
+                        # remote does not know about
+                        log.critical(f'would you fix the nullability already? {d}')
+                    elif rd.get(id) != d and (d, id) not in done:
+                        # parents have to move before the folders inside of them and
+                        # something inside a folder that was deleted may have moved out
+                        todo.append((id not in rd, len(rd.get(id, d).parts), d, id))
+
+            for gone, depth, d, id in sorted(todo):
+                ad = self.anchor.local / d
+                if not ad.exists() or ad.cache is None or ad.cache.id != id:
+                    break  # went along with one of its parents so look again
+
+                if error is not None and depth > error_depth and not gone:
+                    continue  # might have to go into the one that is stuck
+
+                try:
+                    ad.cache.refresh()
+                except exc.PathExistsError as e:
+                    # the folder that is in the way might be about to move
+                    error, error_depth = e, depth
+                    continue
+
+                done.add((d, id))
+                progress = True
+                if error is not None:
+                    break
+
+        if error is not None:
+            raise error
+
     def _bootstrap_prepare_filesystem(self, parents, fetch_data, size_limit_mb, sparse=False):
         # we could use bootstrapping id here and introspect the id, but that is cheating
         if self.remote.is_dir():
-- 
2.43.0


From af9c7deea76647bf87ecd6764810ee024c6774e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:56 +0000
Subject: [PATCH 17/80] fix: empty content can be written, copied and fetched

---
 augpathlib/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 877f3ed..99fef88 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1360,7 +1360,7 @@ class LocalPath(EatPath, AugmentedPath):
         # SO. It turns out that open(thing, 'wb') has fundamentally different
         # semantics on posix and windows (wheeeeeeeeeee!) on posix it keeps
         # xattrs intact, on windows it erases them AAAAAAAAAAAAAAAAAAAAAAA
-        chunk1 = next(generator)  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
         with open(self, 'ab') as f:
             f.seek(0)
             f.truncate()
@@ -1370,7 +1370,7 @@ class LocalPath(EatPath, AugmentedPath):
                 f.write(chunk)
 
     def _write_chunks_posix(self, generator):
-        chunk1 = next(generator)  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
         with open(self, 'wb') as f:
             f.write(chunk1)
             for chunk in generator:
@@ -1413,7 +1413,7 @@ class LocalPath(EatPath, AugmentedPath):
         # FIXME if the generator can silently fail that is very very bad news ...
         # but how/why would they be silently failing ??!
         log.debug(f'writing to {self}')
-        chunk1 = next(generator)  # if an error occurs don't open the file
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file
         with open(self, 'ab' if append else 'wb') as f:
             f.write(chunk1)
             yield chunk1
-- 
2.43.0


From f77b6b0db27296dfb79c1732a00dc8371d05b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:53 +0000
Subject: [PATCH 18/80] fix: reading a range as long as the chunksize

---
 augpathlib/core.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 99fef88..d882729 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1327,16 +1327,13 @@ class LocalPath(EatPath, AugmentedPath):
                 f.seek(start, 2 if start < 0 else 0)
                 if end is not None:
                     total = end - start
-                    if total < chunksize:
-                        nchunks = 0
-                        last_chunksize = total
-                    elif total > chunksize:
-                        nchunks, last_chunksize = divmod(total, chunksize)
+                    nchunks, last_chunksize = divmod(total, chunksize)
 
                     for _ in range(nchunks):  # FIXME boundscheck ...
                         yield f.read(chunksize)
 
-                    yield f.read(last_chunksize)
+                    if last_chunksize:
+                        yield f.read(last_chunksize)
 
                 else:
                     while True:
-- 
2.43.0


From 48abd16991aceb0d519eccec184d81030e775b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 19/80] fix: copying a file onto itself does not truncate it

---
 augpathlib/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index d882729..d1993a1 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1425,6 +1425,10 @@ class LocalPath(EatPath, AugmentedPath):
             target = self.__class__(target)
 
         if not target.exists() and not target.is_symlink() or force:
+            if target.exists() and target.samefile(self):
+                # opening the target for writing would truncate self
+                raise shutil.SameFileError(f'{self} and {target} are the same file')
+
             target.data = self.data
         else:
             raise exc.PathExistsError(f'{target}')
-- 
2.43.0


From 4a2fcd563ba9100507b34b2dd7cbc5a27955eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 20/80] fix: a file that was moved and changed on the remote
 does not end up in two places after bootstrap

---
 augpathlib/caches.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 3d49532..fd51d38 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -504,6 +504,15 @@ class _CachePath(AugmentedPath):
                     file_is_different, nmeta = self._update_meta(cmeta, rmeta)
                     if file_is_different:
                         log.critical(f'WAT {_cache}')
+                        new_local = self.anchor.local / child.as_path()
+                        if not new_local.exists() and not new_local.is_symlink():
+                            # moved as well, move the one we have so that
+                            # there are not two paths with the same id
+                            cc = _cache.refresh()
+                            if cc is not None:
+                                yield cc
+
+                            continue
                     else:
                         yield _cache
                         # yield the old cache if it exists
-- 
2.43.0


From 625cdc11ff869b026622ab84c3567bd231578482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 21/80] fix: an early etag digest does not corrupt the digests
 that follow

---
 augpathlib/utils.py | 37 +++++++++----------------------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index 7b1684f..43b6b3c 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -202,54 +202,35 @@ class etag:
 
     def __init__(self, chunksize):
         self.chunksize = chunksize
-        self._m = self.cypher()
         self._parts = []
         self._remainder = b''
-        self._last_chunksize = 0
 
     def update(self, bytes_):
         remainder, self._remainder = self._remainder, b''
         bio = io.BytesIO(remainder + bytes_)  # inefficient for len(bytes_) << self.chunksize
         while True:
-            if self._last_chunksize:
-                # in the event a restart is required only
-                # only read the number of bytes left for
-                # the current chunk to update self._m
-                chunksize = self.chunksize - self._last_chunksize
-                self._last_chunksize = 0
-            else:
-                chunksize = self.chunksize
-
             chunk = self._remainder
-            self._remainder = bio.read(chunksize)
+            self._remainder = bio.read(self.chunksize)
             if not self._remainder:
                 # the second time around at the end this will break the loop if the chunk
                 # is exactly equal to the chunk size
-                if len(chunk) < chunksize:
+                if len(chunk) < self.chunksize:
                     self._remainder = chunk
                     return
 
             if chunk:
-                self._m.update(chunk)  # empty remainder doesn't advance the function
-                digest = self._m.digest()
-                self._m = self.cypher()
-                if chunksize < self.chunksize:
-                    # we are in a restart and need to update the last part with the
-                    # digest for the full chunksize
-                    self._parts[-1] = digest
-                else:
-                    self._parts.append(digest)
+                # empty remainder doesn't advance the function
+                self._parts.append(self.cypher(chunk).digest())
 
     def digest(self):
+        parts = self._parts
         if self._remainder:
-            self._last_chunksize = len(self._remainder)  # in case someone calls an early digest
-            self._m.update(self._remainder)
-            self._parts.append(self._m.digest())  # do not overwrite self._m yet
-            self._remainder = b''  # this allows a stable call at the end
+            # do not change any state in case someone calls an early digest
+            parts = parts + [self.cypher(self._remainder).digest()]
 
         m = self.cypher()
-        m.update(b''.join(self._parts))
-        return m.digest(), len(self._parts)
+        m.update(b''.join(parts))
+        return m.digest(), len(parts)
 
     def hexdigest(self):
         digest, count = self.digest()
-- 
2.43.0


From 4b8d144fbb22c095d77e8e91881d78a6c19c4212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:49 +0000
Subject: [PATCH 22/80] fix: local metadata with and without checksum or etag
 are not mixed up, etag can be computed, created is returned

---
 augpathlib/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index d1993a1..bbbd43a 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1194,7 +1194,7 @@ class LocalPath(EatPath, AugmentedPath):
 
     @property
     def created(self):
-        self.meta.created
+        return self.meta_no_checksum.created
 
     def _stat(self):
         """ sometimes python just doesn't have what it takes """
@@ -1247,6 +1247,9 @@ class LocalPath(EatPath, AugmentedPath):
                         fs_data_modified_time) = (st.st_ctime,
                                                   st.st_mtime)
 
+        # metadata with and without a checksum or an etag are not the same
+        change_tuple = (*change_tuple, st.st_ino, st.st_size, checksum, chunksize)
+
         if hasattr(self, '_meta') and self._meta is not None:
             if self.__change_tuple == change_tuple:
                 return self._meta
@@ -1292,7 +1295,7 @@ class LocalPath(EatPath, AugmentedPath):
                               updated=updated,
                               checksum=checksum,
                               checksum_cypher=checksum_cypher,
-                              etag=self.etag() if chunksize else None,
+                              etag=self.etag(chunksize) if chunksize else None,
                               chunksize=chunksize,
                               parent_id=self.parent_id,
                               id=self.id,
-- 
2.43.0


From 417810917e0dd789de4358d090eb5b2655f078ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 23/80] fix: local metadata is not outdated after reading the
 file failed

---
 augpathlib/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index bbbd43a..6754870 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1256,9 +1256,6 @@ class LocalPath(EatPath, AugmentedPath):
 
             old_meta = self._meta  # TODO log changes?
 
-
-        self.__change_tuple = change_tuple  # TODO log or no?
-
         # XXX interpretational note here, nearly all file systems do not have
         # a file birthdate that they track and the remote that we work against
         # treats files as immutable objects, what this means is that posix mtime
@@ -1306,6 +1303,8 @@ class LocalPath(EatPath, AugmentedPath):
                               # man use auth is all bad :/
                               gid=st.st_gid,
                               mode=mode)
+        # set last so that old metadata is not returned if this failed
+        self.__change_tuple = change_tuple  # TODO log or no?
 
         return self._meta
 
-- 
2.43.0


From d4a0eb4180dd8f01401c235dadae303fd6bb32c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 24/80] fix: validating a file with the wrong checksum records
 the mismatch instead of failing

---
 augpathlib/caches.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index fd51d38..881affc 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -652,9 +652,10 @@ class _CachePath(AugmentedPath):
             if lc != cc:
                 msg = f'Checksums do not match!\n(!=\n{lc.hex()}\n{cc.hex()}\n)'
                 log.critical(msg)  # haven't figured out how to comput the bf checksums yet
-                nmeta = {k: v for k, v in meta.items()}
-                nmeta['errors'] += ('checksum-mismatch',)
-                self.meta = meta.__class__(**nmeta)
+                if 'checksum-mismatch' not in meta.errors:
+                    nmeta = {k: v for k, v in meta.items()}
+                    nmeta['errors'] += ('checksum-mismatch',)
+                    self._meta_setter(meta.__class__(**nmeta))
                 #raise exc.ChecksumError(msg)
         elif meta.size is not None:
             log.warning(f'No checksum! Your data is at risk!\n'
-- 
2.43.0


From 22dbb541aa571e9b19fcf9d1989f5eecbe32e8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:07 +0000
Subject: [PATCH 25/80] fix: recursive removal is not fooled by .. or symlinks
 and refuses before removing anything

---
 augpathlib/core.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 6754870..0e7c5ef 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -656,14 +656,21 @@ class AugmentedPath(pathlib.Path):
 
         if not (DANGERZONE is True):  # prevent python type coersion
             # TODO test in a chroot
-            lenparts = len(self.parts)
+            # neither .. nor a symlink on the way may disguise what will be removed
+            head, tail = os.path.split(os.fspath(self))
+            real = pathlib.Path(os.path.realpath(self) if tail in ('', '..') else
+                                os.path.join(os.path.realpath(head), tail))
+            cwd = pathlib.Path.cwd()
+            lenparts = len(real.parts)
             if lenparts <= 2:
                 raise exc.WillNotRemovePathError(f'Will not remove top level paths. {self}')
-            elif lenparts <= 3 and 'home' in self.parts:
+            elif lenparts <= 3 and 'home' in real.parts:
                 raise exc.WillNotRemovePathError(f'Will not remove home directories. {self}')
-            elif self == pathlib.Path.cwd():
+            elif real == cwd or real in cwd.parents:
+                # also refuse parents so that we do not find out halfway through
                 raise exc.WillNotRemovePathError(f'Will not remove current working directory. {self}')
 
+        path = self
         try:
             if self.is_dir():
                 if self.is_symlink():
-- 
2.43.0


From d053229e964717a3ad89f30ef77628b654d1860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:07 +0000
Subject: [PATCH 26/80] fix: swap works for relative and undecodable names,
 keeps errno, opens nothing, and a failed swap_carefree leaves both paths in
 place

---
 augpathlib/core.py | 19 +++++++++++++++----
 augpathlib/swap.py | 22 +++++++++++-----------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 0e7c5ef..0b2cecd 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -552,10 +552,21 @@ class AugmentedPath(pathlib.Path):
             # rename target -> temp
             # rename self -> target
             # rename target -> self
-            target.rename(temp)
-            self.rename(target)
-            temp.rename(self)
-            temp_dir.rmdir()
+            try:
+                target.rename(temp)
+                try:
+                    self.rename(target)
+                    try:
+                        temp.rename(self)
+                    except BaseException:
+                        target.rename(self)
+                        raise
+                except BaseException:
+                    # do not leave target out of place
+                    temp.rename(target)
+                    raise
+            finally:
+                temp_dir.rmdir()
 
     if sys.platform != 'linux':  # just look at us not using pathlib's infra ...
         _swap = swap.swap_not_implemented
diff --git a/augpathlib/swap.py b/augpathlib/swap.py
index 5fe6fce..3295e91 100644
--- a/augpathlib/swap.py
+++ b/augpathlib/swap.py
@@ -15,9 +15,10 @@ if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
     # setup for calling renameat2
     SYS_renameat2 = 316  # from /usr/include/asm/unistd_64.h
     RENAME_EXCHANGE = (1 << 1)  # /usr/src/linux/include/uapi/linux/fs.h
-    libc = ctypes.CDLL(None)
+    AT_FDCWD = -100  # from /usr/include/linux/fcntl.h
+    libc = ctypes.CDLL(None, use_errno=True)
     rnat2_syscall = libc.syscall
-    rnat2_syscall.restypes = ctypes.c_int       # returns an int
+    rnat2_syscall.restype = ctypes.c_long       # returns an int
     rnat2_syscall.argtypes = (ctypes.c_int,     # syscall number
                               ctypes.c_int,     # old dir fd
                               ctypes.c_char_p,  # oldpath
@@ -27,15 +28,14 @@ if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
 
     def swap_linux(self, target):
         """ use renameat2 to perform an atomic swap operation """
-        old_fd = os.open(self, 0)
-        new_fd = os.open(target, 0)
-        old_path = os.fspath(self).encode()
-        new_path = os.fspath(target).encode()
+        old_path = os.fsencode(self)
+        new_path = os.fsencode(target)
+        # there is no need to open the paths, relative paths are
+        # relative to the current working directory
         value = rnat2_syscall(SYS_renameat2,
-                              old_fd, old_path,
-                              new_fd, new_path,
+                              AT_FDCWD, old_path,
+                              AT_FDCWD, new_path,
                               RENAME_EXCHANGE)
-        os.close(old_fd)
-        os.close(new_fd)
         if value != 0:
-            raise OSError(value, 'renameat2 failed', self, None, target)
+            eno = ctypes.get_errno()
+            raise OSError(eno, f'renameat2 failed: {os.strerror(eno)}', self, None, target)
-- 
2.43.0


From 5872471e213916c168a5c380a807cf8a71c0bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 27/80] fix: pushd, popd and entering a path keep track of
 where to return to

---
 augpathlib/caches.py | 11 +++++++----
 augpathlib/core.py   | 26 ++++++++++++++++++--------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 881affc..65e4b1f 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -37,11 +37,14 @@ class _CachePath(AugmentedPath):
 
     def __enter__(self):
         if self.is_dir():
-            self._entered_from = self.local.cwd()  # caches can't exist outside their anchor anymore
-            self.chdir()
-            return self
+            # caches can't exist outside their anchor anymore
+            return self._enter_from(self.local.cwd())
         else:
-            super().__enter__(self)
+            return super().__enter__()
+
+    def pushd(self):
+        # the current directory and the stack are local paths
+        self.local.pushd()
 
     @classmethod
     def setup(cls, local_class, remote_class_factory):
diff --git a/augpathlib/core.py b/augpathlib/core.py
index 0b2cecd..6d9960c 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -728,8 +728,10 @@ class AugmentedPath(pathlib.Path):
 
     def pushd(self):
         if self.is_dir():
-            AugmentedPath._stack.append(self.cwd())
+            cwd = self.cwd()
             self.chdir()
+            # only after chdir succeeds, otherwise the stack would be out of sync
+            AugmentedPath._stack.append(cwd)
             print(*reversed(AugmentedPath._stack), self.cwd())
         else:
             raise NotADirectoryError(f'{self} is not a directory')
@@ -741,8 +743,9 @@ class AugmentedPath(pathlib.Path):
         # so we invert the N dex
         reversed_index = - (N + 1)
         if AugmentedPath._stack:
-            path = AugmentedPath._stack.pop(reversed_index)
+            path = AugmentedPath._stack[reversed_index]
             path.chdir()
+            AugmentedPath._stack.pop(reversed_index)
             print(*reversed(AugmentedPath._stack), AugmentedPath.cwd())
             return path
         else:
@@ -750,16 +753,23 @@ class AugmentedPath(pathlib.Path):
 
     def __enter__(self):
         if self.is_dir():
-            self._entered_from = self.cwd()
-            self.chdir()
-            return self
+            return self._enter_from(self.cwd())
         else:
-            super().__enter__()
+            return super().__enter__()
+
+    def _enter_from(self, cwd):
+        self.chdir()
+        # the same path can be entered again before it is exited
+        if not hasattr(self, '_entered_from'):
+            self._entered_from = []
+
+        self._entered_from.append(cwd)
+        return self
 
     def __exit__(self, t, v, tb):
-        if hasattr(self, '_entered_from'):
+        if getattr(self, '_entered_from', None):
             # if is_dir fails because of a change still try to return
-            self._entered_from.chdir()
+            self._entered_from.pop().chdir()
         else:
             super().__exit__(t, v, tb)
 
-- 
2.43.0


From 622d562bb88ecfb3dfcf17be221429b878b09536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 28/80] fix: mimetype and encoding of relative paths use the
 name of the path like those of absolute paths

---
 augpathlib/core.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 6d9960c..7f05720 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -779,10 +779,8 @@ class AugmentedPath(pathlib.Path):
             return 'inode/directory'  # matches _magic_mimetype
 
         if not self.is_absolute():  # needed for safe as_uri
-            if self.is_broken_symlink():
-                self = self.absolute()
-            else:
-                self = self.resolve()
+            # don't resolve, the name should not depend on how the path is written
+            self = self.absolute()
 
         mime, encoding = mimetypes.guess_type(self.as_uri())
         if mime:
@@ -796,7 +794,7 @@ class AugmentedPath(pathlib.Path):
     @property
     def encoding(self):
         if not self.is_absolute():  # needed for safe as_uri
-            self = self.resolve()
+            self = self.absolute()
 
         mime, encoding = mimetypes.guess_type(self.as_uri())
         if encoding:
-- 
2.43.0


From a9ffcef21e6a0a99bf35503ac266c552243747fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 29/80] fix: errors of getxattr are not masked, is_sparse works
 for placeholders and relative paths

---
 augpathlib/core.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 7f05720..47d52c9 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -308,7 +308,8 @@ class XattrHelper(EatHelper):
         try:
             return xattr.get(self.as_posix(), key, namespace=namespace)
         except OSError as e:
-            if e.errno == errno.ENODATA or e.errno == errno.ENOATTR:
+            # ENOATTR is only defined on some platforms
+            if e.errno == errno.ENODATA or e.errno == getattr(errno, 'ENOATTR', None):
                 raise exc.NoStreamError((self, key)) from e
             else:
                 raise e
@@ -974,16 +975,23 @@ class EatPath(EatHelper, AugmentedPath):
         if hasattr(self, 'local'):
             # cache case
             l = self.local
-            parent = l.parent
         else:
-            parent = self.parent
             l = self
 
+        # the parents of a relative path end at the current directory
+        l = l.absolute()
+        parent = l.parent
         if l != parent:
             try:
-                return self.getxattr(self._sparse_key) == b'1'
+                return l.getxattr(self._sparse_key) == b'1'
             except exc.NoStreamError:
                 return parent._sparse_root()
+            except OSError:
+                # placeholders do not have xattrs of their own
+                if not l.is_broken_symlink():
+                    raise
+
+                return parent._sparse_root()
 
     def is_sparse(self):
         return self._sparse_root() is not None
-- 
2.43.0


From dc5135caa5f020cc868b0aa1905b42f975dd88e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 30/80] fix: stat results of names with double spaces, quotes,
 leading dashes or other encodings and of times before 1970

---
 augpathlib/core.py  |  5 +++--
 augpathlib/utils.py | 20 ++++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 47d52c9..852a551 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1234,11 +1234,12 @@ class LocalPath(EatPath, AugmentedPath):
         """ sometimes python just doesn't have what it takes """
         # we can't define this or use error trapping in self.stat() directly
         # because it will bolox other things that need stat to fail correctly
-        cmd = ['stat', self.as_posix(), '-c', StatResult.stat_format]
+        cmd = ['stat', '-c', StatResult.stat_format, '--', self.as_posix()]
         p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
         out, errs = p.communicate()
         # local results retain the quotes where pexpect does not
-        out = out.strip(b'"').rstrip().rstrip(b'"')
+        # but there may be more quotes in the name
+        out = out.rstrip(b'\n')[1:-1]
         if not out and errs:
             p.returncode
             raise OSError
diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index 43b6b3c..c4d5bab 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -165,11 +165,12 @@ class StatResult:
     # so probably better to check for gstat first  # also -f instead of -c
 
     def __init__(self, out):
-        out = out.decode()
+        out = os.fsdecode(out)
         #name, rest = out.rsplit("'", 1)
         #self.name = name.strip("'")
         #print(out)
-        wat = out.split('  ')
+        # only the name can contain the separator
+        wat = out.rsplit('  ', 14)
         #print(wat)
         #print(len(wat))
         name, ino, hint, size, hb, birth, ha, access, hm, modified, hc, changed, gid, uid, raw_mode = wat
@@ -181,19 +182,26 @@ class StatResult:
             time, ns = time.split('.')
             return '.' + ns
 
+        def seconds(whole, hr):
+            if whole.startswith('-'):
+                # the fraction always counts up
+                return int(whole) + float(ns(hr))
+
+            return float(whole + ns(hr))
+
         self.st_ino = int(ino)
         self.st_blksize = int(hint)
         self.st_size = int(size)
         #self.st_birthtime
-        self.st_atime = float(access + ns(ha)) 
-        self.st_mtime = float(modified + ns(hm))
-        self.st_ctime = float(changed + ns(hc))
+        self.st_atime = seconds(access, ha) 
+        self.st_mtime = seconds(modified, hm)
+        self.st_ctime = seconds(changed, hc)
         self.st_gid = int(gid)
         self.st_uid = int(uid)
         self.st_mode = int.from_bytes(bytes.fromhex(raw_mode), 'big')
 
         if hb != '-' and birth != '0':
-            self.st_birthtime = float(birth + ns(hb))
+            self.st_birthtime = seconds(birth, hb)
 
 
 class etag:
-- 
2.43.0


From d138149f7157e08e2e3fec9fe81f0e2acd183fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 31/80] fix: commit of a path leaves the stash, the index and
 the working tree alone

pushing and popping the stash applied and dropped a stash that was already
there when there was nothing to stash, lost what was staged in other
files, left out removed files, and committed the working tree
---
 augpathlib/repo.py | 65 +++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 39 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index c20f20f..abd2e39 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -1,4 +1,6 @@
+import os
 import pathlib
+import tempfile
 from urllib.parse import urlparse
 from augpathlib import AugmentedPath
 from augpathlib import exceptions as exc
@@ -290,45 +292,30 @@ class RepoHelper:
         """ commit from index
             git commit -m {message} --date {date} -- {self}
         """
-        # TODO
-        # use a modified Index.write_tree create an in memory tree
-        # filtering out changed files that are not the current file
-        # during the call to mdb.stream_copy, though it seems like
-        # the internal call to write_tree_from_cache may be writing
-        # all changes and calculating the sha from that so it may
-        # make more sense to try to filter entries instead ...
-        # but that means a blob may still be sitting there and
-        # get incorporated? I may have to use the full list of entries
-        # but sneekily swap out the entries for other changed files for
-        # the unmodified entry for their object, will need to experiment
-
-
-        if self.repo.active_branch.is_valid(): # handle the empty repo case
-            # HAH take that complexity!
-            _mes = self.repo.git.stash('push')
-            try:
-                # FIXME concurrent modification?!
-                try:
-                    self.repo.git.checkout('stash@{0}', '--', self.as_posix())
-                except self._git.exc.GitCommandError:
-                    pass
-
-                commit = self.repo.index.commit(message=message,
-                                                author_date=date)
-                return commit
-            finally:
-                try:
-                    self.repo.git.stash('pop')
-                except self._git.exc.GitCommandError:
-                    pass
-        else:
-            try:
-                self.repo.tree()
-                raise ValueError('we are not in the situation we though we were in')
-            except:
-                commit = self.repo.index.commit(message=message,
-                                                author_date=date)
-                return commit
+        repo = self.repo
+        path = self.repo_relative_path
+        entries = {}
+        if repo.head.is_valid():  # handle the empty repo case
+            entries.update(self._git.IndexFile.from_tree(repo, 'HEAD').entries)
+
+        # everything as it is in HEAD except for self, that way there is
+        # no need to touch the working tree, the index or the stash
+        parents = [p.as_posix() for p in path.parents]
+        entries = {k: v for k, v in entries.items()
+                   if not self._is_path_in(k[0], path) and k[0] not in parents}
+        entries.update({k: v for k, v in repo.index.entries.items()
+                        if self._is_path_in(k[0], path)})
+
+        with tempfile.TemporaryDirectory(dir=repo.git_dir) as td:
+            index = self._git.IndexFile(repo, os.path.join(td, 'index'))
+            index.entries.update(entries)
+            index.write()
+            return index.commit(message=message, author_date=date)
+
+    @staticmethod
+    def _is_path_in(string, path):
+        posix = path.as_posix()
+        return posix == '.' or string == posix or string.startswith(posix + '/')
 
     def commit_from_working_tree(self, message, *, date=None):
         """ commit from working tree by automatically adding to index
-- 
2.43.0


From 3c33229397ff3d32215501d0b00f343e04d31637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 32/80] fix: show returns exactly the bytes of the version

newlines at the end were removed
---
 augpathlib/repo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index abd2e39..c8d8427 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -334,8 +334,9 @@ class RepoHelper:
             with open(self, 'rb') as f:
                 return f.read()
         else:
-            decoded = self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix())
-            return decoded.encode('utf-8', 'surrogateescape')
+            return self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix(),
+                                      stdout_as_string=False,
+                                      strip_newline_in_stdout=False)
 
         return  # unfortunately traversing the tree is a pain for this
         def ref_to_object(ref_):
-- 
2.43.0


From fe1271275b8567d2b86ca35162d8c86033f818aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 33/80] fix: indexed works and diff takes names as they are

the index as an object is not something that can be diffed against and
a name like a* matched other files as well
---
 augpathlib/repo.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index c8d8427..21684ba 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -239,7 +239,16 @@ class RepoHelper:
         if not self.exists():
             raise FileNotFoundError(f'{self}')
 
-        list_ = this.diff(other=other, paths=self.repo_relative_path.as_posix(), create_patch=create_patch)
+        IndexFile = self._git.IndexFile
+        if isinstance(other, IndexFile):
+            if isinstance(this, IndexFile):
+                return  # there is only one index
+
+            other = self._git.Diffable.Index
+
+        # literal because the name is not a pattern
+        paths = ':(literal)' + self.repo_relative_path.as_posix()
+        list_ = this.diff(other=other, paths=paths, create_patch=create_patch)
         if list_:
             return list_[0]
 
-- 
2.43.0


From 487bff7a8f9a3f22b58d3d27dc68664d35293a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 34/80] fix: paths with .. belong to the repository they lead
 to

RepoPath('../x') inside of a repository was taken to be in that
repository and its repo_relative_path could not be used with git
---
 augpathlib/repo.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 21684ba..813ade7 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -109,39 +109,37 @@ class RepoHelper:
         else:
             raise exc.NotInRepoError(f'{self} is not in a git repository')
 
+    def _repo_absolute(self):
+        path = self if self.is_absolute() else self.expanduser().absolute()
+        if '..' in path.parts:
+            # the parents of dir/.. are not the directories it is in
+            path = path.resolve() if path.name == '..' else path.parent.resolve() / path.name
+
+        return path
+
     @property
     def working_dir(self):
         # TODO match git behavior here
         # https://github.com/git/git/blob/master/setup.c#L903
         # https://github.com/git/git/blob/08da6496b61341ec45eac36afcc8f94242763468/setup.c#L584
         # https://github.com/git/git/blob/bc12974a897308fd3254cf0cc90319078fe45eea/setup.c#L300
-        if (self / '.git').exists():
-            if not self.is_absolute():
-                # avoid cases where RepoPath('.') gets put in the repos cache
-                return self.expanduser().absolute()
-            else:
-                return self
+        # avoid cases where RepoPath('.') gets put in the repos cache
+        path = self._repo_absolute()
+        if (path / '.git').exists():
+            return path
 
-        elif str(self) == self.anchor:  # anchor is portable
+        elif str(path) == path.anchor:  # anchor is portable
             return None
 
         else:
-            if not self.is_absolute():
-                return self.expanduser().absolute().parent.working_dir
-            else:
-                return self.parent.working_dir
+            return path.parent.working_dir
 
     @property
     def repo_relative_path(self):
         """ working directory relative path """
         repo = self.repo
         if repo is not None:
-            if not self.is_absolute():
-                path = self.expanduser().absolute()
-            else:
-                path = self
-
-            return path.relative_to(repo.working_dir)
+            return self._repo_absolute().relative_to(repo.working_dir)
 
     path_relative_repo = repo_relative_path
 
-- 
2.43.0


From 08dd522da70c37f944af96f2133ec37edc47dc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 35/80] fix: history of symlinks and odd names, init inside of
 a repository

commits of a symlink were those of its target or an error, init of a path
that does not exist inside of a repository was an AssertionError
---
 augpathlib/repo.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 813ade7..14c511d 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -78,9 +78,7 @@ class RepoHelper:
             repo = None
 
         if repo is not None:
-            if not self.exists():
-                msg = f'how!? {self!r} != {repo.working_dir}'
-                assert repo.working_dir == self.as_posix(), msg
+            if not self.exists() and repo.working_dir == self.as_posix():
                 log.warning(f'stale cache on deleted repo {self!r}')
                 self._repos.pop(self)
             else:
@@ -199,11 +197,17 @@ class RepoHelper:
     def remote_uri_machine(self, ref=None):
         return self._remote_uri('https://raw.githubusercontent.com', ref=ref)
 
+    def _literal_path(self):
+        """ a path argument for git, a symlink has a history of its own
+            and names are not patterns """
+        path = self._repo_absolute()
+        return ':(literal)' + (path.parent.resolve() / path.name).as_posix()
+
     def latest_commit(self, rev=None):
         """ the latest commit for the current path NOT the latest commit for the repo """
         try:
             return next(self.repo.iter_commits(rev=rev,
-                                               paths=self.expanduser().resolve().as_posix(),
+                                               paths=self._literal_path(),
                                                max_count=1))
         except StopIteration as e:
             raise exc.NoCommitsForFile(self) from e
@@ -211,7 +215,7 @@ class RepoHelper:
     def commits(self, *, rev=None, max_count=None):
         yield from self.repo.iter_commits(
             rev=rev,
-            paths=self.expanduser().resolve().as_posix(),
+            paths=self._literal_path(),
             # TODO --follow
             max_count=max_count)
 
@@ -244,9 +248,7 @@ class RepoHelper:
 
             other = self._git.Diffable.Index
 
-        # literal because the name is not a pattern
-        paths = ':(literal)' + self.repo_relative_path.as_posix()
-        list_ = this.diff(other=other, paths=paths, create_patch=create_patch)
+        list_ = this.diff(other=other, paths=self._literal_path(), create_patch=create_patch)
         if list_:
             return list_[0]
 
-- 
2.43.0


From d4d748a72035bab437022bf857adcb067f017b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 36/80] fix: leaving a reference brings back what was there
 when it was entered

nested references popped the wrong stash, what was staged came back as not
staged, when the checkout failed everything remained in the stash, and a
reference that is not valid was a NameError
---
 augpathlib/repo_patch.py | 53 ++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index f11d045..ea0c065 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -1,4 +1,5 @@
 import git
+from augpathlib import exceptions as exc
 
 
 class _Repo(git.Repo):  # FIXME should we subclass Repo for this or patch ??
@@ -59,32 +60,48 @@ class _Reference(git.Reference):
         if not self.is_valid():
             raise exc.InvalidRefError(f'Not a valid ref: {self.name}')
 
-        self.__original_branch = self.repo.active_branch
-        self.__stash = self.repo.git.stash('--all')  # always stash
-        if self.__stash == 'No local changes to save':
-            self.__stash = None
+        original = self.repo.active_branch
+        if not hasattr(self, '_entered_from'):
+            self._entered_from = []
 
-        if self == self.__original_branch:
-            return self
+        stash = _stash_all(self.repo)  # always stash
+        try:
+            if self != original:
+                self.checkout()
+        except BaseException:
+            _stash_pop(self.repo, stash)
+            raise
 
-        self.checkout()
+        # the same reference can be entered again before it is exited
+        self._entered_from.append((original, stash))
         return self
 
     def __exit__(self, exc_type, exc_value, traceback):
-        _stash = self.repo.git.stash('--all')  # always stash on the way out as well
-        if _stash == 'No local changes to save':
-            stash = 'stash@{0}'
-        else:
-            stash = "stash@{1}"
+        original, stash = self._entered_from.pop()
+        _stash_all(self.repo)  # always stash on the way out as well
+        if self.repo.head.is_detached or original != self.repo.active_branch:
+            original.checkout()
+
+        _stash_pop(self.repo, stash)
+
+
+def _stash_all(repo):
+    """ stash everything and return the stash or None if there was nothing """
+    if repo.git.stash('--all') != 'No local changes to save':
+        return repo.git.rev_parse('refs/stash')
 
-        if self.__original_branch != self:
-            self.__original_branch.checkout()
 
-        # TODO check to make sure no other stashes were pushed on top
-        if self.__stash is not None:
-            self.repo.git.stash('pop', stash)
+def _stash_pop(repo, stash):
+    """ pop the stash no matter what was put on top of it """
+    if stash is None:
+        return
 
-        self.__stash = None
+    index = repo.git.stash('list', '--format=%H').split().index(stash)
+    ref = f'stash@{{{index}}}'
+    try:
+        repo.git.stash('pop', '--index', ref)
+    except git.exc.GitCommandError:
+        repo.git.stash('pop', ref)
 
 
 # monkey patch git.Reference
-- 
2.43.0


From 74a2255cc916952af53b20a33f6a745e79f80607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 37/80] fix: links and clone paths keep the name of the
 repository and of the file

the last suffix was always removed, so foo.bar became foo, characters that
have a meaning in urls were not quoted, and other ways to write the url
of a remote on github were an error
---
 augpathlib/repo.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 14c511d..218e97d 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -1,7 +1,7 @@
 import os
 import pathlib
 import tempfile
-from urllib.parse import urlparse
+from urllib.parse import quote, urlparse
 from augpathlib import AugmentedPath
 from augpathlib import exceptions as exc
 from augpathlib.utils import log as _log
@@ -36,8 +36,7 @@ class RepoHelper:
             this makes it possible to check for various issues
             prior to calling init(remote)
         """
-        name = pathlib.PurePath(remote).stem
-        return self / name
+        return self / pathlib.PurePath(self._strip_git(str(remote))).name
 
     def clone_from(self, remote, *, depth=None):
         """ clone_from uses the path of the current object as the
@@ -147,18 +146,21 @@ class RepoHelper:
         rnprefix = remote.name + '/'
         url_base = next(remote.urls)
         if url_base.startswith('git@'):
-            url_base = 'ssh://' + url_base
+            # the scp form has no port
+            url_base = 'ssh://' + url_base.replace(':', '/', 1)
 
         pu = urlparse(url_base)
-        netloc = pu.netloc
-        path = pu.path
-        if netloc.startswith('git@github.com'):
-            _, group = netloc.split(':')
-            netloc = 'github.com'
-            path = '/' + group + path
-
+        # github.com without user or port
+        netloc = pu.hostname if pu.hostname == 'github.com' else pu.netloc
+        path = self._strip_git(pu.path)
         return repo, rnprefix, url_base, netloc, path
 
+    @staticmethod
+    def _strip_git(string):
+        string = string.rstrip('/')
+        # names can have other suffixes that are not ours to remove
+        return string[:-len('.git')] if string.endswith('.git') else string
+
     def _remote_uri(self, prefix, infix=None, ref=None):
         if isinstance(ref, self._git.Commit):
             ref = str(ref)
@@ -174,10 +176,10 @@ class RepoHelper:
                 log.warning(f'unknown ref {ref}')
 
             if infix is not None:
-                rpath = pathlib.PurePosixPath(path).with_suffix('') / infix / ref / self.repo_relative_path
+                rpath = pathlib.PurePosixPath(path) / infix / ref / self.repo_relative_path
             else:
-                rpath = pathlib.PurePosixPath(path).with_suffix('') / ref / self.repo_relative_path
-            return prefix + rpath.as_posix()
+                rpath = pathlib.PurePosixPath(path) / ref / self.repo_relative_path
+            return prefix + quote(rpath.as_posix().encode('utf-8', 'surrogateescape'))
         elif url_base.startswith('/') and self.__class__(url_base).exists():
             other_rp = self.__class__(url_base)
             other = other_rp / self.repo_relative_path
@@ -188,7 +190,7 @@ class RepoHelper:
     def remote_uri_api(self, endpoint=''):
         # technically this is for the whole repo
         repo, rnprefix, url_base, netloc, path = self._remote_helper()
-        p = pathlib.PurePosixPath(path).with_suffix('')
+        p = pathlib.PurePosixPath(path)
         return f'https://api.github.com/repos{p}' + endpoint
 
     def remote_uri_human(self, ref=None):
-- 
2.43.0


From 2491544413517225a47938eabaeb4d964ce22a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 38/80] fix: show of a missing file whose name is a pattern
 fails instead of returning nothing

---
 augpathlib/repo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 218e97d..45e0b16 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -345,7 +345,10 @@ class RepoHelper:
             with open(self, 'rb') as f:
                 return f.read()
         else:
-            return self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix(),
+            # 0 is the index, and without -- what does not exist is taken
+            # to be a pattern
+            return self.repo.git.show((ref or ':0') + ':' + self.repo_relative_path.as_posix(),
+                                      '--',
                                       stdout_as_string=False,
                                       strip_newline_in_stdout=False)
 
-- 
2.43.0


From b4372f95075fc11d2de8efb5ff155a126db5893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 39/80] fix: adding a folder leaves out what is ignored and
 includes removals, any name can be added

---
 augpathlib/repo.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 45e0b16..aecc912 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -292,12 +292,13 @@ class RepoHelper:
 
     def add_index(self):
         """ git add -- {self} """
-        # FIXME workaround for broken GitPython behavior on windows
+        # not using repo.index.add because it adds what is ignored inside
+        # of folders, never removes anything, and fails to match paths
+        # on windows since it is testing with strings
         # C:\\Users\\tom\\git\\repo-name != C:/Users/tom/git/repo-name
-        # because they are testing with strings
-        # so we use repo_relative_path to avoid the broken
-        # _to_relative_path in GitPython
-        self.repo.index.add([self.repo_relative_path.as_posix()])
+        # a file that is ignored can still be added by its own name
+        args = [] if self.is_dir() and not self.is_symlink() else ['--force']
+        self.repo.git.add(*args, '--', self._literal_path())
 
     def commit(self, message, *, date=None):
         """ commit from index
-- 
2.43.0


From 4e47dc844a74bccdacdc7f0bf19ab81a3b1a71ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 40/80] fix: commit does not move the index away while it works

---
 augpathlib/repo.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index aecc912..786c2d8 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -306,22 +306,22 @@ class RepoHelper:
         """
         repo = self.repo
         path = self.repo_relative_path
-        entries = {}
-        if repo.head.is_valid():  # handle the empty repo case
-            entries.update(self._git.IndexFile.from_tree(repo, 'HEAD').entries)
-
+        parents = [p.as_posix() for p in path.parents]
         # everything as it is in HEAD except for self, that way there is
         # no need to touch the working tree, the index or the stash
-        parents = [p.as_posix() for p in path.parents]
-        entries = {k: v for k, v in entries.items()
-                   if not self._is_path_in(k[0], path) and k[0] not in parents}
-        entries.update({k: v for k, v in repo.index.entries.items()
-                        if self._is_path_in(k[0], path)})
-
         with tempfile.TemporaryDirectory(dir=repo.git_dir) as td:
-            index = self._git.IndexFile(repo, os.path.join(td, 'index'))
+            index_file = os.path.join(td, 'index')
+            index = self._git.IndexFile(repo, index_file)
+            if repo.head.is_valid():  # handle the empty repo case
+                repo.git.read_tree('HEAD', env={'GIT_INDEX_FILE': index_file})
+
+            entries = {k: v for k, v in index.entries.items()
+                       if not self._is_path_in(k[0], path) and k[0] not in parents}
+            entries.update({k: v for k, v in repo.index.entries.items()
+                            if self._is_path_in(k[0], path)})
+            index.entries.clear()
             index.entries.update(entries)
-            index.write()
+            index.write(ignore_extension_data=True)
             return index.commit(message=message, author_date=date)
 
     @staticmethod
-- 
2.43.0


From 0cca8c02b4c2f711b5aaccd12592f37159002b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 41/80] fix: init of a relative path replaces the repository
 that was there before

---
 augpathlib/repo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 786c2d8..baeca12 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -91,7 +91,8 @@ class RepoHelper:
         else:
             repo = self._repo_class.init(self)
 
-        self._repos[self] = repo
+        # the cache is looked up by working_dir which is absolute
+        self._repos[self._repo_absolute()] = repo
         return repo
 
     @property
-- 
2.43.0


From 9746df62a5273187bf1c44cc6c416fd650b52346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 42/80] fix: the setup file of a relative path is that of its
 own package

---
 augpathlib/package.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 9d27fb2..d025a8e 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -161,17 +161,15 @@ class PackagePath(RepoPath):
     _sk = setup_use_kwargs
     @property
     def setupfu(self):
-        # FIXME sometimes this can fail if there are nested setup.py files !??!
-        # and the base path is relative !??! temp workaround is to resolve all
-        # paths before use, but there is still a bug
         import logging
         sigh = logging.getLogger().level
         load_run_setup()
 
-        with self.folder:
-            #print('cwd', aug.AugmentedPath.cwd(), '\nsf', self.setup_file)
+        # a relative path leads somewhere else once we are in the folder
+        setup_file = self.setup_file
+        with setup_file.parent:
             try:
-                return run_setup(self.setup_file, stop_after='config')
+                return run_setup(setup_file, stop_after='config')
             finally:
                 logging.getLogger().setLevel(sigh)
 
-- 
2.43.0


From ac0bb43c5a35a16ff99922254639fdd5a124be80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 43/80] fix: tags of packages whose name starts with that of
 another are not mixed up

---
 augpathlib/package.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index d025a8e..6e6efb9 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -1,3 +1,4 @@
+import re
 import importlib.util
 from urllib.parse import urlparse
 
@@ -272,10 +273,9 @@ class PackagePath(RepoPath):
     def tag_latest_github(self):
         gj = self.github_json
         if gj:
-            if self.tag_prefix:
-                these = [r for r in gj if self.arg_packagename in r['tag_name']]
-            else:
-                these = [r for r in gj if r['tag_name'][0] in '0123456789']
+            # other packages can have names that start with or contain this one
+            pattern = re.escape(self.arg_packagename) + '-v?[0-9]' if self.tag_prefix else '[0-9]'
+            these = [r for r in gj if re.match(pattern, r['tag_name'])]
 
             if these:
                 latest = these[0]
@@ -312,12 +312,14 @@ class PackagePath(RepoPath):
         # match ... HRM
 
         if self.tag_prefix:
-            match_version = self.arg_packagename + '-*'
+            # there can be packages called package and package-other
+            prefix = self.arg_packagename + '-'
+            matches = f'--match={prefix}[0-9]*', f'--match={prefix}v[0-9]*'
         else:
-            match_version = '[0-9]*'
+            matches = '--match=[0-9]*',
 
         try:
-            return self.repo.git.describe('--abbrev=0', '--tags', f'--match={match_version}')
+            return self.repo.git.describe('--abbrev=0', '--tags', *matches)
         except self._git.exc.GitCommandError as e:
             pass  # no tag for this version
 
-- 
2.43.0


From aa80fc3729d238158916e38e5e2b6be19e4b17e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 44/80] fix: commits since the last release include the code
 and everything if there was no release

---
 augpathlib/package.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 6e6efb9..0691ece 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -352,16 +352,14 @@ class PackagePath(RepoPath):
     def release_files(self):
         # use to get the list of files that will be included in a release
         # so that we can limit the log to only those files
-        if not hasattr(self, 'Distribution'):
+        if not hasattr(self, 'manifest_maker'):
             from setuptools.command.egg_info import log as eilog
             eilog.set_threshold(99)
-            from setuptools.dist import Distribution
-            self.Distribution = Distribution
             from setuptools.command.egg_info import manifest_maker, FileList
             self.manifest_maker = manifest_maker
             self.FileList = FileList
 
-        mm = self.manifest_maker(self.Distribution())
+        mm = self.manifest_maker(self.setup_dist)
         mm.distribution.script_name = 'setup.py'  # FIXME check path on this one
         mm.manifest = 'MANIFEST.in'
         mm.filelist = self.FileList()
@@ -384,9 +382,10 @@ class PackagePath(RepoPath):
             rfs = [self.folder]
 
         _tag = self.tag
-        tag = _tag if _tag else ''
+        # everything if there was no release yet
+        revs = f'{_tag}..HEAD' if _tag else 'HEAD'
         log = self.repo.git.log("--format='%aI %an %h %s'",
-                                f'{tag}..HEAD',
+                                revs,
                                 '--', *rfs)
         entries = [_ for _ in [e[1:-1] for e in log.split('\n')] if _]
         return entries
-- 
2.43.0


From 918f1f1a2497460e581720ec4f40993964835a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 45/80] fix: zip paths that do not exist, files that only look
 like zip files, and zip files that changed

A path outside of any zip file that does not exist raised AttributeError
from exists(), a missing, non-zip or directory called *.zip could not be
used at all, a zip file that was written again kept its old members, also
via a relative path to another file of the same name, closing after data
raised BaseException in place of the real error and closed other readers.
---
 augpathlib/zip.py | 73 ++++++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index a696be4..1259452 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -1,3 +1,4 @@
+import os
 import sys
 import zipfile
 from pathlib import PurePath
@@ -21,8 +22,10 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
                     (ZipInternalPath,),
                     dict(zip_file=zipfile.ZipFile(zip_path)))
         zipath._bind_flavours()
-        paths = set(zipath(info=zi) for zi in zipath.zip_file.filelist)
+        # the last of the members that have the same name is the one that counts
+        paths = set(zipath(info=zi) for zi in reversed(zipath.zip_file.filelist))
         parents = set(parent for path in paths for parent in path.parents)
+        parents.add(zipath())  # also if there is nothing inside
         zipath._paths = {p:p for p in parents | paths}
         return zipath
 
@@ -73,7 +76,7 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
         return self in self._paths
 
     def is_dir(self):
-        return not hasattr(self, '_zi') or self._zi.is_dir()
+        return self.exists() and (not hasattr(self, '_zi') or self._zi.is_dir())
 
     def __fspath__(self):
         if self.parent:
@@ -83,7 +86,9 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
             return super().__fspath__()
 
     def open(self, *args, **kwargs):
-        if not self.is_dir():
+        if not self.exists():
+            raise FileNotFoundError(self)
+        elif not self.is_dir():
             self.__fd = self.zip_file.open(self._zi, *args, **kwargs)
             # FIXME probably need a wrapped filed descriptor to clean up the
             # internal state of this class too?
@@ -101,16 +106,14 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
     @property
     def data(self):
         # TODO generic open
-        try:
-            with self.open() as f:
-                while True:
-                    data = f.read(self.chunksize)  # TODO hinting
-                    if not data:
-                        break
+        # there is only one of this path so others could be reading as well
+        with self.open() as f:
+            while True:
+                data = f.read(self.chunksize)  # TODO hinting
+                if not data:
+                    break
 
-                    yield data
-        finally:
-            self.close()
+                yield data
 
 
 ZipInternalPath._bind_flavours()
@@ -121,28 +124,31 @@ class ZipHelper:
     _zfc_cache = {}
 
     def exists(self):
-        return (self.zip_path is None and super().exists() or
-                self.zip_relative_path.exists())
+        if self.zip_path is None:
+            return super().exists()
+        else:
+            return self.zip_relative_path.exists()
 
     @property
     def ZipInternalPath(self):
         zp = self.zip_path
-        if zp is not None and zp not in self._zfc_cache:
-            zipath = ZipInternalPath._new(zp)
-            self._zfc_cache[zp] = zipath
+        if zp is not None:
+            # zip files can change and relative paths can lead somewhere else
+            st = os.stat(zp)
+            state = st.st_dev, st.st_ino, st.st_size, st.st_mtime_ns
+            key = zp.absolute()
+            if key not in self._zfc_cache or self._zfc_cache[key][0] != state:
+                self._zfc_cache[key] = state, ZipInternalPath._new(zp)
 
-        return self._zfc_cache.get(zp, None)
+            return self._zfc_cache[key][1]
 
     @property
     def zip_relative_path(self):
-        if not hasattr(self, '_c_zip_relative_path'):
-            self._c_zip_relative_path = None
-            zp = self.zip_path
-            if zp is not None:
-                self._c_zip_relative_path = self.ZipInternalPath(self.relative_to(zp))
+        zp = self.zip_path
+        if zp is not None:
+            return self.ZipInternalPath(self.relative_to(zp))
 
         # TODO consider whether we error on not in zip?
-        return self._c_zip_relative_path
 
     path_relative_zip = zip_relative_path
 
@@ -152,19 +158,14 @@ class ZipHelper:
     @property
     def zip_path(self):
         # like RepoPath.working_dir
-        if not hasattr(self, '_c_zip_path'):
-            parent = self.parent
-            if parent == self:
-                self._c_zip_path = None
+        parent = self.parent
+        if parent != self:
+            pzp = parent.zip_path  # zip files inside of zip files :/
+            # the suffix alone does not make it a zip file
+            if pzp is None and os.path.isfile(self) and zipfile.is_zipfile(self):
+                return self
             else:
-                pzp = parent.zip_path  # zip files inside of zip files :/
-                if pzp is None and self.suffix == '.zip' or zipfile.is_zipfile(self):
-                    self._c_zip_path = self
-                    self.ZipInternalPath()
-                else:
-                    self._c_zip_path = pzp
-
-        return self._c_zip_path
+                return pzp
 
     @property
     def rchildren(self):
-- 
2.43.0


From 69e663569992d55a266fc3def85861f0e04a6692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 46/80] fix: a process that ended while a placeholder was
 replaced by a file lost its metadata

---
 augpathlib/caches.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 65e4b1f..721b5e5 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1,6 +1,8 @@
+import os
 import sys
 import pathlib
 import warnings
+import threading
 from augpathlib import exceptions as exc
 from augpathlib.meta import PathMeta
 from augpathlib.core import AugmentedPath, EatPath
@@ -936,9 +938,17 @@ class _CachePath(AugmentedPath):
 
         if size_ok or size_limit_mb is None:  # FIXME should we force fetch here by default if the file exists?
             if self.is_broken_symlink():
-                # FIXME touch a temporary file and set the meta first!
-                self.unlink()
-                self.touch()
+                # the file has to have the meta before it replaces the
+                # placeholder because we could be interrupted at any time
+                tmp = self.local_data_dir / f'fetch-{os.getpid()}-{threading.get_ident()}'
+                try:
+                    tmp.touch()
+                    self.__class__(tmp, meta=meta)
+                    tmp.replace(self)
+                finally:
+                    if tmp.exists():
+                        tmp.unlink()
+
                 self._meta_setter(meta)
 
             # FIXME I'm 99% certain that our mysterious zero size files are happening here
-- 
2.43.0


From ecad37527c60f7cd2b451eb64fe8a90ce152e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 47/80] fix: a second bootstrap mixed up files whose place was
 taken by another file or folder

---
 augpathlib/caches.py | 46 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 721b5e5..7ba31c0 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -481,6 +481,11 @@ class _CachePath(AugmentedPath):
         local_files = set(p for p in self.local.rchildren if p.is_file() or p.is_broken_symlink())
         file_index = {f.cache_id:f for f in local_files}  # FIXME WARNING can get big
 
+        remote_files = {}
+        if file_index:
+            rcs = list(rcs)
+            remote_files = {c.id:c for c in rcs if c.id in file_index and c.is_file()}
+
         if sparse:
             #if local_dirs:
                 #gen = (c for c in _local_remotes if c.is_dir() or (c.is_file() and c._sparse_include()))
@@ -509,11 +514,12 @@ class _CachePath(AugmentedPath):
                     file_is_different, nmeta = self._update_meta(cmeta, rmeta)
                     if file_is_different:
                         log.critical(f'WAT {_cache}')
+                        self._bootstrap_make_room(child, file_index, remote_files)
                         new_local = self.anchor.local / child.as_path()
                         if not new_local.exists() and not new_local.is_symlink():
                             # moved as well, move the one we have so that
                             # there are not two paths with the same id
-                            cc = _cache.refresh()
+                            cc = file_index[child.id].cache.refresh()
                             if cc is not None:
                                 yield cc
 
@@ -525,11 +531,49 @@ class _CachePath(AugmentedPath):
                         # think the file may have been deleted
                         continue
 
+                else:
+                    self._bootstrap_make_room(child, file_index, remote_files)
+
                 cc = child.cache_init()
                 log.debug(cc)
 
             yield cc
 
+    def _bootstrap_make_room(self, child, file_index, remote_files, moving=tuple()):
+        """ if another file that is somewhere else on the remote is still in
+            the place of child it has to move before child can go there """
+        path = child.as_path()
+        parents = [p for p in path.parents if p.name]
+        for place in (*reversed(parents), path):
+            local = self.anchor.local / place
+            if local.is_dir() or not local.exists() and not local.is_symlink():
+                continue
+
+            cache = local.cache
+            if cache is None or cache.id == child.id and place == path:
+                continue
+
+            if cache.id not in remote_files:
+                if place != path or child.is_dir() or child.id in file_index:
+                    cache.refresh()  # it was deleted
+
+                continue
+
+            if remote_files[cache.id].as_path() == place:
+                continue  # names are not unique
+
+            if cache.id in moving:
+                # they go around in a circle
+                aside = cache.local.parent / f'.moving-{cache.name}'
+                file_index[cache.id] = cache.move(target=aside, meta=cache.meta).local
+                continue
+
+            self._bootstrap_make_room(remote_files[cache.id], file_index, remote_files,
+                                      (*moving, child.id))
+            new = file_index[cache.id].cache.refresh()
+            if new is not None:
+                file_index[cache.id] = new.local
+
     def _bootstrap_existing_dirs(self, remote_dirs):
         """ bring local folders to where they are on the remote and
             get rid of those that are no longer there """
-- 
2.43.0


From 0f36d4940e02f942f4217f0f93f0bc6f3e3cd02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 48/80] fix: a failed fetch of a placeholder left an incomplete
 file in its place

---
 augpathlib/caches.py | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 7ba31c0..0cd5339 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -981,30 +981,33 @@ class _CachePath(AugmentedPath):
         size_not_ok = size_limit_mb is not None and meta.size is not None and meta.size.mb > size_limit_mb
 
         if size_ok or size_limit_mb is None:  # FIXME should we force fetch here by default if the file exists?
+            local = self.local
+            tmp = None
             if self.is_broken_symlink():
-                # the file has to have the meta before it replaces the
-                # placeholder because we could be interrupted at any time
+                # the file has to be complete and have the meta before it
+                # replaces the placeholder because the fetch can fail or be
+                # interrupted at any time, and might not be the only one
                 tmp = self.local_data_dir / f'fetch-{os.getpid()}-{threading.get_ident()}'
-                try:
-                    tmp.touch()
-                    self.__class__(tmp, meta=meta)
-                    tmp.replace(self)
-                finally:
-                    if tmp.exists():
-                        tmp.unlink()
-
-                self._meta_setter(meta)
+                tmp.touch()
+                self.__class__(tmp, meta=meta)
+                local = tmp
 
-            # FIXME I'm 99% certain that our mysterious zero size files are happening here
-            # and the error is getting caught and silence somehow
             log.info(f'Fetching remote via cache id {self.id} -> {self.local}')
             existing_cache_cache = self.local_object_cache_path.exists()
-            self.local.data = self.data  # note that this should trigger storage to .ops/objects
-            if self.local.size != meta.size:
-                m2 = '.operations/objects/' + self.id.replace(':', '\\:')  # FIXME not abstracted
-                msg = (f'{self.local.size} != {meta.size} for {self.local}\n{m2}\n'
-                       f'from previous fetch? {existing_cache_cache}')
-                raise ValueError(msg)
+            try:
+                local.data = self.data  # note that this should trigger storage to .ops/objects
+                if local.size != meta.size:
+                    m2 = '.operations/objects/' + self.id.replace(':', '\\:')  # FIXME not abstracted
+                    msg = (f'{local.size} != {meta.size} for {self.local}\n{m2}\n'
+                           f'from previous fetch? {existing_cache_cache}')
+                    raise ValueError(msg)
+
+                if tmp is not None:
+                    tmp.replace(self)
+                    self._meta_setter(meta)
+            finally:
+                if tmp is not None and tmp.exists():
+                    tmp.unlink()
 
             if meta.errors and 'checksum-mismatch' in meta.errors:
                 # on a fetch where the file already exists checksum
-- 
2.43.0


From 6659b0971773a0b080217574e51e84e3c75967d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 49/80] fix: fetching a file whose size is not known failed
 after the content was written

---
 augpathlib/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 0cd5339..e645468 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -996,7 +996,7 @@ class _CachePath(AugmentedPath):
             existing_cache_cache = self.local_object_cache_path.exists()
             try:
                 local.data = self.data  # note that this should trigger storage to .ops/objects
-                if local.size != meta.size:
+                if meta.size is not None and local.size != meta.size:
                     m2 = '.operations/objects/' + self.id.replace(':', '\\:')  # FIXME not abstracted
                     msg = (f'{local.size} != {meta.size} for {self.local}\n{m2}\n'
                            f'from previous fetch? {existing_cache_cache}')
-- 
2.43.0


From f85b6bfb14d51e6e93d5819d5c82c29329793e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 50/80] fix: what was in the trash was overwritten when the
 same id was thrown away again

---
 augpathlib/caches.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index e645468..6564891 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -153,24 +153,37 @@ class _CachePath(AugmentedPath):
     def _trashed_path_short(self):
         return self.trash / self.name  # FIXME SIGH
 
-    def crumple(self):  # FIXME change name to something more obvious ...
+    def _trash_place(self):
+        """ where self goes in the trash, never where something is already """
         trashed = self._trashed_path
-        tp = trashed.parent
-        if not tp.exists():
-            # we can ensure that self.trash exists at startup
-            # but if a subclass adds intervening folders, we
-            # need to catch that here and create them
-            tp.mkdir(parents=True)
+        # we can ensure that self.trash exists at startup
+        # but if a subclass adds intervening folders, we
+        # need to catch that here and create them
+        trashed.parent.mkdir(parents=True, exist_ok=True)
 
         try:
-            self.rename(trashed)
+            os.lstat(trashed)
+        except FileNotFoundError:
+            return trashed
         except OSError as e:
-            if e.errno == 36:  # File name too long  # SIGH
-                log.critical(f'Had to rename trash {trashed} -> {self._trashed_path_short}')
-                self.rename(self._trashed_path_short)
-            else:
+            if e.errno != 36:  # File name too long  # SIGH
                 raise e
 
+            log.critical(f'Had to rename trash {trashed} -> {self._trashed_path_short}')
+            trashed = self._trashed_path_short
+
+        place, n = trashed, 0
+        while place.exists() or place.is_symlink():
+            n += 1
+            again = trashed.parent / f'again-{n}'
+            again.mkdir(exist_ok=True)
+            place = again / trashed.name
+
+        return place
+
+    def crumple(self):  # FIXME change name to something more obvious ...
+        trashed = self._trash_place()
+        self.rename(trashed)
         return trashed
 
     @property
-- 
2.43.0


From 6edce41a8511a597e2e09b7469ac9c92fb8a208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 51/80] fix: placeholders were missing for a moment while they
 were replaced

---
 augpathlib/caches.py | 55 +++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 6564891..b2ca731 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -186,6 +186,14 @@ class _CachePath(AugmentedPath):
         self.rename(trashed)
         return trashed
 
+    def _placeholder_to_trash(self):
+        """ like crumple for a placeholder that is about to be replaced """
+        while True:
+            try:
+                return os.symlink(os.readlink(self), self._trash_place())
+            except FileExistsError:
+                pass  # somebody else took the place
+
     @property
     def local_data_dir(self):
         return self.anchor.local / self._local_data_dir
@@ -1001,6 +1009,9 @@ class _CachePath(AugmentedPath):
                 # replaces the placeholder because the fetch can fail or be
                 # interrupted at any time, and might not be the only one
                 tmp = self.local_data_dir / f'fetch-{os.getpid()}-{threading.get_ident()}'
+                if tmp.exists():
+                    tmp.unlink()  # left behind by another process
+
                 tmp.touch()
                 self.__class__(tmp, meta=meta)
                 local = tmp
@@ -1136,7 +1147,7 @@ class _CachePath(AugmentedPath):
         if self.exists():
             safe_unlink = target.local.parent / f'.unlink-{target.name}'
             try:
-                if target.is_broken_symlink():
+                if target.is_broken_symlink() and self.is_dir():
                     target.rename(safe_unlink)
 
                 self.rename(target)  # if target is_dir then this will fail, which is ok
@@ -1401,34 +1412,40 @@ class SymlinkCache(_CachePath):
                 # FIXME do the timestamp dance above here
                 log.debug('Metadata exists, but ids match so will update')
 
-                # fail before the existing metadata is moved out of the way
-                pathmeta.as_symlink(local_name=self.local.name)
+                # this fails before the existing metadata is moved out of the way
+                symlink = pathmeta.as_symlink(local_name=self.local.name)
 
-                # trash old versions instead of just unlinking
+                # trash old versions instead of just unlinking, there
+                # always has to be a placeholder so the old one stays
+                # until it is replaced
                 primary_cache = self.local.cache
-                # the primary cache has the same path as self which
-                # means that we can call crumple directly on the
-                # primary_cache and it will behave correctly trying to
-                # use primary_cache._trashed_path directly could fail
-                # if the trashed path has a non-existent parent
+                primary_cache._placeholder_to_trash()
+                tmp = primary_cache.local_data_dir / f'placeholder-{os.getpid()}-{threading.get_ident()}'
+                if tmp.is_symlink():
+                    tmp.unlink()  # left behind by another process
+
+                tmp.symlink_to(symlink)
                 try:
-                    primary_cache.crumple()
-                except FileExistsError:
-                    # a file by this name with this id has already been
-                    # crumpled so we unlink here instead
-                    self.unlink()
+                    os.rename(tmp, self)
+                except BaseException:
+                    os.unlink(tmp)
+                    raise
 
-                #self.rename(pc._trashed_path)
-                #trash = pc.trash
-                #self.rename(trash / fs_safe_id(f'{pc.parent.id}-{meta.id}-{self.name}'))
-                #self.unlink()
+                return
 
             # FIXME if an id starts with / then the local name is overwritten due to pathlib logic
             # we need to error if that happens
             #symlink = pathlib.PurePosixPath(self.local.name, pathmeta.as_symlink().as_posix().strip('/'))
             #symlink = pathlib.PurePosixPath(self.local.name) / pathmeta.as_symlink()
             symlink = pathmeta.as_symlink(local_name=self.local.name)
-            self.local.symlink_to(symlink)
+            try:
+                self.local.symlink_to(symlink)
+            except FileExistsError:
+                if not self.is_broken_symlink():
+                    raise
+
+                # it was made by somebody else in the meantime
+                SymlinkCache.meta.fset(self, pathmeta)
 
         else:
             raise exc.PathExistsError(f'Path exists {self}')
-- 
2.43.0


From f7724e21d0a21f8e38337319f43ef90b62421dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:06 +0000
Subject: [PATCH 52/80] fix: a bootstrap failed if another process made the
 same folder at the same time

---
 augpathlib/caches.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index b2ca731..064abbd 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -651,7 +651,7 @@ class _CachePath(AugmentedPath):
                 # a covering set which is not obvious if implemented this way
                 # you could do this with a dict or something else in pythong
                 # bit it is awkward (see also my crazy case implementation in interlex)
-                self.mkdir(parents=parents)
+                self.mkdir(parents=parents, exist_ok=True)
 
         elif self.remote.is_file():
             if sparse and not self._sparse_include():
@@ -661,7 +661,7 @@ class _CachePath(AugmentedPath):
                 # XXX use local here to avoid issues during
                 # construction where a non-existent parent will have
                 # no cached metadata and thus would normally fail to construct
-                self.local.parent.mkdir(parents=parents)
+                self.local.parent.mkdir(parents=parents, exist_ok=True)
 
             toucha_da_filey = (fetch_data and
                                self.meta.size is not None and
-- 
2.43.0


From bb3c2ca4c58b88149a7ae6257add70d9cdeb4aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 53/80] fix: two processes that fetch the same file marked it
 as a checksum mismatch

---
 augpathlib/caches.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 064abbd..93dacc3 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1026,6 +1026,11 @@ class _CachePath(AugmentedPath):
                            f'from previous fetch? {existing_cache_cache}')
                     raise ValueError(msg)
 
+                # checksum what was written here, because once it is in
+                # place another process can start to write to it
+                if 'checksum-mismatch' not in (meta.errors or ()):
+                    _lc = local.checksum(cypher=self._instance_cypher())
+
                 if tmp is not None:
                     tmp.replace(self)
                     self._meta_setter(meta)
@@ -1038,7 +1043,6 @@ class _CachePath(AugmentedPath):
                 # as being checked again, so this prevents the recheck
                 pass
             else:
-                _lc = self.local.checksum(cypher=self._instance_cypher())
                 if meta.checksum is not None and _lc != meta.checksum:
                     # FIXME these checks need to be happning inside of
                     # the local.data setter since otherwise this is overkill
-- 
2.43.0


From 304863d57d10c041f6168b7cf9b72e1a92ca7812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 54/80] fix: names with spaces, quotes or other special
 characters were not quoted for the remote shell

---
 augpathlib/remotes.py | 50 ++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 6e86a79..0831d6e 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -1,5 +1,6 @@
 import os
 import sys
+import shlex
 import atexit
 import pathlib
 import warnings
@@ -849,7 +850,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
 
     @property
     def data(self):
-        cmd = ['ssh', self.host, f'cat {self.rpath!r}']
+        cmd = ['ssh', self.host, f'cat {shlex.quote(self.rpath)}']
         p = subprocess.Popen(cmd, stdout=subprocess.PIPE)
         while True:
             data = p.stdout.read(4096)  # TODO hinting
@@ -890,12 +891,37 @@ class SshRemote(RemotePath, pathlib.PurePath):
         return cypher_command_lookup[self._cache_class.cypher]
 
     def checksum(self, cypher=None):  # FIXME cypher should not be ignored
-        remote_cmd = (f'{self.cypher_command} {self.rpath} | '
+        # read from stdin because the output for names that have to be escaped is different
+        remote_cmd = (f'{self.cypher_command} < {self._quote(self.rpath)} | '
                       'awk \'{ print $1 }\';')
 
-        hex_ = self._ssh(remote_cmd).decode(self.encoding)
+        out = self._ssh(remote_cmd)
+        hex_ = os.fsdecode(out)
         log.debug(hex_)
-        return bytes.fromhex(hex_)
+        try:
+            return bytes.fromhex(hex_)
+        except ValueError as e:
+            self._raise_error(out)
+            raise e
+
+    @staticmethod
+    def _quote(path):
+        """ quote for the shell of the session, where control and other
+            characters that are not ascii would not make it past the terminal """
+        raw = os.fsencode(path)
+        if all(31 < byte < 127 for byte in raw):
+            return shlex.quote(path)
+
+        return "$'" + ''.join(chr(byte) if 31 < byte < 127 and byte not in b"'\\" else f'\\{byte:03o}'
+                              for byte in raw) + "'"
+
+    @staticmethod
+    def _raise_error(out):
+        for message, error in ((b'Permission denied', PermissionError),
+                               (b'No such file or directory', FileNotFoundError),
+                               (b'Not a directory', NotADirectoryError)):
+            if out.endswith(message):
+                raise error(os.fsdecode(out))
 
     def _stat_cmd(self, stat_format=StatResult.stat_format, path=None):
         # TODO use _stat_format_darwin for cases where gstat is missing
@@ -906,7 +932,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if path == '':
             _path = path
         else:
-            _path = f' "{path}"'
+            _path = f' {self._quote(path)}'
 
         return f'{cmd} -c {stat_format}{_path}'
 
@@ -916,15 +942,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
         try:
             return StatResult(out)
         except ValueError as e:
-            if out.endswith(b'Permission denied'):
-                raise PermissionError(out.decode())
-
-            elif out.endswith(b'No such file or directory'):
-                raise FileNotFoundError(out.decode())
-
-            else:
-                log.error(remote_cmd)
-                raise ValueError(out) from e
+            self._raise_error(out)
+            log.error(remote_cmd)
+            raise ValueError(out) from e
 
     def exists(self):
         try:
@@ -974,7 +994,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         #\"'%n' %o %s %W %X %Y %Z %g %u %f\"
         if self.is_dir():
             # no children if it is a file sadly
-            remote_cmd = (f"cd {self.rpath};"
+            remote_cmd = (f"cd {self._quote(self.rpath)};"
                           f"{self._stat_cmd(path='')} {{.,}}*;"
                           "echo '----';"
                           f"{self.cypher_command} {{.,}}*;"  # FIXME fails on directories destroying alignment
-- 
2.43.0


From 0adbf01ab1b221c2fb00f7315408c7c44b612cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:20 +0000
Subject: [PATCH 55/80] fix: content of remote paths was cut short without an
 error if ssh failed

---
 augpathlib/remotes.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 0831d6e..91ec068 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -852,14 +852,22 @@ class SshRemote(RemotePath, pathlib.PurePath):
     def data(self):
         cmd = ['ssh', self.host, f'cat {shlex.quote(self.rpath)}']
         p = subprocess.Popen(cmd, stdout=subprocess.PIPE)
-        while True:
-            data = p.stdout.read(4096)  # TODO hinting
-            if not data:
-                break
+        try:
+            while True:
+                data = p.stdout.read(4096)  # TODO hinting
+                if not data:
+                    break
+
+                yield data
 
-            yield data
+        finally:
+            p.stdout.close()
+            p.wait()
 
-        p.communicate()
+        if p.returncode != 0:
+            # there is no way to know whether that was everything
+            self.stat()  # the reason might be that it is not there at all
+            raise OSError(f'could not read {self.id} ssh exited with {p.returncode}')
 
     # reuse meta from local
     # def meta (make it easier to search for this)
-- 
2.43.0


From 996ae1ea2cc881ec773ce9e0864a154fcbbadb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:22 +0000
Subject: [PATCH 56/80] fix: empty remote files were not files and missing ones
 neither existed nor did not exist

---
 augpathlib/remotes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 91ec068..2812648 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -958,8 +958,8 @@ class SshRemote(RemotePath, pathlib.PurePath):
         try:
             st = self.stat()
             return bool(st)  # FIXME
-        except FileNotFoundError:  # FIXME there will be more types here ...
-            pass
+        except (FileNotFoundError, NotADirectoryError):  # FIXME there will be more types here ...
+            return False
 
     @property
     def __parent(self):  # no longer needed since we inherit from path directly
@@ -991,7 +991,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
     def is_file(self):
         remote_cmd = self._stat_cmd(stat_format="%F")
         out = self._ssh(remote_cmd)
-        return out == b'regular file'
+        return out in (b'regular file', b'regular empty file')
 
     @property
     def children(self):
-- 
2.43.0


From 7ed99288af6da0f51e043adb3ea25270a678d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 57/80] fix: commands as long as the rest of the line were read
 back wrong by remote paths

---
 augpathlib/remotes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 2812648..a556ecb 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -691,7 +691,8 @@ class SshRemote(RemotePath, pathlib.PurePath):
             session.login(host, ssh_config=LocalPath('~/.ssh/config').expanduser().as_posix())
             cls._rows = 200
             cls._cols = 200
-            session.setwinsize(cls._rows, cls._cols)  # prevent linewraps of long commands
+            # prevent linewraps of long commands, the prompt is in the same line
+            session.setwinsize(cls._rows, cls._cols + len(session.PROMPT))
             session.prompt()
             atexit.register(lambda:(session.sendeof(), session.close()))
             cls.host = host
-- 
2.43.0


From 9febca24cbfb2be0d6db3e97758a9beaa51e3323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:44 +0000
Subject: [PATCH 58/80] fix: output of the commands of a ssh session was mixed
 up by threads and slow commands

---
 augpathlib/remotes.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index a556ecb..66a2c9c 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -4,6 +4,7 @@ import shlex
 import atexit
 import pathlib
 import warnings
+import threading
 import subprocess
 from augpathlib import exceptions as exc
 from augpathlib.meta import PathMeta
@@ -583,6 +584,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
     _cache_class = None  # set when calling __new__
     encoding = 'utf-8'
 
+    # there is only one session so only one command at a time
+    _session_lock = threading.Lock()
+
     _meta = None  # override RemotePath dragnet
     _meta_maker = LocalPath._meta_maker
 
@@ -880,9 +884,13 @@ class SshRemote(RemotePath, pathlib.PurePath):
         #print(remote_cmd)
         if len(remote_cmd) > cls._cols:
             raise exc.CommandTooLongError
-        n_bytes = cls.session.sendline(remote_cmd)
-        cls.session.prompt()
-        raw = cls.session.before
+        with cls._session_lock:
+            n_bytes = cls.session.sendline(remote_cmd)
+            # without a timeout because otherwise the next
+            # command gets the output that belongs to this one
+            cls.session.prompt(timeout=None)
+            raw = cls.session.before
+
         out = raw[n_bytes + 1:].strip()  # strip once here since we always will
         #print(raw)
         #print(out)
-- 
2.43.0


From 9101d111ac3c5b2bdd164d216407137588cbfca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 59/80] fix: places of remote objects with a cache included the
 root or left out folders with its name

---
 augpathlib/remotes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 66a2c9c..de8a962 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -476,8 +476,7 @@ class RemotePath:
                     for c_parent in cache_parent.parents:
                         if c_parent is None:
                             continue
-                        elif c_parent.name == remote.name:  # FIXME trick to avoid calling id
-                            parent_names.append(c_parent.name)  # since be compare one earlier we add here
+                        elif c_parent.id == remote.id:  # the name alone can also be that of another folder
                             break
                         else:
                             parent_names.append(c_parent.name)
-- 
2.43.0


From 59a9dea49c3352bc9a40ed9742ac020fd4c2a39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 60/80] fix: the root of a project was not found from relative
 paths and below broken links

---
 augpathlib/core.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 852a551..a791a7c 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1173,8 +1173,16 @@ class LocalPath(EatPath, AugmentedPath):
         found_cache = None
         # try all the variants in case some symlinking weirdness is going on
         # TODO may want to detect and warn on that?
+        # a relative path does not have all of its parents, and the parents
+        # of a path with dots are not those of the thing that it points to
         root = self.__class__('/')
-        for variant in set((self, self.absolute(), self.resolve())):
+        variants = [] if '..' in self.parts else [self.absolute()]
+        try:
+            variants.append(self.resolve())
+        except RuntimeError as e:
+            log.debug(e)  # there is a broken link on the way
+
+        for variant in variants:
             for parent in chain((variant,), variant.parents):
                 try:
                     if parent.cache:
@@ -1193,6 +1201,9 @@ class LocalPath(EatPath, AugmentedPath):
                 if found_cache and found_cache != root:
                     return found_cache
 
+        if fail:
+            raise exc.NotInProjectError(f'{self} is not in a project!')
+
     @property
     def skip_cache(self):
         """ returns True if the path should not have a cache
-- 
2.43.0


From 1edb98cb60ea5a6176db1f9daeb1f8bc03eaf0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 61/80] fix: children left out files in the root with names
 like .git.txt

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index a791a7c..7c523cc 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1506,7 +1506,7 @@ class LocalPath(EatPath, AugmentedPath):
                 # once we are inside local data dir, though all files there
                 # are skip_cache -> True
                 for path in self.iterdir():
-                    if path.stem in cache_ignore:
+                    if path.name in cache_ignore:
                         continue
 
                     yield path
-- 
2.43.0


From 66b8d851d72a2114d75b98e58b180c0be6b652e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:36 +0000
Subject: [PATCH 62/80] fix: rchildren of a root went into folders that are
 linked from it

---
 augpathlib/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 7c523cc..a5cb4a0 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1523,7 +1523,8 @@ class LocalPath(EatPath, AugmentedPath):
             self == self.cache.anchor.local):
             for path in self.children:
                 yield path
-                yield from path.rchildren
+                if not path.is_symlink():  # same as rglob
+                    yield from path.rchildren
 
         else:
             yield from self.rglob('*')
-- 
2.43.0


From f438b10b5f2383e9c174919ba1327cf48f302601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:08 +0000
Subject: [PATCH 63/80] fix: a broken link in a project that is not a
 placeholder made its cache and every bootstrap fail

---
 augpathlib/meta.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 73203ff..7c392da 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -1,6 +1,7 @@
 """
 Classes for storing and converting metadata associated with path like objects.
 """
+import re
 import pickle
 import struct
 import pathlib
@@ -448,6 +449,10 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             e.g. that a link got switched to point to another name somehow """
         raw_symlink = symlink_path.readlink(raw=True)
         pure_symlink = pathlib.PurePosixPath(raw_symlink)
+        if len(pure_symlink.parts) < 2 or not re.match(r'\.(meta|mdv\d+)\.', pure_symlink.name):
+            # somebody else made a link to something that does not exist
+            raise exc.NoCachedMetadataError(f'not one of our symlinks {symlink_path} -> {raw_symlink}')
+
         local_name, *parts = pure_symlink.parts
         if len(parts) == 1:  # local_name was not prepended
             msg = f'match_name=True symlink did not have local_name prefix for {local_name}'
-- 
2.43.0


From b6e4e34c6b3f6c6bb158f05e23288bcf67f2e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:17 +0000
Subject: [PATCH 64/80] fix: bootstrap took links to tracked files and folders
 for the files and folders themselves

---
 augpathlib/caches.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 93dacc3..5dde824 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -499,7 +499,9 @@ class _CachePath(AugmentedPath):
 
         # has to come after the folders are where they are supposed to be
         # because otherwise the paths in the index are out of date
-        local_files = set(p for p in self.local.rchildren if p.is_file() or p.is_broken_symlink())
+        # links to something are not ours, they look as if they had the id of what they point to
+        local_files = set(p for p in self.local.rchildren
+                          if p.is_file() and not p.is_symlink() or p.is_broken_symlink())
         file_index = {f.cache_id:f for f in local_files}  # FIXME WARNING can get big
 
         remote_files = {}
@@ -606,7 +608,7 @@ class _CachePath(AugmentedPath):
             error = None
             todo = []
             for p in self.local.rchildren:
-                if p.is_dir():
+                if p.is_dir() and not p.is_symlink():
                     id = None if p.cache is None else p.cache.id
                     d = p.relative_to(self.anchor)
                     if id is None:
-- 
2.43.0


From d36ab003e297547cf3743889e432949865fcc895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:34 +0000
Subject: [PATCH 65/80] fix: smartAnchor took over a project of something else
 that has the same name

---
 augpathlib/remotes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index de8a962..f028273 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -150,14 +150,13 @@ class RemotePath:
 
         except exc.CacheExistsError as e:
             root, path = cls._get_local_root_path(parent_path)
-            cls._cache_anchor = path.cache
-            return cls._cache_anchor
+            return cls.anchorToCache(path.cache)
 
         except exc.DirectoryNotEmptyError as e:
             root, path = cls._get_local_root_path(parent_path)
             if path.cache:
-                cls._cache_anchor = path.cache
-                return cls._cache_anchor
+                # it has the right name, but it might be another project
+                return cls.anchorToCache(path.cache)
             else:
                 raise e
 
-- 
2.43.0


From 935bef90d8abb8970cff70eabc444c4715a1adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 66/80] fix: dropAnchor put the id of the root on a file that
 is in the place of the project before it failed

---
 augpathlib/remotes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index f028273..31ed0b0 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -183,6 +183,9 @@ class RemotePath:
                 else:
                     raise NotImplementedError(f'What\'s a {root}?!')
 
+            elif not path.is_dir():
+                raise NotADirectoryError(f'cannot anchor to a file {path}')
+
             elif list(path.children):
                 raise exc.DirectoryNotEmptyError(f'has children {path}')
 
-- 
2.43.0


From 7502ca1c04359b3ae4a131a7c4ad1accfdc1a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:40 +0000
Subject: [PATCH 67/80] fix: a project that was anchored by a relative path
 moved along with the working directory

---
 augpathlib/remotes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 31ed0b0..b5fbf7f 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -129,7 +129,8 @@ class RemotePath:
         if parent_path is None:
             parent_path = cls._local_class.cwd()
         else:
-            parent_path = cls._local_class(parent_path)
+            # it has to be the same folder after the working directory changed
+            parent_path = cls._local_class(parent_path).absolute()
 
         root = cls(cls.root)  # FIXME formalize the use of root
         path = parent_path / root.name
-- 
2.43.0


From 7c6d2e60891bb22d4e0ae168452355cd286fce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:43 +0000
Subject: [PATCH 68/80] fix: the link to a shared objects directory led nowhere
 if it was given as a relative path

---
 augpathlib/caches.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 5dde824..a39b956 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -228,21 +228,22 @@ class _CachePath(AugmentedPath):
             # them in ~/.cache or similar
             if lod.is_symlink():
                 msg = f'{lod} is already symlinked to {lod.readlink()}'
-                if lod.resolve() == symlink_objects_to.resolve():
-                    log.info(msg)
-                    return
+                if lod.resolve() != symlink_objects_to.resolve():
+                    raise NotADirectoryError(msg)
 
-                raise NotADirectoryError(msg)
-            elif lod.exists():
-                try:
-                    lod.rmdir()
-                except OSError as e:
-                    msg = ('local objects dir already exists did you mean '
-                           'to run with symlink_objects_to set?')
-                    log.error(msg)
-                    raise e
-
-            lod.symlink_to(symlink_objects_to)
+                log.info(msg)
+            else:
+                if lod.exists():
+                    try:
+                        lod.rmdir()
+                    except OSError as e:
+                        msg = ('local objects dir already exists did you mean '
+                               'to run with symlink_objects_to set?')
+                        log.error(msg)
+                        raise e
+
+                # a relative path is not relative to where the link is
+                lod.symlink_to(symlink_objects_to.absolute())
         else:
             lod.mkdir(exist_ok=exist_ok)
 
-- 
2.43.0


From 46af0d909071195039d9a95d60ee192f278e9404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 69/80] fix: anchorTo with a relative path gave a project that
 moved along with the working directory

---
 augpathlib/remotes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index b5fbf7f..3bdd174 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -107,6 +107,7 @@ class RemotePath:
             return cls.anchorToCache(path)
         elif isinstance(path, LocalPath):
             # FIXME the non-existence problem rears its head again
+            path = path.absolute()  # also after the working directory changed
             if path.cache:
                 return cls.anchorToCache(path.cache)
             else:
-- 
2.43.0


From 41cafc52504d2b1a44128b6fa79e22b713b9372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:17 +0000
Subject: [PATCH 70/80] fix: RemotePath.cache_init gives missing parents their
 identity

with parents=True it failed with CacheExistsError after making the first
parent, and a file made a missing parent folder that had no id
---
 augpathlib/caches.py  |  2 +-
 augpathlib/remotes.py | 23 ++++++++++-------------
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index a39b956..c575624 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -558,7 +558,7 @@ class _CachePath(AugmentedPath):
                 else:
                     self._bootstrap_make_room(child, file_index, remote_files)
 
-                cc = child.cache_init()
+                cc = child.cache_init(parents=True)  # sparse does not list all parents
                 log.debug(cc)
 
             yield cc
diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 3bdd174..f4e95b4 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -295,19 +295,16 @@ class RemotePath:
             return NullCache()
 
     def cache_init(self, parents=False):
-        try:
-            return self._cache_anchor / self
-        except FileNotFoundError:
-            if parents:
-                #parent, *rest = self.parent.cache_init(parents=parents)
-                #return (self.cache_init(), parent, *rest)
-                parent = self.parent
-                parent_cache = parent.cache_init(parents=parents)
-                parent_cache.local.cache_init(parent.meta) # FIXME hrm we shouldn't have to do this
-                # and it isn't working anyway ... the xattrs don't seem to be getting set
-                return self.cache_init()
-            else:
-                raise
+        anchor = self._cache_anchor
+        *parent_parts, _ = self._parts_relative_to(anchor.remote)
+        if not anchor.local.joinpath(*parent_parts).exists():
+            # a parent that is made along with a file would have no id
+            if not parents:
+                raise FileNotFoundError(f'missing parent for {self} and parents=False')
+
+            self.parent.cache_init(parents=parents)
+
+        return anchor / self
 
     @property
     def _cache(self):
-- 
2.43.0


From e58cd4d9d690f8c2b3603ef80ee814261dea5ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 71/80] fix: mkdir_remote prints nothing and names the path
 whose parent is missing

---
 augpathlib/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index a5cb4a0..b2b8c60 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1150,7 +1150,6 @@ class LocalPath(EatPath, AugmentedPath):
                 if c:
                     parts = self.relative_path_from(parent).parts
                     for p in parts:
-                        print(self, parent, parts, p)
                         remote = parent.cache.remote._mkdir_child(p)
                         local = parent / p
                         local.mkdir(exist_ok=True)
@@ -1163,7 +1162,7 @@ class LocalPath(EatPath, AugmentedPath):
                     remote._cache = local.cache
                     return remote
         else:
-            raise FileNotFoundError('missing parent for {self} and parents=False')
+            raise FileNotFoundError(f'missing parent for {self} and parents=False')
 
     def find_cache_root(self, fail=False):
         """ find the local root of the cache tree, even if we start with skips """
-- 
2.43.0


From 07fc7c462c29bae1c0dae18e352ce41c34a37180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:26 +0000
Subject: [PATCH 72/80] fix: a renamed placeholder in a lower case folder is
 reported instead of starting the debugger

the check for case insensitive file systems compared the lower case path
with itself, so it applied to every path that is lower case already
---
 augpathlib/meta.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 7c392da..1cd32f9 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -462,11 +462,10 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             local_name = None
 
         if match_name and symlink_path.name != local_name:
-            _l = symlink_path.as_posix().lower()
-            l = pathlib.Path(_l).parent
-            u = pathlib.Path(_l).parent
-            if l.exists() and u.exists():
-                breakpoint()
+            _p = symlink_path.as_posix()
+            l = pathlib.Path(_p.lower()).parent
+            u = pathlib.Path(_p.upper()).parent
+            if l != u and l.exists() and u.exists():
                 # You've been hit by a case insenstivie file system!
                 # path.exists() -> True but FileNotFoundError woo
                 raise FileNotFoundError(symlink_path)
-- 
2.43.0


From aaa59520c19b75e932acf930cad1495ab1d44c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:13 +0000
Subject: [PATCH 73/80] fix: metadata that cannot be read or shown is refused
 with an error instead of starting the debugger

---
 augpathlib/meta.py | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 1cd32f9..d6afcff 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -404,13 +404,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             return value
 
         else:
-            try:
-                return int(value)
-            except ValueError as e:
-                breakpoint()
-                raise e
-
-        return value
+            return int(value)
 
     def as_symlink(self, pathmeta, local_name=None):
         """ encode meta as a relative path to be appended as a child,
@@ -734,13 +728,7 @@ class _PathMetaAsPretty(_PathMetaConverter):
         h = [['Key', f'Value    {title}']]
         rows = h + self.rows(pathmeta, human=human)
 
-        try:
-            table = AsciiTable(rows, title=title).table
-        except TypeError as e:
-            breakpoint()
-            raise e
-
-        return table
+        return AsciiTable(rows, title=title).table
 
     def from_pretty(self, pretty):
         raise NotImplementedError('yeah ... really don\'t want to do this')
@@ -795,13 +783,7 @@ class _PathMetaAsPrettyDiff(_PathMetaAsPretty):
         h = [['Key', 'Value', 'Key Other', 'Value Other']]
         rows = h + list(merge(self.rows(pathmeta, human=human),
                               self.rows(othermeta, human=human)))
-        try:
-            table = AsciiTable(rows, title=title).table
-        except TypeError as e:
-            breakpoint()
-            raise e
-
-        return table
+        return AsciiTable(rows, title=title).table
 
     def from_pretty_diff(self, pretty):
         raise NotImplementedError('yeah ... really don\'t want to do this')
-- 
2.43.0


From e6bee64662211a7e8d3d4d5a4768ee5767c19263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:43 +0000
Subject: [PATCH 74/80] fix: paths with attribute helpers can be pickled

their class is made at run time and could not be found by its name
---
 augpathlib/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index b2b8c60..548c5fa 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -971,6 +971,16 @@ class EatPath(EatHelper, AugmentedPath):
             #breakpoint()
             return super().__new__(cls, *args, **kwargs)
 
+        def __reduce__(self):
+            # the class with the helper cannot be found by its name
+            # but is what making the class it was made for results in
+            cls, args = super().__reduce__()
+            base = cls.__bases__[0]
+            if base.__dict__.get('_helper_class') is cls:
+                cls = base
+
+            return cls, args
+
     def _sparse_root(self):
         if hasattr(self, 'local'):
             # cache case
-- 
2.43.0


From f8a30d0eb47415502cd223d1de268662f6815d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:10 +0000
Subject: [PATCH 75/80] fix: a file of exactly the size limit is fetched

it was neither under nor over the limit, so nothing happened and nothing was said
---
 augpathlib/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index c575624..b735b0f 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1001,7 +1001,7 @@ class _CachePath(AugmentedPath):
             # the file name could be different so we have to return here
             return
 
-        size_ok = size_limit_mb is not None and meta.size is not None and meta.size.mb < size_limit_mb
+        size_ok = size_limit_mb is not None and meta.size is not None and meta.size.mb <= size_limit_mb
         size_not_ok = size_limit_mb is not None and meta.size is not None and meta.size.mb > size_limit_mb
 
         if size_ok or size_limit_mb is None:  # FIXME should we force fetch here by default if the file exists?
-- 
2.43.0


From b6ef29b97b01fed141995465e1fc5d317c506f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:13 +0000
Subject: [PATCH 76/80] fix: refresh without a size limit raised a TypeError

for a limit that was computed but is not used
---
 augpathlib/caches.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index b735b0f..5a7ae6f 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -963,9 +963,6 @@ class _CachePath(AugmentedPath):
         if self.meta is None:
             breakpoint()
 
-        limit = (size_limit_mb if
-                 not self.meta.size or (size_limit_mb > self.meta.size.mb)
-                 else self.meta.size.mb + 1)
         new = self.remote.refresh(update_cache=True,
                                   update_data=update_data,
                                   update_data_on_cache=(self.is_file() and self.exists()),
-- 
2.43.0


From 7df32090ca289a2a582446f207892d8835bbc632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:37 +0000
Subject: [PATCH 77/80] fix: text user ids that only look like numbers were
 read from xattrs as numbers

---
 augpathlib/meta.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index d6afcff..f5d28d1 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -625,10 +625,14 @@ class _PathMetaAsXattrs(_PathMetaConverter):
             return tuple(_ for _ in value.split(';') if _)
 
         elif field == 'user_id':
+            user_id = value.decode()
             try:
-                return int(value)
+                uid = int(user_id)
             except ValueError:  # FIXME :/ uid vs owner_id etc ...
-                return value.decode()
+                return user_id
+
+            # a name can look like a number without being one e.g. 007 or 1_0
+            return uid if str(uid) == user_id else user_id
 
         elif field in ('id', 'mode', 'old_id', 'parent_id', 'name'):
             return value.decode()
-- 
2.43.0


From 6d534468abbffc95f2594773f98c7dfb7ceb1406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 78/80] fix: a placeholder left behind by an interrupted move
 was in the way of a folder

---
 augpathlib/caches.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 5a7ae6f..4f2086a 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -598,6 +598,10 @@ class _CachePath(AugmentedPath):
             if new is not None:
                 file_index[cache.id] = new.local
 
+            left = self.anchor.local / place
+            if left.is_broken_symlink() and left.cache.id == cache.id:
+                left.cache.refresh()  # by a move that was interrupted
+
     def _bootstrap_existing_dirs(self, remote_dirs):
         """ bring local folders to where they are on the remote and
             get rid of those that are no longer there """
-- 
2.43.0


From de7025e4409f438f369fd191d7f2479cd81c8c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:31 +0000
Subject: [PATCH 79/80] fix: a placeholder that was fetched while its metadata
 was read seemed to have none

---
 augpathlib/caches.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 4f2086a..70c5dc9 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1471,19 +1471,26 @@ class PrimaryCache(CachePath):
             #return self._meta
 
         exists = self.exists()
+        if not exists and self._not_exists_cache:
+            try:
+                if self.is_symlink():
+                    cache = self._not_exists_cache(self)
+                    return cache.meta
+            except exc.NoCachedMetadataError as e:
+                log.warning(e)
+            except (OSError, exc.PathExistsError):
+                if self.is_symlink():
+                    raise
+
+            # the placeholder may have been replaced by the file in the meantime
+            exists = self.exists_not_symlink()
+
         if exists:
             #log.debug(self)  # TODO this still gets hit a lot in threes
             meta = super().meta
             if meta:  # implicit else failover to backup cache
                 return meta
 
-        elif not exists and self._not_exists_cache and self.is_symlink():
-            try:
-                cache = self._not_exists_cache(self)
-                return cache.meta
-            except exc.NoCachedMetadataError as e:
-                log.warning(e)
-
         if self._backup_cache:
             try:
                 cache = self._backup_cache(self)
-- 
2.43.0


From 8efffde24bab3185768d15ab86d81af39190935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:09 +0000
Subject: [PATCH 80/80] fix: rmtree gave up on the rest of a folder at a link
 it could not remove

---
 augpathlib/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 548c5fa..0a30b0f 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -700,7 +700,14 @@ class AugmentedPath(pathlib.Path):
                     if path.is_symlink():
                         # mimic shutil behavior and don't accidentally
                         # recurse through symlinks (keyword being curse)
-                        path.unlink()
+                        try:
+                            path.unlink()
+                        except OSError:
+                            if not ignore_errors:
+                                if onerror is None:
+                                    raise
+
+                                onerror(path.unlink, path, sys.exc_info())
                     else:
                         path.rmtree(ignore_errors=ignore_errors,
                                     onerror=onerror,
-- 
2.43.0

