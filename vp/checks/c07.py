""" local changes and updates from the remote """
import os

from .. import common, gen, model

RULE = ('projects with fetched files that are edited locally and changed remotely in every combination, updated through '
        'refresh, update and re-bootstrap, with and without injected remote faults; after each operation the disk is '
        'searched for the bytes that only existed locally; non-trivial when content changed on at least one side')

EDITS = ['none', 'none', 'append', 'truncate', 'same size', 'rewrite', 'empty', 'same as remote', 'touch']
REMOTE = ['none', 'write', 'write', 'write same size', 'touch', 'rename', 'reparent', 'rename+write', 'delete', 'delete']


def edit(r, p, node, kind):
    data = p.read_bytes()
    if kind == 'append':
        new = data + b'local'
    elif kind == 'truncate':
        new = data[:len(data) // 2]
    elif kind == 'same size':
        new = bytes(b ^ 0xff for b in data)
    elif kind == 'rewrite':
        new = b'rewritten locally ' + r.randbytes(20)
    elif kind == 'empty':
        new = b''
    else:
        return data
    with open(p, 'r+b') as f:
        f.write(new)
        f.truncate()
    if r.random() < .3:
        # clocks cannot be trusted: keep the old timestamp
        os.utime(p, (1600000000, 1600000000))
    return new


def main(ctx):
    aug = common.load_library()
    exc = aug.exceptions
    ctx.require('edited', 'refused', 'updated', 'restored_after_fault', 'deleted_with_edits', 'unedited_trash',
                'no_checksum', 'no_limit', 'other_cypher', 'same_as_remote', 'rebootstrapped', 'status_checked')
    n = ctx.size(700, 20000)
    for i in range(n):
        if ctx.time_up():
            break
        r = ctx.rng(i)
        w = None
        plan = {}
        wit = lambda: plan
        with ctx.case('update', wit):
            try:
                w = model.World(ctx, aug, r, ndirs=r.randint(1, 3), nfiles=r.randint(1, 4), max_size=9000)
                if r.random() < .25:
                    w.files.append(w.store.add(w.store.root, 'big one', False, r.randbytes(9000)))
                node = r.choice(w.files)
                kindc = r.choice(['checksum'] * 5 + ['none', 'other'])
                if kindc == 'none':
                    for f in w.files:
                        f.has_checksum = False
                elif kindc == 'other':
                    for f in w.files:
                        f.cypher = r.choice(['sha256', 'md5', 'sha1', 'sha512', 'blake2b'])
                w.store.keeps_versions = r.random() < .8
                w.bootstrap()
                fetched = {node.id} | {f.id for f in w.files if r.random() < .6}
                for f in w.files:
                    if f.id in fetched:
                        w.local(f).cache.fetch()
                p = w.where(node)
                base = node.data
                ek = r.choice(EDITS)
                rk = r.choice(REMOTE)
                fault = r.choice(['none'] * 4 + ['first', 'middle', 'end', 'short', 'corrupt'])
                op = r.choice(['refresh', 'refresh', 'update_cache', 'remote.refresh', 'bootstrap'])
                plan.update(edit=ek, remote=rk, fault=fault, op=op, checksum=kindc, size=len(base),
                            chunk=w.store.chunksize)
                old_path = p
                local = base
                if ek == 'same as remote':
                    rk = plan['remote'] = 'write'
                elif ek == 'touch':
                    os.utime(p, (r.randrange(10**9), r.randrange(10**9)))
                else:
                    local = edit(r, p, node, ek)
                edited = local != base
                me = gen.view(w.meta_at(p))
                # the question the user asks before doing anything
                if kindc != 'none' or w.store.keeps_versions:
                    lc = w.L(p)
                    ctx.expect(bool(lc.content_different()) is edited, 'status',
                               f'content_different() is {lc.content_different()} for edit {ek}', wit)
                    ctx.count('status_checked')
                # remote side
                if rk == 'touch':
                    node.updated = w.store.tick()
                if rk in ('write', 'rename+write'):
                    w.store.write(node, w.blob() + b'!')
                if rk == 'write same size':
                    w.store.write(node, bytes(b ^ 0x55 for b in base))
                if rk in ('rename', 'rename+write'):
                    node.name = 'renamed ' + node.name[:20]
                if rk == 'reparent':
                    node.parent = r.choice(w.dirs)
                    if any(c is not node and c.name == node.name for c in w.store.children(node.parent)):
                        raise common.Skip()
                if rk == 'delete':
                    w.store.remove(node)
                if ek == 'same as remote':
                    with open(p, 'wb') as f:
                        f.write(node.data)
                    local = node.data
                    edited = True
                    ctx.count('same_as_remote')
                if r.random() < .3:
                    w.reopen()
                others = {k: v for k, v in model.tree(w.root).items() if w.root / k != p}
                remote_changed = rk in ('write', 'write same size', 'touch', 'rename+write')
                will_fetch = remote_changed
                err = None
                if fault in ('first', 'middle', 'end'):
                    w.store.fault_after = {'first': 0, 'middle': 1, 'end': 10**9}[fault]
                    if fault == 'middle' and len(node.data) <= w.store.chunksize or fault == 'end':
                        w.store.fault_after = -(-max(len(node.data), 1) // w.store.chunksize)
                elif fault == 'short' and node.data:
                    node.corrupt = node.data[:-1]
                elif fault == 'corrupt' and node.data:
                    node.corrupt = bytes(b ^ 1 for b in node.data)
                if rk == 'delete':
                    fault = 'none'
                try:
                    if op == 'bootstrap':
                        w.bootstrap()
                        ctx.count('rebootstrapped')
                    elif rk == 'delete':
                        w.L(p).cache.refresh()
                    elif op == 'refresh':
                        if len(node.data) % 3:
                            w.L(p).cache.refresh()
                        else:
                            w.L(p).cache.refresh(size_limit_mb=None)
                            ctx.count('no_limit')
                    elif op == 'update_cache':
                        w.L(p).cache.remote.update_cache()
                    else:
                        w.L(p).cache.remote.refresh(update_cache=True)
                except exc.LocalChangesError as e:
                    err = 'local changes'
                except (model.FetchFault, exc.SizeError, ValueError) as e:
                    err = 'fault'
                    if fault == 'none':
                        raise
                except exc.NoRemoteFileWithThatIdError:
                    err = 'gone'
                    if kindc != 'none':
                        raise
                w.store.fault_after = None
                plan['outcome'] = err or 'ok'
                ctx.seen((ek, rk, fault, op, kindc, len(base), w.store.chunksize), edited or remote_changed)
                ctx.sample(dict(plan), 6)
                ctx.count('edited', edited)
                ctx.count('no_checksum', kindc == 'none')
                ctx.count('other_cypher', kindc == 'other')
                after = model.tree(w.root)
                new_path = w.where(node) if rk != 'delete' else None
                conflict = edited and ek != 'same as remote' and node.data != local

                # 1. bytes that exist nowhere else are never lost
                if edited:
                    ctx.expect(local in w.all_bytes(), 'edits lost',
                               lambda: f'the locally edited content is gone after {plan}', wit)
                # 2. a conflict is an error and leaves the file alone
                if conflict and remote_changed and op != 'bootstrap':
                    ok = err == 'local changes' or kindc == 'none' and err in ('gone', 'fault') or kindc == 'none' and not w.store.keeps_versions
                    ctx.expect(ok, 'no conflict reported',
                               lambda: f'remote and local both changed but the outcome was {err}', wit)
                    if err == 'local changes':
                        ctx.count('refused')
                if err == 'local changes':
                    ctx.expect(edited, 'false conflict', lambda: f'conflict reported but nothing was edited {plan}', wit) \
                        if not (kindc == 'none' and (not w.store.keeps_versions or fault in ('short', 'corrupt'))) else None
                    ctx.expect(old_path.is_file() and old_path.read_bytes() == local and not old_path.is_symlink(),
                               'refused but changed', 'a refused update changed the local file', wit)
                    m = w.meta_at(old_path)
                    ctx.expect(m is not None and gen.view(m) == me, 'refused but metadata changed',
                               lambda: f'a refused update changed the cached metadata {gen.differ(me, gen.view(m)) if m else None}', wit)
                # 3. a failed update puts things back
                if err in ('fault', 'gone'):
                    ctx.expect(old_path.is_file() and not old_path.is_symlink() and old_path.read_bytes() == local,
                               'failed and changed', lambda: f'a failed update did not restore the local file {plan}', wit)
                    m = w.meta_at(old_path)
                    ctx.expect(m is not None and gen.view(m) == me, 'failed and metadata changed',
                               lambda: f'a failed update changed cached metadata {gen.differ(me, gen.view(m)) if m else None}', wit)
                    ctx.count('restored_after_fault')
                    # and it can be tried again
                    if not edited:
                        node.corrupt = None
                        w.L(old_path).cache.refresh()
                        ctx.expect(new_path.read_bytes() == node.data, 'retry', 'the update does not succeed when retried', wit)
                # 4. an update that went through brings exactly the remote content
                if err is None and op != 'bootstrap' and rk != 'delete':
                    if remote_changed and not conflict:
                        want = node.data if node.corrupt is None else node.corrupt
                        ctx.expect(new_path.is_file() and new_path.read_bytes() == want, 'not updated',
                                   lambda: f'local content is not the new remote content {plan}', wit)
                        m = w.meta_at(new_path)
                        ctx.expect(m is not None and m.file_id == node.file_id and m.size == len(node.data)
                                   and m.id == node.id, 'not updated metadata',
                                   lambda: f'cached metadata is not that of the new content {m}', wit)
                        ctx.count('updated')
                        if not edited and base != node.data:
                            ctx.expect(base in w.all_bytes(), 'old version', 'the replaced version is not kept', wit)
                            ctx.count('unedited_trash')
                    elif not remote_changed:
                        ctx.expect(new_path.is_file() and new_path.read_bytes() == local, 'moved bytes',
                                   lambda: f'content changed although the remote did not {plan}', wit)
                if err is None and rk == 'delete' and op != 'bootstrap':
                    ctx.expect(not os.path.lexists(old_path), 'deleted', 'file deleted on the remote is still in place', wit)
                    ctx.expect(local in w.all_bytes(), 'deleted bytes', 'content of the deleted file is gone', wit)
                    ctx.count('deleted_with_edits', edited)
                # 5. nothing else moves
                now = {k: v for k, v in after.items()
                       if w.root / k not in (old_path, new_path)}
                if op != 'bootstrap':
                    ctx.expect(now == others, 'others', lambda: f'other paths changed {gen.differ(others, now)}', wit)
                else:
                    lost = {k for k in others if k not in now or now[k] != others[k]}
                    ctx.expect(not lost, 'others', lambda: f'bootstrap changed other paths {lost}', wit)
                    ctx.expect(old_path.is_file() and old_path.read_bytes() == local or ek == 'same as remote'
                               or kindc == 'none' and not w.store.keeps_versions
                               or not edited, 'bootstrap edited', lambda: f'bootstrap changed an edited file {plan}', wit)
            finally:
                if w is not None:
                    w.close()
