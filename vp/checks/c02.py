""" metadata <-> placeholder symlink """
import os
import pathlib

from .. import common, gen

RULE = ('metadata drawn field by field; half of the cases put a hostile string (separators, escapes, '
        'sentinels, slashes, newlines, undecodable bytes) in one string field; each is encoded under one '
        'timezone, written as a real symlink, renamed, read back by a fresh object under another timezone; '
        'non-trivial when at least two fields besides the id are set')

STRINGS = ('name', 'parent_id', 'id', 'old_id', 'user_id', 'mode', 'errors', 'checksum_cypher')
SPECIAL = ['#', '!', '|', '.', '..', ';', '/', '//', '', 'a/', '/a', 'a.b', 'a!b', 'a|b', 'a;b', 'a#b',
           '!.', '|/', './a', '../a', '.mdv5.x', 'a.', '.a', ' ', 'a b', 'None', '0', '##', '#.', '-', '\n',
           'a\nb', '.mdv6', 'x/.mdv6.1', *gen.LIKE_NUMBERS]


def may_refuse(kw):
    for f in STRINGS:
        if f not in kw:
            continue
        v = kw[f]
        vs = v if isinstance(v, tuple) else (v,)
        for s in vs:
            if not isinstance(s, str):
                continue
            if '|' in s or '!' in s or s == '#' or s == '' or (s == '#' and f == 'errors'):
                return True
            if f in ('name', 'checksum_cypher') and '/' in s:
                return True
            if f == 'checksum_cypher' and '.' in s:
                return True
            if f == 'errors' and set(s) & set('./;'):
                return True
            if f == 'user_id':
                try:
                    if str(int(s)) != s:
                        return True
                except ValueError:
                    pass
            try:
                s.encode()
            except UnicodeEncodeError:
                return True
    return False


def main(ctx):
    aug = common.load_library()
    PathMeta = aug.PathMeta
    exc = aug.exceptions
    ctx.require('roundtrips', 'refused', 'hostile_roundtrips', 'renamed', 'times_compared')
    n = ctx.size(2500, 60000)
    i = 0
    work = ctx.newdir()
    names = ['f', 'a.txt', 'é漢.bin', 'with space.tar.gz', '-dash', '.hidden', 'x' * 200, 'a#b', 'a;b|c']
    while i < n and not ctx.time_up():
        r = ctx.rng(i)
        i += 1
        tz1, tz2 = r.choice(gen.TZS), r.choice(gen.TZS)
        kw = gen.meta_kwargs(r)
        hostile = r.random() < .5
        if hostile:
            f = r.choice(STRINGS)
            s = r.choice(SPECIAL) if r.random() < .6 else gen.text(
                r, r.choice(['hostile', 'hostile', 'control', 'slash', 'surrogate', 'dots', 'punct']))
            kw[f] = (s,) if f == 'errors' else s
            if f == 'errors' and r.random() < .5:
                kw[f] = ('ok', s)
        want = gen.want(kw)
        local = r.choice(names)
        wit = lambda: dict(kw={k: repr(v) for k, v in kw.items()}, local_name=local, tz=(tz1, tz2))
        with ctx.case('symlink', wit):
            ctx.seen(sorted((k, repr(v)) for k, v in kw.items()), len(kw) > 2)
            ctx.sample(wit())
            with common.timezone(tz1):
                meta = PathMeta(**kw)
                try:
                    target = meta.as_symlink(local_name=local)
                    bare = meta.as_symlink()
                except (ValueError, exc.AugPathlibError) as e:
                    ctx.count('refused')
                    ctx.expect(may_refuse(kw), 'refused-ordinary',
                               lambda: f'refused metadata it has to be able to store: {e}', wit)
                    continue
            ctx.expect(isinstance(target, pathlib.PurePath) and not target.is_absolute()
                       and target.parts[0] == local and '..' not in target.parts[1:-1] or
                       may_refuse(kw), 'shape',
                       lambda: f'placeholder target has the wrong shape {target}', wit)
            path = aug.AugmentedPath(work / local)
            try:
                os.symlink(str(target), path)
            except (OSError, ValueError) as e:
                if len(os.fsencode(str(target))) < 4000 and '\0' not in str(target):
                    raise
                continue
            try:
                with common.timezone(tz2):
                    dec = PathMeta.from_symlink(path)
                    got = gen.view(dec)
                    # numeric user ids have a single canonical reading
                    if gen.numeric(want['user_id']) and \
                            got['user_id'] == int(want['user_id']):
                        got['user_id'] = want['user_id']
                    ok = got == want
                    ctx.expect(ok, 'differs',
                               lambda: f'placeholder reads back as something else: {gen.differ(want, got)} '
                                       f'link {os.readlink(path)!r}', wit)
                    ctx.count('roundtrips')
                    ctx.count('hostile_roundtrips', hostile)
                    ctx.count('times_compared', sum(want[k] is not None for k in ('created', 'updated')))
                    if ok:
                        again = dec.as_symlink(local_name=local)
                        os.unlink(path)
                        os.symlink(str(again), path)
                        got2 = gen.view(PathMeta.from_symlink(path))
                        if gen.numeric(want['user_id']):
                            got2['user_id'] = want['user_id']
                        ctx.expect(got2 == want, 'second-trip',
                                   lambda: f'second round trip differs {gen.differ(want, got2)}', wit)
                ctx.expect(os.path.islink(path) and not os.path.exists(path), 'dangling',
                           'placeholder resolves to something', wit)
                # a placeholder that was renamed is recognisable as such and still readable
                moved = aug.AugmentedPath(work / 'moved-elsewhere')
                os.rename(path, moved)
                path = moved
                try:
                    PathMeta.from_symlink(moved)
                    ctx.expect(False, 'rename-unnoticed',
                               'a renamed placeholder was accepted under its new name', wit)
                except exc.CircularSymlinkNameError:
                    pass
                with common.timezone(tz2):
                    got = gen.view(PathMeta.from_symlink(moved, match_name=False))
                if gen.numeric(want['user_id']):
                    got['user_id'] = want['user_id']
                ctx.expect(got == want, 'renamed-differs',
                           lambda: f'renamed placeholder differs: {gen.differ(want, got)}', wit)
                ctx.count('renamed')
                # also where every folder has a lower case name and for names that differ only a little
                here = os.getcwd()
                os.chdir(work)
                try:
                    os.rename(path, near := r.choice([n for n in (
                        local.swapcase(), local + ' ', local + '.1', local[:-1], 'lower', '_' + local, local.upper(), local.lower())
                        if n not in ('', '.', '..', local) and len(os.fsencode(n)) < 256]))
                    path = moved = aug.AugmentedPath(work / near)
                    try:
                        PathMeta.from_symlink(aug.AugmentedPath(near))
                        ctx.expect(False, 'rename-unnoticed',
                                   lambda: f'a placeholder for {local!r} was accepted as {near!r}', wit)
                    except exc.CircularSymlinkNameError:
                        pass
                    ctx.count('renamed_case', near.lower() == local.lower())
                finally:
                    os.chdir(here)
                # the bare form, as stored by other tools
                os.unlink(moved)
                os.symlink(str(bare), moved)
                with common.timezone(tz2):
                    got = gen.view(PathMeta.from_symlink(moved))
                if gen.numeric(want['user_id']):
                    got['user_id'] = want['user_id']
                ctx.expect(got == want, 'bare-differs',
                           lambda: f'bare form differs: {gen.differ(want, got)}', wit)
            finally:
                if os.path.lexists(path):
                    os.unlink(path)
