""" the working directory """
import contextlib
import io
import os

from .. import common, gen, model

RULE = ('random programs of pushd, popd, nested and repeated with blocks, exceptions, renamed and removed directories and '
        'failing changes of directory, run against a model of the working directory and the stack; non-trivial with at '
        'least five steps that moved')


class Boom(Exception):
    pass


def where():
    st = os.stat('.')
    return st.st_dev, st.st_ino


class Prog:
    def __init__(self, ctx, aug, r, i, cacheworld):
        self.ctx, self.aug, self.r, self.i = ctx, aug, r, i
        self.log = []
        self.moves = 0
        self.stack = []          # model, inode of each entry
        self.fail = []           # pending failure of the next change of directory
        self.base = ctx.newdir()
        self.world = cacheworld
        names = ['a', 'b c', 'é', 'd.x', '~', '~root', '$HOME']
        self.dirs = []
        for n in names:
            os.makedirs(self.base / n / 'in' / 'deep')
            self.dirs += [self.base / n, self.base / n / 'in', self.base / n / 'in' / 'deep']
        os.symlink(self.base / 'a' / 'in', self.base / 'ln')
        self.links = [self.base / 'ln', self.base / 'ln' / 'deep']
        (self.base / 'file').write_text('x')
        os.symlink('nope', self.base / 'broken')
        self.objs = {}

    def wit(self):
        return dict(i=self.i, log=self.log)

    def expect(self, ok, mech, msg):
        self.ctx.expect(ok, mech, msg, self.wit)

    def hook(self, event, args):
        if event == 'os.chdir' and self.fail:
            self.fail.pop()
            raise PermissionError(13, 'injected')

    def path(self):
        """ a path object, often one that was used before """
        r = self.r
        k = r.random()
        cls = r.choice([self.aug.AugmentedPath, self.aug.LocalPath])
        if k < .55:
            p = r.choice(self.dirs)
        elif k < .7:
            p = r.choice(self.links)
        elif k < .8:
            p = r.choice(['.', '..', 'in', 'deep', '../in', '~', '~root', '$HOME', '../~'])
        elif k < .9:
            p = self.base / r.choice(['file', 'broken', 'missing', 'file/x'])
        elif self.world is not None:
            c = self.world.local(self.r.choice(self.world.dirs)).cache
            self.ctx.count('cache')
            return c
        else:
            p = self.base
        key = (cls, str(p))
        if key not in self.objs or r.random() < .4:
            self.objs[key] = cls(p)
        else:
            self.ctx.count('reused')
        return self.objs[key]

    def target(self, p):
        """ where the path leads from here, None when it is not a directory """
        try:
            st = os.stat(os.fspath(p))
        except OSError:
            return None
        import stat
        return (st.st_dev, st.st_ino) if stat.S_ISDIR(st.st_mode) else None

    def step(self, depth):
        r = self.r
        k = r.randrange(10)
        before = where()
        if k < 4:
            p = self.path()
            t = self.target(p)
            if r.random() < .15:
                self.fail.append(1)
            failing = bool(self.fail)
            self.log.append(('pushd', str(p), failing))
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    p.pushd()
                ok = True
            except (NotADirectoryError, PermissionError, FileNotFoundError):
                ok = False
            self.expect(ok == (t is not None and not failing), 'pushd:outcome', f'pushd {p} succeeded: {ok}')
            if ok:
                self.stack.append(before)
                self.moves += 1
                self.expect(where() == t, 'pushd:where', f'pushd {p} led elsewhere')
                self.ctx.count('pushd')
            else:
                self.expect(where() == before, 'pushd:moved', f'a failed pushd {p} changed directory')
                self.ctx.count('pushd_failed' if failing else 'pushd_refused')
            self.fail.clear()
        elif k < 7:
            self.popd()
        elif depth < 5:
            self.block(depth)
        else:
            self.shuffle()

    def popd(self, n=None):
        r = self.r
        before = where()
        if n is None:
            n = r.choice([0, 0, 0, 0, 1, 2, 7])
            if r.random() < .15 and self.stack and n < len(self.stack):
                self.fail.append(1)
        failing = bool(self.fail)
        self.log.append(('popd', n, failing))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                got = r.choice([self.aug.AugmentedPath, self.aug.LocalPath]).popd(*([n] if n else []))
            ok = True
        except (IndexError, OSError) as e:
            ok, got = False, e
        if not self.stack and n == 0:
            self.expect(ok and got is None and where() == before, 'popd:empty', f'popd of an empty stack: {got!r}')
            self.ctx.count('popd_empty')
        elif n >= len(self.stack):
            self.expect(where() == before, 'popd:range', 'popd out of range changed directory')
        elif failing or not self.reachable(n):
            self.expect(not ok and where() == before, 'popd:failed', f'a failing popd: {got!r}')
            self.ctx.count('popd_failed')
            if ok:
                self.stack.pop(-(n + 1))
        else:
            want = self.stack.pop(-(n + 1))
            self.moves += 1
            self.expect(ok and where() == want, 'popd:where', f'popd {n} led to {os.getcwd()}: {got!r}')
            if ok:
                st = os.stat(got)
                self.expect((st.st_dev, st.st_ino) == want, 'popd:result', f'popd returned {got}')
            self.ctx.count('popd')
            self.ctx.count('popd_n', n > 0)
        self.fail.clear()

    def reachable(self, n):
        return True    # removed directories are only used inside blocks

    def block(self, depth):
        r = self.r
        p = self.path()
        t = self.target(p)
        if t is None:
            self.log.append(('with', str(p), 'not a directory'))
            return
        before = where()
        boom = r.random() < .3
        if r.random() < .1:
            self.fail.append(1)
        failing = bool(self.fail)
        self.log.append(('with', str(p), 'boom' if boom else '', 'failing' if failing else ''))
        entered = False
        caught = None
        try:
            with p as q:
                entered = True
                self.moves += 1
                self.expect(where() == t and q is p, 'with:where', f'with {p} led to {os.getcwd()}')
                for _ in range(r.randrange(4)):
                    self.step(depth + 1)
                j = r.random()
                if j < .2:
                    self.log.append('chdir')
                    os.chdir('/')
                elif j < .3:
                    self.shuffle()
                if boom:
                    raise Boom(depth)
        except Boom as e:
            caught = e
        except PermissionError as e:
            if entered:
                raise
            caught = e
        finally:
            self.fail.clear()
        self.log.append('end')
        if failing:
            self.expect(not entered, 'with:failed', 'the block ran although its directory could not be entered')
            self.ctx.count('with_failed')
        else:
            self.expect(isinstance(caught, Boom) == boom, 'with:exception', f'the exception became {caught!r}')
            self.ctx.count('with_boom' if boom else 'with')
            self.ctx.count('nested', depth > 0)
        self.expect(where() == before, 'with:back', f'after with {p} the working directory is {os.getcwd()}')

    def shuffle(self):
        """ the directory we are in goes away, is_dir of the entered path is no longer true """
        d = self.ctx.newdir(base=self.base)
        before = where()
        p = self.aug.AugmentedPath(d)
        self.log.append('vanish')
        how = self.r.choice(['rename', 'remove', 'replace'])
        with p:
            if how == 'rename':
                os.rename(d, str(d) + '-moved')
            else:
                os.rmdir(d)
                if how == 'replace':
                    d.write_text('not a directory any more')
        self.expect(where() == before, 'with:vanished', f'after its directory went away ({how}) the block ended elsewhere')
        self.ctx.count('vanished')


def main(ctx):
    aug = common.load_library()
    ctx.require('pushd', 'pushd_failed', 'pushd_refused', 'popd', 'popd_n', 'popd_failed', 'popd_empty', 'with', 'with_boom',
                'with_failed', 'nested', 'vanished', 'reused', 'cache', 'same_twice')
    w = model.World(ctx, aug, ctx.rng('world'), ndirs=4, nfiles=2)
    w.bootstrap()
    home = os.getcwd()
    for i in range(ctx.size(500, 20000)):
        if ctx.time_up():
            break
        r = ctx.rng('prog', i)
        pr = Prog(ctx, aug, r, i, w)
        os.chdir(pr.base)
        with ctx.case('program', pr.wit):
            with common.guard.observe(pr.hook):
                for _ in range(r.randrange(3, 14)):
                    pr.step(0)
                # twice the same object, the second time from inside the first
                a, b = where(), aug.AugmentedPath(pr.base / 'a')
                c = aug.AugmentedPath(pr.base / 'd.x')
                with b:
                    with c:
                        mid = where()
                        with b:
                            pass
                        pr.expect(where() == mid, 'with:same inner', 'entering the same path again')
                pr.expect(where() == a, 'with:same outer', 'entering the same path again lost the outer directory')
                ctx.count('same_twice')
                # unwinding the whole stack visits every entry once
                while pr.stack:
                    pr.popd(0)
                pr.popd(0)
        ctx.seen(tuple(str(x).replace(str(pr.base), '') for x in pr.log), pr.moves >= 5)
        os.chdir(home)
        with contextlib.redirect_stdout(io.StringIO()):
            for _ in range(50):
                try:
                    if aug.AugmentedPath.popd() is None:
                        break
                except OSError:
                    getattr(aug.AugmentedPath, '_stack', []).clear()
        os.chdir(home)
        common.force_rmtree(pr.base)
    w.close()
