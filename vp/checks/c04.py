""" metadata objects behave as values """
import copy
import os
import pickle

from .. import common, gen

RULE = ('generated metadata compared with copies made by every route the library offers (re-construction, '
        'attribute codec, blob, placeholder, copy, pickle) and with variants that differ in exactly one '
        'field; non-trivial when two or more fields are set')


def main(ctx):
    aug = common.load_library()
    PathMeta = aug.PathMeta

    link = os.path.join(ctx.newdir(), 'n')

    def by_link(m):
        target = str(m.as_symlink(local_name='n'))
        try:
            os.symlink(target, link)
        except OSError as e:
            raise ValueError('too long') from e
        try:
            return PathMeta.from_symlink(aug.AugmentedPath(link))
        finally:
            os.unlink(link)

    ctx.require('equal_pairs', 'different_pairs', 'mapping_reads', 'decoded_pairs', 'empties', 'pretty', 'by:list', 'by:symlink')
    n = ctx.size(1500, 30000)
    for i in range(n):
        if ctx.time_up():
            break
        r = ctx.rng(i)
        kw = gen.meta_kwargs(r)
        x = r.random()
        if x < .05:
            kw = {}
        elif x < .15:
            # the only thing known is a zero
            f = r.choice(['size', 'chunksize', 'multi', 'gid', 'user_id', 'file_id'])
            kw = {f: 0}
        elif x < .2:
            kw = gen.meta_kwargs(r, density=.1, need=())
        want = gen.want(kw)
        wit = lambda: dict(kw={k: repr(v) for k, v in kw.items()})
        with ctx.case('value', wit):
            ctx.seen(sorted((k, repr(v)) for k, v in kw.items()), len(kw) > 2)
            ctx.sample(wit())
            m = PathMeta(**kw)
            ctx.expect(gen.view(m) == want, 'construct',
                       lambda: f'constructed metadata does not hold its arguments {gen.differ(want, gen.view(m))}', wit)
            # routes
            routes = {'again': lambda: PathMeta(**kw),
                      'reversed': lambda: PathMeta(**dict(reversed(list(kw.items())))),
                      'items': lambda: PathMeta(**dict(m.items())),
                      'splat': lambda: PathMeta(**m),
                      'copy': lambda: copy.copy(m),
                      'deepcopy': lambda: copy.deepcopy(m),
                      'pickle': lambda: pickle.loads(pickle.dumps(m, r.choice(range(2, 6))))}
            if kw:
                routes['xattrs'] = lambda: PathMeta.from_xattrs(m.as_xattrs('p'), 'p')
                routes['blob'] = lambda: PathMeta.from_metastore(m.as_metastore('p'), 'p')
            if kw.get('errors'):
                given = list(kw['errors'])
                # as it is decoded, the one who made it may do something else with his list
                routes['list'] = lambda: (PathMeta(**dict(kw, errors=given)), given.append('more'))[0]
            if kw.get('id') and not gen.numeric(kw.get('user_id')):
                routes['symlink'] = lambda: by_link(m)
            objs = {}
            for name, make in routes.items():
                try:
                    o = make()
                except UnicodeEncodeError:
                    continue
                except ValueError:
                    if name == 'symlink':
                        continue  # refused, that is C02
                    raise
                ctx.count('by:' + name)
                objs[name] = o
                ctx.expect(gen.view(o) == want, f'route:{name}',
                           lambda: f'{name} lost data {gen.differ(want, gen.view(o))}', wit)
            o = r.choice(list(objs))
            # reading timestamps in between must not change the verdict
            if r.random() < .5:
                objs[o].created, objs[o].updated
            for name, o in [*objs.items(), ('self', m)]:
                ctx.expect((m == o) is True and (o == m) is True and not (m != o), f'equal:{name}',
                           f'metadata is not equal to its {name} twin', wit)
                ctx.count('equal_pairs')
                ctx.count('decoded_pairs', name in ('xattrs', 'blob'))
            # exactly one field differs
            f = r.choice(gen.FIELDS)
            for _ in range(20):
                v = gen.value(r, f)
                if gen.norm(v) != want[f]:
                    break
            else:
                continue
            if f in kw and r.random() < .4:
                kw2 = {k: w for k, w in kw.items() if k != f}
            else:
                kw2 = dict(kw, **{f: v})
            m2 = PathMeta(**kw2)
            dec2 = PathMeta.from_xattrs(m2.as_xattrs(None)) if kw2 else m2
            for a in (m, *list(objs.values())[-2:]):
                for b in (m2, dec2):
                    ctx.expect(a != b and b != a and not (a == b) and not (b == a), f'different:{f}',
                               f'metadata that differs in {f} compares equal', lambda: dict(kw=wit(), f=f, v=repr(v)))
                    ctx.count('different_pairs')
            ctx.expect(not (m == 'x') and m != None and not (m == kw), 'foreign',  # noqa
                       'metadata equal to something that is not metadata', wit)
            # mapping face
            d = dict(m.items())
            ctx.expect({k: gen.norm(v) for k, v in d.items()} == want, 'items',
                       lambda: f'items() disagrees with the fields {d}', wit)
            ctx.expect(len(list(m.items())) == len(d), 'items:duplicates', 'items() repeats a key', wit)
            ctx.expect(set(m.keys()) == set(d) == set(iter(m)), 'keys', 'keys(), iteration and items() disagree', wit)
            ctx.expect({k: gen.norm(m[k]) for k in d} == want, 'getitem', 'subscripting disagrees with the fields', wit)
            ctx.count('mapping_reads', len(d))
            try:
                m['definitely not a field']
                ctx.expect(False, 'getitem:missing', 'no KeyError for an unknown field', wit)
            except KeyError:
                pass
            # truth
            empty = all(v in (None, ()) for v in want.values())
            ctx.expect(bool(m) is (not empty), 'truth',
                       lambda: f'truth value {bool(m)} with fields {kw}', wit)
            ctx.count('empties', empty)
            ctx.expect(gen.view(m) == want, 'observer-mutates', 'looking at metadata changed it', wit)
            # the human readable table shows every set field and is total
            if i % 5 == 0:
                t = m.as_pretty(title='t', human=r.random() < .5)
                t2 = m.as_pretty_diff(m2, title='t', human=r.random() < .5)
                for k, v in want.items():
                    if v not in (None, ()):
                        ctx.expect(k in t and k in t2, 'pretty', f'{k} missing from the table', wit)
                ctx.count('pretty')
