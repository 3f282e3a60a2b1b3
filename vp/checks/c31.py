""" what is shown about a file is what is recorded about it """
import re
from datetime import datetime

from .. import common, gen

RULE = ('generated metadata, pairs of metadata and sizes shown in every form; the table is compared with one read back and compared with the '
        'fields; non-trivial with three or more fields set')
UNITS = ['', 'K', 'M', 'G', 'T', 'P', 'E', 'Z', 'Yi']


def main(ctx):
    aug = common.load_library()
    n = ctx.size(4000, 60000)
    d = ctx.newdir()
    for i in range(n):
        if ctx.time_up():
            break
        r = ctx.rng(i)
        kw = gen.meta_kwargs(r)
        wit = lambda: dict(i=i, kw={k: repr(v) for k, v in kw.items()})
        with ctx.case('shown', wit):
            ctx.seen(sorted((k, repr(v)) for k, v in kw.items()), len(kw) > 2)
            sizes(ctx, aug, r)
            safe(ctx, r)
            if r.random() < .1:
                kw = {k: v for k, v in kw.items() if k == 'size'}
            if r.random() < .1:
                kw['errors'] = ()
            m = aug.PathMeta(**kw)
            table(ctx, aug, r, d, m, kw, wit)
            if r.random() < .5:
                other(ctx, aug, r, d, m, kw, wit)
            if 'id' in kw and not any('/' in str(v) or '\0' in str(v) for v in kw.values()):
                placeholder(ctx, aug, m, kw, wit)
    ctx.require('table', 'human', 'diff', 'red', 'not red', 'nothing set', 'placeholder', 'title', 'path title', 'unit:', *[f'unit:{u}' for u in UNITS[1:]], 'safe')


def hr_ok(size, shown):
    """ the value is rounded to the precision that is shown """
    m = re.fullmatch(r'(\d+(?:\.\d)?)(|K|M|G|T|P|E|Z|Yi)', shown)
    if not m:
        return None
    k = UNITS.index(m.group(2))
    digit = .1 if '.' in m.group(1) else 1
    v = float(m.group(1))
    # as large a unit as is needed and no larger
    fits = (size >= 1024 ** k * (1 - 1e-12) or k == 0) and (size < 1024 ** (k + 1) or k == len(UNITS) - 1)
    return m.group(2) if fits and abs(v - size / 1024 ** k) <= digit * .5000001 else None


def sizes(ctx, aug, r):
    from augpathlib.utils import FileSize
    k = r.randrange(9)
    s = r.choice([0, 1, 1023, 1024 ** k, max(1024 ** k - 1, 0), 1024 ** k + 1, r.randrange(1024 ** (k + 1)), r.randrange(1024 ** k, 1024 ** (k + 1))])
    f = FileSize(s)
    u = hr_ok(s, f.hr)
    ctx.expect(u is not None, 'size:hr', lambda: f'{s} is shown as {f.hr!r}', lambda: dict(size=s))
    if u is not None:
        ctx.count(f'unit:{u}')
    ctx.expect(str(f) == str(s) and int(f) == s and f == s and f'{f}' == str(s), 'size:str', lambda: f'{s} {f}', lambda: dict(size=s))
    ctx.expect(abs(f.mb - s / 2 ** 20) <= 1e-9 * max(1, f.mb), 'size:mb', lambda: f'{s} {f.mb}', lambda: dict(size=s))
    ctx.expect(f.hr in repr(f) and str(s) in repr(f), 'size:repr', lambda: repr(f), lambda: dict(size=s))


def safe(ctx, r):
    """ identifiers as names of files """
    from augpathlib.utils import fs_safe_id
    s = gen.text(r, r.choice([None, 'slash', 'hostile', 'control']), 1, 20)
    out = fs_safe_id(s)
    bad = set(' \n\t*|:\\/<>\'"?')
    ctx.count('safe')
    ctx.expect(len(out) == len(s) and all(b == ('-' if a in bad else a) for a, b in zip(s, out)), 'safe', lambda: f'{s!r} -> {out!r}', lambda: dict(s=s))


def shown(kw, human):
    """ field → what has to be in the table """
    out = {}
    for k, v in kw.items():
        if v is None or v == ():
            continue
        if k == 'size':
            out[k] = None if human else str(v)     # the human form is judged by hr_ok
        elif k == 'checksum':
            out[k] = v.hex()
        elif k == 'etag':
            out[k] = f'{v[0].hex()}-{v[1]}'
        elif k == 'errors':
            out[k] = str(list(v))
        elif k in ('created', 'updated'):
            out[k] = ''
        else:
            out[k] = str(v)
    return out


def when(text):
    return datetime.fromisoformat(text.replace(',', '.').replace('Z', '+00:00'))


SIMPLE = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.:,=+@%&()[]{}$;!#~^?*<>\'"`')


def simple(kw):
    """ values that can be read back from a table """
    for k, v in kw.items():
        vs = v if k == 'errors' else [v] if isinstance(v, str) else []
        if any(not x or set(x) - SIMPLE for x in vs):
            return False
    return True


def judge(ctx, got, kw, m, human, label, wit):
    """ got: pairs (key, value) read from a table """
    want = shown(kw, human)
    keys = [k for k, _ in got]
    ctx.expect(sorted(keys) == sorted(want), f'{label}:fields', lambda: f'{keys} instead of {sorted(want)}', wit)
    for k, v in got:
        if k not in want:
            continue
        if k in ('created', 'updated'):
            try:
                ok = when(v) == kw[k]
            except ValueError:
                ok = False
        elif k == 'size' and human:
            ok = hr_ok(kw[k], v) is not None
        else:
            ok = v == want[k]
        ctx.expect(ok, f'{label}:value:{k}', lambda: f'{k} is shown as {v!r}, it is {kw[k]!r}', wit)


def titled(ctx, aug, r, d, kw):
    """ keyword arguments and the title they ask for """
    x = r.randrange(4)
    if x == 0:
        return {}, ''
    if x == 1:
        return dict(title='tt'), 'tt'
    p = aug.LocalPath(d / 'sub' / 'pp')
    if x == 2:
        return dict(pathobject=p), 'path'
    return dict(pathobject=p, title='tt'), 'tt'


def table(ctx, aug, r, d, m, kw, wit):
    human = r.random() < .5
    tk, title = titled(ctx, aug, r, d, kw)
    text = m.as_pretty(human=human, **tk)
    ctx.count('human' if human else 'table')
    if not shown(kw, human):
        ctx.count('nothing set')
    lines = text.split('\n')
    if title:
        ctx.count('path title' if title == 'path' else 'title')
        ctx.expect(('pp' if title == 'path' else title) in '\n'.join(lines[:2]), 'table:title', lambda: f'{lines[:2]} {title}', wit)
    if simple(kw):
        body = lines[3:-1]
        got = [[c.strip() for c in l.strip()[1:-1].split('|', 1)] for l in body]
        judge(ctx, got, kw, m, human, 'table', wit)
    else:
        # everything that is set can be found in it
        for k, v in shown(kw, human).items():
            ctx.expect(sum(l.startswith(f'| {k} ') for l in lines) == 1, 'table:found', lambda: f'{k} in {text}', wit)
            for part in (v or '').split('\n'):
                ctx.expect('\t' in part or '\r' in part or part in text, f'table:part:{k}', lambda: f'{part!r} not in {text}', wit)


def other(ctx, aug, r, d, m, kw, wit0):
    if r.random() < .5:
        kw2 = dict(kw)
        for f in r.sample(gen.FIELDS, r.randint(0, 3)):
            if f in kw2 and r.random() < .5:
                kw2.pop(f)
            else:
                kw2[f] = gen.value(r, f)
    else:
        kw2 = gen.meta_kwargs(r)
    m2 = aug.PathMeta(**kw2)
    wit = lambda: dict(a=wit0(), b={k: repr(v) for k, v in kw2.items()})
    human = r.random() < .5
    tk, title = titled(ctx, aug, r, d, kw)
    if 'pathobject' in tk and title == 'path':
        tk, title = dict(title='tt'), 'tt'
    text = m.as_pretty_diff(m2, human=human, **tk)
    ctx.count('diff')
    # with a checksum on both sides only that counts
    if kw.get('checksum') and kw2.get('checksum'):
        differ = kw['checksum'] != kw2['checksum']
    else:
        differ = kw.get('size') != kw2.get('size') or None not in (kw.get('updated'), kw2.get('updated')) and kw['updated'] < kw2['updated']
    if title:
        ctx.count('red' if differ else 'not red')
        ctx.expect(('\x1b[31m' in text) == bool(differ), 'diff:red', lambda: f'{differ} {text}', wit)
        ctx.expect(title in text.split('\n')[0], 'diff:title', lambda: text.split('\n')[0], wit)
    lines = text.split('\n')
    if simple(kw) and simple(kw2) and '|' not in repr((kw, kw2)):
        rows = [[c.strip() for c in l.strip()[1:-1].split('|')] for l in lines[3:-1]]
        if not ctx.expect(all(len(x) == 4 for x in rows), 'diff:rows', lambda: f'{rows}', wit):
            return
        ctx.expect(all(a == c or not a or not c for a, b, c, d in rows), 'diff:aligned', lambda: f'{rows}', wit)
        ctx.expect(all(a or c for a, b, c, d in rows), 'diff:empty row', lambda: f'{rows}', wit)
        judge(ctx, [(a, b) for a, b, c, d in rows if a], kw, m, human, 'diff left', wit)
        judge(ctx, [(c, d) for a, b, c, d in rows if c], kw2, m2, human, 'diff right', wit)
    else:
        for k in {**shown(kw, human), **shown(kw2, human)}:
            ctx.expect(sum(bool(re.match(rf'\|( {k} |.*\| {k} )', l)) for l in lines) >= 1, 'diff:found', lambda: f'{k} in {text}', wit)


def placeholder(ctx, aug, m, kw, wit):
    """ the size can be read off a listing """
    try:
        t = str(m.as_symlink())
    except ValueError:
        return
    if 'size' in kw:
        ctx.count('placeholder')
        ctx.expect(hr_ok(kw['size'], re.split(r'\.', t)[-1]) is not None or hr_ok(kw['size'], '.'.join(t.split('.')[-2:])) is not None,
                   'placeholder:size', lambda: f'{kw["size"]} in {t}', wit)
