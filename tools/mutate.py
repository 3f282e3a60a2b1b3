#!/usr/bin/env python3
""" mutate.py LIST                  number of mutants per file
    mutate.py RUN FILE|all N SEED   run N random mutants; prints the ones that pass the tests and whether a check sees them
Mutants live in scratch copies of /repo. Line coverage per check is read from /tmp/mut/cov-CNN (lines `file.py:123`), mutants
on lines that no check runs are left out. """
import ast, collections, glob, json, os, random, shutil, subprocess, sys, tempfile, threading, time
from pathlib import Path
from concurrent.futures import ThreadPoolExecutor

VERIF = Path(__file__).resolve().parent.parent
FILES = ['core', 'caches', 'meta', 'remotes', 'repo', 'repo_patch', 'package', 'zip', 'utils', 'swap']
ORDER = ['C17', 'C18', 'C03', 'C16', 'C20', 'C15', 'C04', 'C12', 'C01', 'C11', 'C14', 'C13', 'C05', 'C10', 'C02', 'C19', 'C06', 'C28', 'C08', 'C09',
         'C07', 'C23', 'C21', 'C22', 'C24', 'C29', 'C30', 'C31', 'C32', 'C33', 'C25', 'C26', 'C27']
COV = collections.defaultdict(lambda: collections.defaultdict(set))
for f in glob.glob('/tmp/mut/cov-C*'):
    for l in open(f):
        a, b = l.strip().split(':')
        COV[a][int(b)].add(f[-3:])
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}


def mutants(name):
    src = Path(f'/repo/augpathlib/{name}.py').read_text()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    data = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: data[slice(*pos(n))].decode()
    out = []

    def put(node, new, kind, fn):
        a, b = pos(node)
        new = f'({new})' if kind not in ('delete',) and isinstance(node, ast.expr) else new
        out.append(dict(file=name, line=node.lineno, kind=kind, a=a, b=b, old=data[a:b].decode(), new=new, fn=fn))

    def visit(node, fn):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            fn = f'{fn}.{node.name}' if fn else node.name
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and seg(node.value.func).startswith(('log.', 'print')):
            return
        if isinstance(node, ast.Raise):
            put(node, 'pass', 'delete', fn)
            return
        if isinstance(node, ast.Assign) and any(isinstance(t, ast.Name) and t.id in ('msg', '__doc__') for t in node.targets):
            return
        if '.' in fn or isinstance(node, (ast.FunctionDef,)) or fn:
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                op = CMP[type(node.ops[0])]
                put(node, f'{seg(node.left)} {op} {seg(node.comparators[0])}', 'compare', fn)
            elif isinstance(node, ast.BoolOp):
                op = ' or ' if isinstance(node.op, ast.And) else ' and '
                put(node, op.join(f'({seg(v)})' for v in node.values), 'boolop', fn)
                for k in range(len(node.values)):
                    rest = [v for i, v in enumerate(node.values) if i != k]
                    op2 = ' and ' if isinstance(node.op, ast.And) else ' or '
                    put(node, op2.join(f'({seg(v)})' for v in rest), 'drop operand', fn)
            elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
                put(node, seg(node.operand), 'not', fn)
            elif isinstance(node, ast.Constant) and type(node.value) is bool:
                put(node, str(not node.value), 'bool', fn)
            elif isinstance(node, ast.Constant) and type(node.value) is int:
                put(node, str(node.value + 1), 'int', fn)
            elif isinstance(node, ast.IfExp):
                put(node, seg(node.body), 'ifexp', fn)
                put(node, seg(node.orelse), 'ifexp', fn)
            elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
                put(node, f'({seg(node.left)}) {"-" if isinstance(node.op, ast.Add) else "+"} ({seg(node.right)})', 'binop', fn)
            elif isinstance(node, (ast.Expr, ast.AugAssign, ast.Delete)):
                put(node, 'pass', 'delete', fn)
            elif isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
                put(node, 'pass', 'delete', fn)
            elif isinstance(node, (ast.Continue, ast.Break)):
                put(node, 'pass', 'delete', fn)
            elif isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
                put(node, 'return', 'return none', fn)
            if isinstance(node, (ast.If, ast.While)) and not isinstance(node.test, (ast.Compare, ast.UnaryOp)):
                put(node.test, f'not ({seg(node.test)})', 'negate', fn)
            if isinstance(node, ast.If):
                put(node.test, 'True', 'always', fn)
                put(node.test, 'False', 'never', fn)
            if isinstance(node, ast.Call) and not seg(node.func).startswith('log.'):
                for kw in node.keywords:
                    if kw.arg and len(node.keywords) + len(node.args) > 1:
                        args = [seg(x) for x in node.args] + [(f'{k.arg}=' if k.arg else '**') + seg(k.value) for k in node.keywords if k is not kw]
                        put(node, f'{seg(node.func)}({", ".join(args)})', f'without {kw.arg}', fn)
            if isinstance(node, ast.ExceptHandler) and isinstance(node.type, ast.Tuple):
                for k in range(len(node.type.elts)):
                    rest = [seg(x) for i, x in enumerate(node.type.elts) if i != k]
                    put(node.type, '(' + ', '.join(rest) + ',)', 'except', fn)
        for c in ast.iter_child_nodes(node):
            visit(c, fn)

    visit(ast.parse(src), '')
    good = []
    for m in out:
        new = data[:m['a']] + m['new'].encode() + data[m['b']:]
        if m['old'] == m['new'] or not COV[name + '.py'].get(m['line']):
            continue
        try:
            compile(new, name, 'exec')
        except SyntaxError:
            continue
        m['src'] = new
        good.append(m)
    return good


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', SKIP_NETWORK='1',
           GIT_AUTHOR_NAME='t', GIT_AUTHOR_EMAIL='t@e.org', GIT_COMMITTER_NAME='t', GIT_COMMITTER_EMAIL='t@e.org')
local = threading.local()
dirs = []


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    os.setsid()


def run(cmd, timeout, **k):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', preexec_fn=limits, **k)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'timeout', ''


def one(m):
    if not hasattr(local, 'd'):
        local.d = Path(tempfile.mkdtemp(prefix='vp-mut-', dir='/tmp'))
        dirs.append(local.d)
        shutil.copytree('/repo', local.d / 'repo', symlinks=True)
        subprocess.run(['chown', '-R', '65534:65534', str(local.d)])
        local.d.chmod(0o755)
    repo = local.d / 'repo'
    f = repo / 'augpathlib' / (m['file'] + '.py')
    orig = Path(f'/repo/augpathlib/{m["file"]}.py').read_bytes()
    f.write_bytes(m['src'])
    t0 = time.time()
    try:
        rc, out = run(['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
                       '--timeout=60'], 200, cwd=repo, env=dict(ENV, PYTHONPATH=str(repo), HOME=str(local.d)))
        if rc == 'timeout' or '86 passed' not in out:
            return m, 'tests', time.time() - t0
        res = 'SURVIVED'
        for c in ORDER:
            if c not in COV[m['file'] + '.py'][m['line']]:
                continue
            ev = local.d / 'ev'
            rc, out = run(['python3', str(VERIF / 'run.py'), c], 240, env=dict(os.environ, VP_REPO=str(repo), VP_EVIDENCE=str(ev), VERIF_SEED='1',
                                                                             VERIF_TIER='quick'))
            shutil.rmtree(ev, ignore_errors=True)
            if rc != 0:
                what = [l.strip()[:70] for l in out.splitlines() if l.startswith('  ')]
                res = f'{c} rc={rc} {what[0] if what else out[-80:]!r}'
                break
        return m, res, time.time() - t0
    finally:
        f.write_bytes(orig)


def main():
    allm = {f: mutants(f) for f in FILES}
    if sys.argv[1] == 'LIST':
        print({k: len(v) for k, v in allm.items()})
        return
    which = [m for f, ms in allm.items() for m in ms if sys.argv[2] in ('all', f)]
    random.Random(int(sys.argv[4])).shuffle(which)
    n = collections.Counter()
    try:
        with ThreadPoolExecutor(7) as ex:
            for m, res, t in ex.map(one, which[:int(sys.argv[3])]):
                n[res[:3]] += 1
                if res != 'tests':
                    print(f'{"####" if res == "SURVIVED" else "    "} {m["file"]}.py:{m["line"]} {m["fn"]} [{m["kind"]}] {m["old"][:120]!r} -> {m["new"][:120]!r} '
                          f':: {res} {t:.0f}s', flush=True)
        print(dict(n))
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)


main()
