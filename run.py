#!/usr/bin/env python3
""" python3 /verif/run.py <PROPERTY> -- run one check against /repo's working tree """
import os
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent
VENV = '/opt/venv/bin/python'


def reexec():
    want = dict(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1',
                GIT_CONFIG_GLOBAL='/dev/null', GIT_CONFIG_SYSTEM='/dev/null',
                GIT_AUTHOR_NAME='vp', GIT_AUTHOR_EMAIL='vp@example.org',
                GIT_COMMITTER_NAME='vp', GIT_COMMITTER_EMAIL='vp@example.org',
                TZ=os.environ.get('TZ', 'UTC'), SKIP_NETWORK='1')
    exe = VENV if os.path.exists(VENV) else sys.executable
    if os.environ.get('_VP_CHILD') == '1':
        return
    e = dict(os.environ, **want, _VP_CHILD='1')
    e.pop('PYTHONPATH', None)
    os.execve(exe, [exe, str(VERIF / 'run.py'), *sys.argv[1:]], e)


def main():
    reexec()
    sys.path.insert(0, str(VERIF))
    prop = sys.argv[1]
    import importlib
    from vp import common
    mod = importlib.import_module(f'vp.checks.{prop.lower()}')
    # the interpreter's standard input must never be waited on
    fd = os.open(os.devnull, os.O_RDONLY)
    os.dup2(fd, 0)
    os.close(fd)
    rc = common.run_check(prop, mod.main, getattr(mod, 'LEVEL', 'exploration'),
                          getattr(mod, 'RULE', ''), getattr(mod, 'SHARDS', (3, 4)))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
