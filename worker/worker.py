"""Worker: runs under the repository's interpreter (PyPy), executes cases
against the library under test and returns plain observations as JSON lines.

It never judges anything; every oracle lives on the driver's side.
"""
import os
import sys

sys.dont_write_bytecode = True
OUT = os.fdopen(os.dup(1), 'w')
# The library prints (optimizer progress, loggers); keep that off our channel.
_devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(_devnull, 1)

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

import json
import traceback
import warnings
warnings.simplefilter('ignore')

PKG = os.path.join(os.path.realpath(REPO), 'LinearResponseVariationalBayes') + os.sep


def exc_info(exc):
    tb = exc.__traceback__
    frames = traceback.extract_tb(tb)
    lib = any(os.path.realpath(f.filename).startswith(PKG) for f in frames)
    return {'type': type(exc).__name__, 'msg': str(exc)[:500], 'lib': lib,
            'tb': [[os.path.basename(f.filename), f.lineno, f.name]
                   for f in frames[-8:]]}


def main():
    try:
        import base  # noqa: registers executors
        import importlib
        for mod in os.environ.get('VERIF_EXECUTORS', '').split(','):
            if mod:
                importlib.import_module(mod)
        hello = {'ready': True, 'version': sys.version.split()[0]}
    except BaseException as exc:
        OUT.write(json.dumps({'ready': False, 'exc': exc_info(exc)}) + '\n')
        OUT.flush()
        return
    OUT.write(json.dumps(hello) + '\n')
    OUT.flush()
    for line in sys.stdin:
        req = json.loads(line)
        try:
            obs = base.EXECUTORS[req['ex']](req['case'])
            resp = {'obs': base.enc(obs)}
        except BaseException as exc:
            if isinstance(exc, (KeyboardInterrupt, SystemExit)):
                raise
            resp = {'exc': exc_info(exc)}
        try:
            text = json.dumps(resp)
        except Exception as exc:
            text = json.dumps({'exc': exc_info(exc)})
        OUT.write(text + '\n')
        OUT.flush()


if __name__ == '__main__':
    main()
