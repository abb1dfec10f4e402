#!/opt/veriftools/pyvenv/bin/python
"""check.py C01            run a property's check (VERIF_SEED, VERIF_TIER)
check.py replay FILE       re-run one recorded failing case
check.py selftest          see that the machinery starts"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from pbt import engine  # noqa: E402


def main(argv):
    if argv[:1] == ['shard']:
        pid, s, n, tier, seed, soft, out = argv[1:]
        engine.run_shard(pid, int(s), int(n), tier, int(seed), float(soft), out)
        return 0
    if argv[:1] == ['replay']:
        return engine.replay(argv[1])
    if argv[:1] == ['selftest']:
        for pid in engine.prop_ids():
            prop = engine.load(pid)
            w = engine.Worker(prop.executors)
            w.close()
        print('selftest: %d checks load' % len(engine.prop_ids()))
        return 0
    if len(argv) == 1:
        return engine.check(argv[0].upper())
    print(__doc__)
    return 2


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
