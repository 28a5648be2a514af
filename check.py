#!/opt/venv/bin/python
"""check.py PROPERTY            run the check of one property (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE       run one recorded, minimised failure again
   check.py --digest PROPERTY N print the event-log digests of N runs (determinism self-test)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sim import env  # noqa: E402  (sets thread limits before numpy is imported)
from sim import runner  # noqa: E402


def main(argv):
    if os.environ.get('PYTHONHASHSEED') is None:
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + argv)
    if argv[:1] == ['--helper']:
        from sim import determ
        return determ.serve()
    if argv[:1] == ['--replay']:
        return runner.replay(argv[1])
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if argv[:1] == ['--digest']:
        env.load()
        for i in range(int(argv[2])):
            o = runner.execute(argv[1], runner.make_plan(argv[1], seed, i))
            print(i, o.cls, o.log)
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
        argv = [a for a in argv if a != '--thorough']
    return runner.check(argv[0], tier, seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
