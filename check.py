#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property on /repo's working tree."""
import importlib, os, signal, sys, traceback
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'lib', 'rules')]
import core, build


def main():
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    rep = core.Check(pid, tier)

    def late(*a):
        signal.alarm(60)
        raise TimeoutError('time limit of the analysis')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(600)
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(rep, tier)
        return rep.finish()
    except core.Broken as e:
        print('ERROR property=%s: the analysis has lost its anchor: %s' % (pid, e))
    except build.BuildError as e:
        print('ERROR property=%s: %s' % (pid, e))
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s: internal error' % pid)
    return 2


if __name__ == '__main__':
    sys.exit(main())
