"""usage: main.py P01 [P02 ...] | all"""
import importlib, os, resource, signal, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fw

class Late(BaseException): pass
def late(sig, frame): raise Late('no answer in time')

def run(pid, F):
    mod = importlib.import_module('checks.' + pid.lower())
    t0 = time.time()
    R = fw.Report(pid)
    try: mod.check(F, R)
    except (Exception, MemoryError, Late) as e:
        import traceback; traceback.print_exc()
        R.undec('analysis', 'internal: %r' % (e,))
    signal.alarm(0)
    return fw.finish(R, F, t0)

if __name__ == '__main__':
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    sys.setrecursionlimit(20000)
    ids = sys.argv[1:]
    if ids == ['all']:
        ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks')) if f[0] == 'p' and f[1:-3].isdigit())
    signal.signal(signal.SIGALRM, late)
    if len(ids) == 1: signal.alarm(780)
    F = fw.load()
    rc = 0
    for i in ids: rc |= run(i, F)
    sys.exit(rc)
