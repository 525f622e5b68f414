"""Runs harness cases on concrete inputs against the real code.
usage: python replay.py PROP JOBS.json OUT.json   (the project's interpreter)"""
from __future__ import print_function
import importlib
import json
import os
import signal
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Hang(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang()


def run(prop, jobs, limit):
    warnings.simplefilter('ignore')
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import numpy as np
    np.seterr(all='ignore')
    from engine.conc import ConcCtx, AssumeFailed
    mod = importlib.import_module('props.' + prop)
    cases = {c[0]: c for c in mod.CASES}
    signal.signal(signal.SIGALRM, _alarm)
    out = []
    for job in jobs:
        name, fn, kwargs = cases[job['case']][:3]
        c = ConcCtx(job['inputs'])
        np.random.seed(int(job.get('seed', 1)))
        r = {'id': job['id'], 'status': 'ok', 'failures': []}
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            fn(c, **kwargs)
            r['failures'] = c.failures
        except AssumeFailed:
            r['status'] = 'skipped'
            r['failures'] = c.failures
        except Hang:
            r['failures'] = ['did not terminate within %d s' % limit]
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            r['failures'] = c.failures + ['raised %s: %s (%s:%s)' % (
                type(e).__name__, str(e)[:200], os.path.basename(tb[-1][0]), tb[-1][1])]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            c.restore()
        r['nchecks'] = c.nchecks
        if r['failures']:
            r['status'] = 'fail'
        out.append(r)
    return out


def main():
    prop, jobs, outp = sys.argv[1:4]
    with open(jobs) as f:
        jobs = json.load(f)
    real_out = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    res = run(prop, jobs, float(os.environ.get('VERIF_REPLAY_LIMIT', '60')))
    os.dup2(real_out, 1)
    with open(outp, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
