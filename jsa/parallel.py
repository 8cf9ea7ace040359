"""Run the jobs of a check in several processes."""
import os, pickle, sys, time
from engine import *


def run(c, jobs, procs=None):
    """c.work(job) for every job; c.n and the violations of c.eng are brought together.  Returns (functions, paths, violations)"""
    procs = min(procs or min(8, os.cpu_count() or 1), max(1, len(jobs) // 8))
    if procs <= 1:
        for j in jobs:
            c.work(j)
        return c.eng.analysed, c.eng.stats['paths'], list(c.eng.violations.values())
    base = dict(c.n)
    kids = []
    sys.stdout.flush()
    for k in range(procs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            err = None
            try:
                for j in jobs[k::procs]:
                    c.work(j)
                    if c.eng.violations and time.time() - min(v['t'] for v in c.eng.violations.values()) > 20:
                        break
            except AnalysisBroken as e:
                err = str(e)
            except BaseException as e:
                import traceback
                err = traceback.format_exc()
            with os.fdopen(w, 'wb') as f:
                pickle.dump((err, c.n, set(c.eng.analysed), c.eng.stats['paths'], c.eng.violations), f)
            os._exit(0)
        os.close(w)
        kids.append((pid, r))
    fns, paths, viol, errs = set(), 0, {}, []
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            errs.append('a process of the analysis ended')
            continue
        err, n, fs, ps, vs = pickle.loads(data)
        if err:
            errs.append(err)
        for x in n:
            c.n[x] = c.n.get(x, 0) + n[x] - base.get(x, 0)
        fns |= fs
        paths += ps
        for x, v in vs.items():
            viol.setdefault(x, v)
    c.eng.violations.update(viol)
    if errs and not viol:
        raise AnalysisBroken(errs[0])
    return fns, paths, list(viol.values())
