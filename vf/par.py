"""Independent parts of an analysis in parallel processes (results must be plain data)."""
import os
import pickle
import sys


def pmap(fn, items, jobs=None):
    items = list(items)
    jobs = min(jobs or int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 1, len(items))
    if jobs <= 1:
        return [fn(x) for x in items]
    sys.stdout.flush()
    sys.stderr.flush()
    kids = []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                out = [(k, fn(items[k])) for k in range(j, len(items), jobs)]
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f)
                code = 0
            except BaseException as e:                      # reported by the parent
                sys.stderr.write('worker: %s: %s\n' % (type(e).__name__, e))
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r, j))
    res = [None] * len(items)
    lost = []
    for pid, r, j in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if status or not data:
            lost += list(range(j, len(items), jobs))
            continue
        for k, v in pickle.loads(data):
            res[k] = v
    for k in lost:                                           # a process that was ended: once more, alone
        res[k] = fn(items[k])
    return res
