"""Several analyses of one check side by side, each in a process of its own."""
import os, pickle, sys, traceback
import ir, isl


def work(make, task, fd):
    r = make()
    try:
        task(r)
        b = None
    except ir.AnalysisBroken as e: b = str(e)
    except RecursionError: b = 'recursion limit'
    except Exception: b = traceback.format_exc()[-800:]
    for f in r.findings: f['trace'] = [t if isinstance(t, (tuple, str)) else str(t) for t in f['trace']]
    with os.fdopen(fd, 'wb') as o: pickle.dump((r.findings, r.cov, r.minimum, r.assumptions, b), o)


def run(r, tasks):
    """runs task(result) for every task and adds up what they found"""
    jobs = []
    todo = list(tasks)
    n = min(8, os.cpu_count() or 1)
    broken = None
    seen = set()
    live = []
    import select
    while todo or live:
        while todo and len(live) < n:
            rd, wr = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if not pid:
                rc = 1
                try:
                    os.close(rd)
                    work(type(r), todo[0], wr)
                    rc = 0
                finally:
                    isl._stop()
                    os._exit(rc)
            todo.pop(0)
            os.close(wr)
            live.append([pid, rd, b''])
        ready, _, _ = select.select([x[1] for x in live], [], [])
        for x in [x for x in live if x[1] in ready]:
            d = os.read(x[1], 1 << 20)
            if d: x[2] += d; continue
            os.close(x[1]); os.waitpid(x[0], 0)
            live.remove(x)
            if not x[2]: broken = broken or 'an analysis ended without a result'; continue
            found, cov, mins, ass, b = pickle.loads(x[2])
            broken = broken or b
            for f in found:
                k = (f['rule'], f['file'], f['fn'], f['msg'])
                if k not in seen: seen.add(k); r.findings.append(f)
            for k, v in cov.items():
                if isinstance(v, (int, float)): r.cov[k] = r.cov.get(k, 0) + v
                elif isinstance(v, list): r.cov[k] = sorted(set(r.cov.get(k, [])) | set(v))
                else: r.cov.setdefault(k, v)
            r.minimum.update(mins)
            r.assumptions += [a for a in ass if a not in r.assumptions]
    r.cov['analyses'] = len(tasks)
    if broken: raise ir.AnalysisBroken(broken)
