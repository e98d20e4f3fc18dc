"""Run the jobs of a workload against the code in /repo and write one trace per line (JSON).

usage: record.py WORKLOAD PROPERTY TIER SEED OUTDIR [JOBFILE]

Jobs are shared out over forked processes.  A process that dies (or hangs) in a job is replaced, and that job's
trace says so: on valid input this is a failure of the code under test."""
import importlib, json, os, signal, sys, time, traceback

NPROC = int(os.environ.get('VP_PROCS', '8'))
JOB_S = 120


def child(mod, jobs, path):
    with open(path, 'a') as f:
        for n, job in jobs:
            signal.alarm(JOB_S)          # default action: ends the process; the parent records it
            try:
                tr = mod.run(job)
            except Exception as e:       # not in the code under test's care: a workload must catch what it expects
                tr = dict(err='workload: %s: %s' % (type(e).__name__, str(e)[:200]), tb=traceback.format_exc()[-1500:], broken=True)
            signal.alarm(0)
            tr['job'] = job; tr['n'] = n
            f.write(json.dumps(tr) + '\n'); f.flush()


def main():
    wl, prop, tier, seed, out = sys.argv[1:6]
    t0 = time.time()
    mod = importlib.import_module(wl)
    if len(sys.argv) > 6: jobs = json.load(open(sys.argv[6]))
    else: jobs = mod.jobs(prop, tier, int(seed))
    mod.load()
    print('record: import %.1fs, %d jobs' % (time.time() - t0, len(jobs)), file=sys.stderr)
    share = [list(enumerate(jobs))[i::NPROC] for i in range(NPROC)]
    live = {}
    def start(i, todo):
        path = os.path.join(out, 'w%d.jsonl' % i)
        pid = os.fork()
        if pid == 0:
            try: child(mod, todo, path)
            except BaseException: traceback.print_exc(); os._exit(3)
            os._exit(0)
        live[pid] = i
    for i in range(NPROC):
        if share[i]: start(i, share[i])
    while live:
        pid, st = os.wait()
        i = live.pop(pid)
        path = os.path.join(out, 'w%d.jsonl' % i)
        done = set()
        if os.path.exists(path):
            good = []
            for l in open(path):
                try: done.add(json.loads(l)['n']); good.append(l)
                except ValueError: pass
            with open(path, 'w') as f: f.writelines(good)
        left = [x for x in share[i] if x[0] not in done]
        if left:
            n, job = left[0]
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'exit %d' % os.WEXITSTATUS(st)
            with open(path, 'a') as f:
                f.write(json.dumps(mod.dead(job, 'the process ended (%s) or the run took more than %d s' % (sig, JOB_S)) | dict(job=job, n=n)) + '\n')
            if left[1:]: start(i, left[1:])
    print('record: done %.1fs' % (time.time() - t0), file=sys.stderr)


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    main()
