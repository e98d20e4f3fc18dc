#!/usr/bin/env python3
"""Decide one property:  check.py ID [--tier quick|thorough] [--replay FILE]

1. model-check the specification modules of the property (TLC, exhaustively within the bounds of their .cfg);
2. run the property's workload against the code in /repo (fresh numba cache) and record what it publishes;
3. let TLC judge every recorded run against the specification (trace module TV_*);
4. report.  Exit 0: held on everything explored.  Exit 1: a VIOLATION line.  Exit 2: the check itself is broken."""
import argparse, collections, importlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
REPO = os.environ.get('VP_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla'
NPROC = 8
t0 = time.time()


def log(*a):
    print('[%5.1fs]' % (time.time() - t0), *a, flush=True)


class Broken(Exception):
    pass


def override(scratch):
    """The IEEE arithmetic TLC evaluates with; built by setup_cmd, rebuilt here if it is missing or stale."""
    d = os.path.join(ROOT, 'build')
    src, cls = os.path.join(ROOT, 'java', 'Floats.java'), os.path.join(d, 'Floats.class')
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src): return d
    d = os.path.join(scratch, 'classes'); os.makedirs(d)
    subprocess.run(['javac', '-nowarn', '-cp', TLA + '/tla2tools.jar', '-d', d, src], check=True, stderr=subprocess.DEVNULL)
    return d


class Tlc:
    """One TLC run in the background."""
    def __init__(self, scratch, classes, module, cfg=None, workers=1, env=None, extra=(), mem='3g'):
        self.module, self.cfg = module, cfg or module
        self.meta = tempfile.mkdtemp(prefix='tlc', dir=scratch)
        self.out = os.path.join(self.meta, 'out.txt')
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + mem, '-Xss64m', '-cp', ':'.join([classes, TLA + '/tla2tools.jar', TLA + '/CommunityModules-deps.jar']),
               '-DTLA-Library=' + os.path.join(ROOT, 'spec'), 'tlc2.TLC', '-noGenerateSpecTE', '-deadlock', '-continue', '-metadir', self.meta, '-workers', str(workers),
               *extra, '-config', os.path.join(ROOT, 'spec', self.cfg + '.cfg'), os.path.join(ROOT, 'spec', module + '.tla')]
        self.f = open(self.out, 'w')
        self.t = time.time()
        self.p = subprocess.Popen(cmd, cwd=self.meta, stdout=self.f, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})))

    def wait(self, timeout=840):
        try: self.rc = self.p.wait(max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            self.p.kill(); self.p.wait(); raise Broken('TLC on %s did not finish' % self.module)
        self.f.close()
        self.txt = open(self.out).read()
        self.wall = time.time() - self.t
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', self.txt)
        self.gen, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.fails = [l for l in self.txt.splitlines() if l.startswith('"FAIL ')]
        if not re.search(r'^Finished in', self.txt, re.M) or (not self.fails and 'No error has been found' not in self.txt) or re.search(r'TLC threw|evaluat.* error|Semantic errors|Parsing or semantic', self.txt):
            i = self.txt.find('Error:')
            raise Broken('TLC on %s:\n%s' % (self.cfg, self.txt[max(0, i - 200):i + 2500] if i >= 0 else self.txt[-2500:]))
        return self


def unq(s):
    return s.replace('\\"', '"')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay'); ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop, tier = a.prop, a.tier
    plan = json.load(open(os.path.join(ROOT, 'plan.json')))[prop]
    scratch = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try:
        return decide(a, prop, tier, seed, plan, scratch)
    except Broken as e:
        print('CHECK-BROKEN property=%s %s' % (prop, e)); return 2
    finally:
        if a.keep: print('kept', scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)


def decide(a, prop, tier, seed, plan, scratch):
    wl = plan['workload']
    nbc = os.path.join(scratch, 'numba'); os.makedirs(nbc)
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', NUMBA_CACHE_DIR=nbc, VP_PROCS=str(NPROC), PYTHONHASHSEED='0')
    classes = override(scratch)
    # numba: compile the package in parallel
    warm = [subprocess.Popen([PY, os.path.join(ROOT, 'harness', 'warm.py'), str(i), str(NPROC)] + plan['warm'], env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for i in range(NPROC)]
    # the specification on its own
    mcs = []
    if not a.replay:
        for m in plan.get('mc', []):
            cfg = m + '_thorough' if tier == 'thorough' and os.path.exists(os.path.join(ROOT, 'spec', m + '_thorough.cfg')) else m
            mod = re.match(r'MC_[A-Za-z]+', m).group(0)
            mcs.append(Tlc(scratch, classes, mod, cfg, workers=8 if tier == 'thorough' else 4, env=dict(PROP=prop)))
    # behaviours of the specification to be replayed in the code
    gen = None
    if plan.get('gen'):
        g = plan['gen']
        gen = os.path.join(scratch, 'gen.json')
        num = g['quick'] if tier == 'quick' else g['thorough']
        gt = Tlc(scratch, classes, g['module'], g['cfg'], workers=1, env=dict(PROP=prop, GEN='1'), extra=['-simulate', 'num=%d' % num, '-depth', str(g['depth']), '-seed', str(seed)])
        rc = gt.p.wait(600)
        gt.f.close()
        txt = open(gt.out).read()
        beh = [json.loads(l) for l in sorted({unq(l)[5:-1] for l in txt.splitlines() if l.startswith('"GEN ')})][:num]
        if not beh: raise Broken('no behaviours from %s:\n%s' % (g['module'], txt[-2000:]))
        json.dump(beh, open(gen, 'w'))
        env['GENFILE'] = gen
        log('%d behaviours generated from %s' % (len(beh), g['module']))
    for p in warm:
        try: p.wait(400)
        except subprocess.TimeoutExpired: p.kill()
    log('numba ready')
    out = os.path.join(scratch, 'traces'); os.makedirs(out)
    cmd = [PY, os.path.join(ROOT, 'harness', 'record.py'), wl, prop, tier, str(seed), out]
    if a.replay:
        jf = os.path.join(scratch, 'jobs.json'); json.dump([json.load(open(a.replay))['job']], open(jf, 'w')); cmd.append(jf)
    r = subprocess.run(cmd, env=env, cwd=scratch, capture_output=True, text=True, timeout=3000)
    traces = []
    for f in sorted(os.listdir(out)):
        traces += [json.loads(l) for l in open(os.path.join(out, f))]
    if r.returncode != 0 or not traces:
        # the package cannot even be imported or the recorder died: nothing is known of the property
        tail = (r.stderr or '')[-1500:]
        if 'pipedream_solver' in tail and not traces:
            traces = []
            path = save(prop, dict(property=prop, job=None, failing=[['import', tail]]))
            print('the package cannot be imported:\n' + tail); print('VIOLATION property=%s replay=%s' % (prop, path))
            evidence(prop, tier, seed, [], [], [], 1, {}); return 1
        raise Broken('recorder: ' + tail)
    broken = [t for t in traces if t.get('broken')]
    if broken: raise Broken('workload: %s\n%s' % (broken[0]['err'], broken[0].get('tb')))
    log('%d runs recorded' % len(traces))
    # judge
    traces.sort(key=lambda t: t['n'])
    HIDE = ('raw', 'job', 'tb', 'n')
    nb = max(1, min(NPROC, len(traces)))
    batches = [traces[i::nb] for i in range(nb)]
    tl = []
    tv = plan['tv']
    for i, b in enumerate(batches):
        path = os.path.join(scratch, 'b%d.json' % i)
        json.dump([{k: v for k, v in t.items() if k not in HIDE} for t in b], open(path, 'w'))
        tl.append(Tlc(scratch, classes, tv, tv, env=dict(BATCH=path, PROP=prop), mem='3500m' if tier == 'thorough' else '2g'))
    bad = []
    for b, t in zip(batches, tl):
        t.wait(850 if tier == 'quick' else 20000)
        for l in t.fails:
            m = re.match(r'FAIL <<(\d+), (\d+), (.*)>>$', unq(l[1:-1]))
            tr = b[int(m.group(1)) - 1]
            bad.append((tr, int(m.group(2)), re.findall(r'<<"([^"]*)", ("[^"]*"|[^>]*)>>', m.group(3))))
    log('%d runs judged, %d transitions, %d failing' % (len(traces), sum(t.gen for t in tl), len(bad)))
    for m in mcs:
        m.wait(850 if tier == 'quick' else 20000)
        if m.fails or 'is violated' in m.txt: raise Broken('specification %s: %s' % (m.cfg, m.txt[-1500:]))
        log('%s: %d states, complete, %.1fs' % (m.cfg, m.distinct, m.wall))
    # report
    known = [k for k in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings'] if k['property'] == prop]
    seen, new = collections.Counter(), []
    for tr, at, labs in sorted(bad, key=lambda x: x[0]['n']):
        rest = []
        for lab, ident in labs:
            k = next((k for k in known if re.fullmatch(k['label'], lab) and (k.get('kind') is None or k['kind'] == tr.get('kind')) and (k.get('ident') is None or re.search(k['ident'], ident))), None)
            if k: seen[k['id']] += 1
            else: rest.append((lab, ident))
        if rest: new.append((tr, at, rest))
    for k in known:
        print('KNOWN-FINDING: property=%s %s%s' % (prop, k['what'], '' if seen[k['id']] else ' (not met in this run)'))
    evidence(prop, tier, seed, traces, tl, mcs, len(new), plan)
    if not new: log('property %s held' % prop); return 0
    print('labels:', dict(collections.Counter(l for _, _, r in new for l, _ in r)))
    for tr, at, rest in new[:5]:
        print('run %d, transition %d: %s %s' % (tr['n'], at, rest[:6], tr.get('err', '')))
    tr, at, rest = new[0]
    path = save(prop, dict(property=prop, job=tr['job'], transition=at, failing=rest, err=tr.get('err'), tb=tr.get('tb'), trace={k: v for k, v in tr.items() if k not in ('job', 'tb')}))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def save(prop, d):
    p = os.path.join(ROOT, 'replays', prop); os.makedirs(p, exist_ok=True)
    path = os.path.join(p, 'seed%s.json' % os.environ.get('VERIF_SEED', '1'))
    json.dump(d, open(path, 'w')); return path


def evidence(prop, tier, seed, traces, tl, mcs, nviol, plan):
    d = os.path.join(ROOT, 'evidence'); os.makedirs(d, exist_ok=True)
    def brief(t):
        s = {k: v for k, v in t.items() if k in ('job', 'err', 'kind')}
        return s
    cov = dict(states=sum(m.distinct for m in mcs) + sum(t.distinct for t in tl), transitions=sum(m.gen for m in mcs) + sum(t.gen for t in tl),
               traces_validated_against_impl=len(traces), samples=[brief(t) for t in traces[:3]],
               transitions_of_the_code_judged=sum(max(0, t.gen - len(traces) // max(1, len(tl))) for t in tl),
               specification=[dict(model=m.cfg, distinct_states=m.distinct, states_generated=m.gen, complete=True, wall_s=round(m.wall, 1)) for m in mcs],
               trace_module=plan.get('tv'), kinds=dict(collections.Counter(str(t.get('kind', 'run')) for t in traces)),
               runs_ended_early=sum(1 for t in traces if t.get('err')))
    json.dump(dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking', coverage=cov, assumptions=plan.get('assumes', []), wall_s=round(time.time() - t0, 1), violations=nviol),
              open(os.path.join(d, prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
