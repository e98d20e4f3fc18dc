"""Workload of C11, C12: lives of models.  Operation sequences are generated from Lifecycle by TLC or at random."""
import copy, json, os, traceback
import numpy as np
import rec, nets
from rec import F

load = lambda: __import__('pipedream_solver.hydraulics')
SPIN = 3      # number of the input spin-up uses by default


def jobs(prop, tier, seed):
    n = dict(quick=220, thorough=3000).get(tier, 220)
    out = [dict(kind='random', seed=[seed, int(prop[1:]), i], prop=prop, mobile=i % 5 == 0, ops=None) for i in range(n)]
    if os.environ.get('GENFILE'):
        for i, b in enumerate(json.load(open(os.environ['GENFILE']))):
            out.append(dict(kind='gen', seed=[seed, int(prop[1:]), 10 ** 6 + i], prop=prop, mobile=any(o['op'] == 'move' for o in b) and i % 2 == 0, ops=b))
    return out


def dead(job, why):
    return dict(kind=job['kind'], nets=[], U=[], ops=[], mobile=False, err=why)


def draw(rng, n):
    """A random operation sequence over up to three models of two networks."""
    tabs, snaps, ops = [1], [], [dict(op='build', m=1, tab=1)]
    for _ in range(n):
        r = rng.random(); m = int(rng.integers(len(tabs))) + 1
        fit = [s + 1 for s, t in enumerate(snaps) if t == tabs[m - 1]]
        if r < .1 and len(tabs) < 3: tabs.append(int(rng.choice([1, 1, 2]))); ops.append(dict(op='build', m=len(tabs), tab=tabs[-1]))
        elif r < .55: ops.append(dict(op='step', m=m, u=int(rng.choice([1, 1, 2, 2, 4, 5]))))
        elif r < .62: ops.append(dict(op='save', m=m))
        elif r < .72: snaps.append(tabs[m - 1]); ops.append(dict(op='snap', m=m))
        elif r < .86 and fit: ops.append(dict(op='load' if rng.random() < .8 else 'loadx', m=m, s=int(rng.choice(fit))))
        elif r < .9: ops.append(dict(op='own', m=m))
        elif r < .94: ops.append(dict(op='spin', m=m, u=SPIN, q=int(rng.integers(1, 4)), reset=bool(rng.random() < .5)))
        elif r < .97: ops.append(dict(op='move', m=m))
    return ops


def run(job):
    rng = np.random.default_rng(job['seed'])
    prop = job['prop']
    gp = dict(M=(2, 4), maxlinks=4, p_perm=.4, p_struct=.5, p_bc=.3, p_maxd=.1)
    if job['mobile']: gp.update(p_mobile=1, p_expl=0, extra=0)
    N = [nets.gen(rng, gp) for _ in range(2)]
    ops = job['ops'] or draw(rng, 24)
    tr = dict(kind=job['kind'], nets=[nets.static(n) for n in N], U=[[], []], ops=[], mobile=bool(job['mobile']), err='')
    where = 'constructor'
    models, views, tabs, path, saved, snaps, snap_at, snap_tab = [], [], [], [], [], [], [], []
    try:
        I = []                                  # inputs of either network; their arrays are reused throughout
        for k in (0, 1):
            m0 = rec.build(N[k]); v0 = rec.View(N[k], m0)
            us = rec.inputs(rng, N[k], v0, 5, dict(dt=(.5, 10.)))
            for u in us[3:]: u['n'] = int(rng.integers(2, 7)); u['tol'] = float(rng.choice([0.0, .0015, .02, .3]))
            if prop == 'C12': us[1]['n'], us[1]['tol'] = int(rng.integers(2, 5)), float(rng.choice([.0015, .01, .1]))
            M, NI = len(N[k]['sj']), len(m0.h_Ik)
            us[SPIN - 1] = dict(dt=round(float(rng.uniform(1, 10)), 2), Qin=[1e-6] * M, Q0=[1e-6] * NI, Hbc=None, uo=None, uw=None, up=None, n=1, tol=0.0)
            I.append([(u, v0.kw(u)) for u in us])
            tr['U'][k] = [dict(rec.full(u, M, NI, v0.no, v0.nw, v0.np_), tol=float(u['tol'])) for u in us]

        def phys(v, d=None):
            m = v.m
            g = (lambda a: getattr(m, a)) if d is None else (lambda a: d.get(a, []))
            H = np.asarray(g('H_j'))
            s = dict(H=F(H[v.inv] if len(H) else H), h=F(g('h_Ik')), Q=F(g('Q_ik')), Qu=F(g('Q_uk')), Qd=F(g('Q_dk')), x=F(g('x_Ik')), t=float(g('t')) if d is None else float(d.get('t', 'nan')),
                     Qo=F(g('Q_o')) if v.no else [], Qw=F(g('Q_w')) if v.nw else [], Qp=F(g('Q_p')) if v.np_ else [])
            if d is None: s['it'] = int(m.iter_count)
            return s

        def do(o):
            nonlocal where
            where = o['op']
            o = dict(o); i = o['m'] - 1
            if o['op'] == 'build':
                models.append(rec.build(N[o['tab'] - 1])); views.append(rec.View(N[o['tab'] - 1], models[-1])); tabs.append(o['tab']); path.append([]); saved.append([None])      # None: before the constructor's own first step
            else:
                m, v, k = models[i], views[i], tabs[i] - 1
            if o['op'] == 'step':
                u, kw = I[k][o['u'] - 1]
                o.update(dt=float(u['dt']), net=tabs[i], alt=[], el=0)
                if u['n'] > 1 and prop == 'C12':
                    o['alt'].append(v.state(geom=False))
                    for q in range(1, u['n'] + 1):
                        tw = copy.deepcopy(m); tw.step(**{**kw, 'num_iter': q, 'head_tol': 0.0}); o['alt'].append(rec.View(N[k], tw).state(geom=False))
                    for a in o['alt']: a['x'] = F(m.x_Ik)
                saved[i] = list(path[i])
                m.step(**kw)
                path[i].append(o['u'])
                if u['n'] > 1: o['el'] = int(m.iter_elapsed)
            elif o['op'] == 'spin':
                u = I[k][SPIN - 1][0]
                o.update(dt=float(u['dt']))
                for _ in range(o['q']): saved[i] = list(path[i]); path[i].append(o['u'])
                m.spinup(n_steps=o['q'], dt=u['dt'], reset_counters=o['reset'])
            elif o['op'] == 'save': m.save_state(); saved[i] = list(path[i])
            elif o['op'] == 'snap': snaps.append(dict(m.states)); snap_at.append(saved[i]); snap_tab.append(k)
            elif o['op'] == 'own': m.load_state(); path[i] = list(saved[i])
            elif o['op'] in ('load', 'loadx'):
                m.load_state(snaps[o['s'] - 1], **(dict(exclude_states={'t'}) if o['op'] == 'loadx' else {}))
                path[i] = list(snap_at[o['s'] - 1])
            elif o['op'] == 'move':
                m.reposition_junctions(); path[i].append(0)
            o.update(b=[phys(v) for v in views], sv=[phys(v, v.m.states) for v in views])
            o['snaps'] = [phys(views[tabs.index(t + 1)], s) for s, t in zip(snaps, snap_tab)] if o['op'] == 'end' else []
            tr['ops'].append(o)

        for o in ops:
            if o['op'] == 'move' and not job['mobile']: continue
            do(o)
        # a new model given the same inputs
        for i in range(len(models)):
            if None in path[i] or len(path[i]) > 12: continue
            do(dict(op='build', m=len(models) + 1, tab=tabs[i]))
            n = len(models)
            for p in path[i]:
                if p == 0: do(dict(op='move', m=n))
                else: do(dict(op='step', m=n, u=p))
        do(dict(op='end', m=1))
    except Exception as e:
        tr['err'] = '%s: %s: %s' % (where, type(e).__name__, str(e)[:200]); tr['tb'] = traceback.format_exc()[-1500:]
    return tr
