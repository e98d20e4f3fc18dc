"""Workload of C16: soil elements under random and generated rain, alone and coupled with the hydraulic model."""
import json, math, os, traceback
import numpy as np
import rec, nets
from rec import F

load = lambda: (__import__('pipedream_solver.hydrology'), __import__('pipedream_solver.hydraulics'), __import__('pipedream_solver.simulation'))


def jobs(prop, tier, seed):
    n = dict(quick=900, thorough=9000).get(tier, 900)
    out = [dict(kind='coupled' if i % 9 == 0 else 'rain', seed=[seed, 16, i]) for i in range(n)]
    if os.environ.get('GENFILE'):
        gen = json.load(open(os.environ['GENFILE']))
        # behaviours of different soils, run side by side in one model
        for i in range(0, len(gen), 3):
            for steps in gen[i:i + 3]:
                out.append(dict(kind='gen', seed=[seed, 16, 10 ** 6 + i], p=[g['p'] for g in gen[i:i + 3]], steps=steps['steps']))
    return out


def dead(job, why):
    return dict(kind=job['kind'], p=[], ops=[], err=why)


def soils(rng, n):
    P = []
    for _ in range(n):
        ths = round(float(rng.uniform(.3, .55)), 3)
        thi = ths if rng.random() < .08 else round(float(rng.uniform(0, ths)), 3)
        P.append(dict(psi=0.0 if rng.random() < .03 else round(float(rng.uniform(.01, .4)), 4), Ks=float('%.3g' % 10 ** rng.uniform(-7.5, -4)), ths=ths, thi=thi, A=round(float(rng.uniform(1, 500)), 1)))
    return P


def model(P):
    import pandas as pd
    from pipedream_solver.hydrology import GreenAmpt
    return GreenAmpt(pd.DataFrame(dict(psi_f=[p['psi'] for p in P], Ks=[p['Ks'] for p in P], theta_s=[p['ths'] for p in P], theta_i=[p['thi'] for p in P], A_s=[p['A'] for p in P])))


def state(g):
    q = getattr(g, 'Q', np.zeros(g.N))
    return [dict(F=float(g.F[j]), f=float(g.f[j]), d=float(g.d[j]), T=float(g.T[j]), thu=float(g.theta_du[j]), th=float(g.theta_d[j]), sat=bool(g.is_saturated[j]), Q=float(q[j])) for j in range(g.N)]


def step(tr, g, dt, i, arr=None):
    a, t, n = state(g), float(g.t), int(g.iter_count)
    g.step(dt=dt, i=np.array(i, dtype=float))
    tr['ops'].append(dict(coupled=False, a=a, i=F(i), dt=float(dt), b=state(g), t=t, t2=float(g.t), n=n, n2=int(g.iter_count)))


def rain(rng, P, n):
    """Storms, drizzle and dry spells, each element with its own multiple of its conductivity."""
    K = np.array([p['Ks'] for p in P]); N = len(P)
    out, base = [], float(rng.choice([1, 10, 60, 300, 900, 3600]))
    mode = rng.integers(0, 4, N); lev = rng.uniform(0, 3, N)
    for _ in range(n):
        ch = rng.random(N) < .3
        mode = np.where(ch, rng.integers(0, 5, N), mode); lev = np.where(ch, rng.uniform(0, 2.5, N), lev)
        # dry, light, exactly the conductivity, heavy, very heavy
        i = np.select([mode == 0, mode == 1, mode == 2, mode == 3], [0 * K, K * rng.random(N), K, K * (1 + lev)], K * 10 ** lev)
        dt = base * float(rng.choice([.5, 1, 1, 1, 3]))
        if rng.random() < .1: dt = float(rng.choice([7200, 20000, 50000]))
        out.append((dt, i))
    return out


def run(job):
    rng = np.random.default_rng(job['seed'])
    tr = dict(kind=job['kind'], p=[], ops=[], err='')
    where = 'constructor'
    try:
        if job['kind'] == 'coupled': return coupled(rng, tr)
        P = job.get('p') or soils(rng, int(rng.integers(1, 7)))
        tr['p'] = P
        g = model(P)
        if job['kind'] == 'gen':
            K0 = P[0]
            for k, s in enumerate(job['steps']):
                where = 'step %d' % (k + 1); step(tr, g, s['dt'], [s['i']] * len(P))
        else:
            for k, (dt, i) in enumerate(rain(rng, P, 40)):
                where = 'step %d' % (k + 1)
                if rng.random() < .05: g.d = np.round(rng.uniform(0, .05, g.N) * (rng.random(g.N) < .5), 4)
                step(tr, g, dt, i)
    except Exception as e:
        tr['err'] = '%s: %s: %s' % (where, type(e).__name__, str(e)[:200]); tr['tb'] = traceback.format_exc()[-1500:]
    return tr


def coupled(rng, tr):
    """As documented: the ponded depth is the depth of the hydraulic model, its inflow the runoff."""
    from pipedream_solver.simulation import Simulation
    net = nets.gen(rng, dict(p_expl=.6, M=(2, 4)))
    m = rec.build(net); v = rec.View(net, m)
    NI = len(m.h_Ik)
    P = soils(rng, NI)
    tr['p'], tr['net'] = P, nets.static(net)
    g = model(P)
    dt = round(float(rng.uniform(2, 30)), 2)
    where = ''
    try:
        with Simulation(m, t_start=0., t_end=1e6) as sim:
            for k, (_, i) in enumerate(rain(rng, P, 12)):
                where = 'step %d' % (k + 1)
                g.d = m.h_Ik
                before = F(m.h_Ik)
                step(tr, g, dt, i)
                after = F(m.h_Ik)
                s = v.state(geom=False)
                sim.step(dt=dt, subdivisions=1, Q_Ik=g.Q)
                s2 = v.state(geom=False)
                far = max(map(abs, s2['h'] + s2['H'] + s2['Q'] + s2['Qu'] + s2['Qd']))
                if not math.isfinite(far) or far > 1e3: break
                tr['ops'][-1].update(coupled=True, before=before, after=after, s=s, s2=s2, u=rec.full(dict(dt=dt, Qin=None, Q0=F(g.Q), Hbc=None, uo=None, uw=None, up=None, n=1), len(net['sj']), NI, v.no, v.nw, v.np_))
                sim.record_state()
    except Exception as e:
        tr['err'] = '%s: %s: %s' % (where, type(e).__name__, str(e)[:200]); tr['tb'] = traceback.format_exc()[-1500:]
    return tr
