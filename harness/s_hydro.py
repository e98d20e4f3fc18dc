"""Workload of C01-C08: random networks driven by random histories; still lakes."""
import numpy as np
import rec, nets

WARM = ['pipedream_solver.hydraulics']
TV = 'TV_Hydraulics'
load = lambda: __import__('pipedream_solver.hydraulics')

QUICK, THOROUGH = 1600, 12000
# per property: which networks and histories, on top of the general mixture
PROFILES = {
    'C01': [({}, {}), (dict(ends=['o'], p_dxe=1), {}), (dict(p_As=1, p_expl=1), dict(p_q0=1)), (dict(methods=['f', 'lsq']), dict(niter=.5))],
    'C02': [({}, {}), (dict(p_struct=1), {}), (dict(p_struct=1, extra=.8, M=(3, 7)), dict(niter=.4)), (dict(p_dxe=1, p_off=1), dict(p_qin=1)), (dict(p_tab=.8, p_iso=.5, p_struct=1), {})],
    'C03': [({}, {}), (dict(p_hw=1, p_expl=.8), {}), (dict(p_ctrl=1, p_expl=.7), {}), (dict(p_damp=1, p_adverse=.8, level=(.1, .6)), dict(qin=(0, 3))), (dict(p_bc=.8), dict(niter=.5))],
    'C04': [({}, {}), (dict(p_off=1, p_C=1), dict(hbc=(.05, 1.0))), (dict(bcm=['b'], p_dxe=1, p_hw=1), {}), (dict(p_rev=.8, p_C=1, p_dxe=1, p_bc=.6), dict(niter=.3)), ('rest', {}), ('rest', {}), ('rest', {}), ('rest', {}), ('rest partial', {})],
    'C05': [({}, {}), (dict(p_bc=.8, p_maxd=.4), dict(p_hbc=.9, hbc=(-.3, 3))), (dict(p_maxk=1), dict(qin=(0, 2))), (dict(level=(0, .2)), dict(drain=.8, qin=(0, 1))), (dict(p_hw=1, p_struct=.8), dict(niter=.4))],
    'C06': [(dict(p_struct=1, structs='owp'), {}), (dict(p_struct=1, structs='o', level=(.05, 2)), {}), (dict(p_struct=1, structs='w', level=(.2, 2.5)), {}), (dict(p_struct=1, structs='p'), {}), (dict(p_struct=1, p_bc=.9), dict(hbc=(.0, 3), p_hbc=1, niter=.3))],
    'C07': [({}, {}), (dict(p_expl=1, p_trans=.4), {}), (dict(p_deep=1, level=(.2, 3)), {}), (dict(p_off=1, p_dxe=1, level=(0, .5)), {}), (dict(p_trans=.8, level=(.1, 4)), {})],
    'C08': [(dict(p_tab=.7), {}), (dict(p_tab=1, M=(3, 7), level=(.1, 5)), dict(qin=(0, 2))), (dict(p_tab=.4, p_perm=1), dict(niter=.3)), (dict(p_tab=0), {})],
}


def jobs(prop, tier, seed):
    P = PROFILES[prop]
    n = QUICK if tier == 'quick' else THOROUGH
    return [dict(seed=[seed, int(prop[1:]), i], gp=P[i % len(P)][0], ip=P[i % len(P)][1], nsteps=12 if i % 5 else 24) for i in range(n)]


def run(job):
    if job['gp'] in ('rest', 'rest partial'): return rest(job)
    return rec.run(job['seed'], job['gp'], job['ip'], job['nsteps']) | dict(rest=False)


def dead(job, why):
    return dict(seed=job['seed'], net=dict(), S=[], U=[], IT=[], err=why, rest=False)


def rest(job):
    """A lake: every depth is that of one level surface; structures at equal heads; no inflow."""
    rng = np.random.default_rng(job['seed'])
    # with bc_method 'z' the depth at the first junction is that at the superlink end, so end lengths must be zero
    bcm = 'b' if rng.random() < .5 else 'z'
    net = nets.gen(rng, dict(p_expl=1, p_maxd=0, p_maxk=0, p_struct=.5 if job['gp'] == 'rest' else 1, p_C=.6, bcm=[bcm], p_dxe=.7 if bcm == 'b' else 0))
    L = max([s['z_inv'] for s in net['sj']] + [j['z_inv'] for j in net['juncs']]) + 1e-2 + float(rng.choice([.2, .7, 1.5, 4]))
    for s in net['sl']: L = max(L, net['sj'][s['sj_0']]['z_inv'] + s['in_offset'] + .01, net['sj'][s['sj_1']]['z_inv'] + s['out_offset'] + .01)
    net['p'] = []
    for s in net['sj']: s['h_0'] = L - s['z_inv']
    for j in net['juncs']: j['h_0'] = L - j['z_inv']
    for l in net['links'] + net['sl']: l['Q_0'] = 0.0
    # a partly filled side orifice does not rest (known finding K01): kept apart
    part = lambda o: o['orientation'] == 'side' and 0 < L - net['sj'][o['sj_0']]['z_inv'] - o['z_o'] <= o['y_max'] + 1e-6
    if job['gp'] == 'rest':
        for o in net['o']:
            if part(o): o['z_o'] = round(L - net['sj'][o['sj_0']]['z_inv'] + .05, 4)      # dry
    partial = any(part(o) for o in net['o'])
    tr = rec.run(rng, None, dict(qin=(0, 0), p_q0=0, p_hbc=0, niter=.3), job['nsteps'], net=net)
    tr['seed'] = job['seed']; tr['rest'] = True; tr['level'] = L; tr['kind'] = 'lake with a partly filled orifice' if partial else 'lake'
    return tr
