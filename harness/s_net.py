"""Workload of C10: models newly built from tables written in many ways, and their first steps."""
import traceback
import numpy as np
import rec, nets
from rec import F

load = lambda: __import__('pipedream_solver.hydraulics')
PROFILES = [dict(), dict(p_expl=1), dict(p_expl=0, p_mobile=.6), dict(p_struct=1, p_perm=.6), dict(p_expl=0, p_dxe=1, p_off=1, p_rev=.8, p_C=.8), dict(p_trans=.4, p_tab=.6, p_hw=1, p_ctrl=.7), dict(level=(-.3, .4), p_maxd=.4, p_maxk=.3, p_bc=.6)]


def jobs(prop, tier, seed):
    n = dict(quick=800, thorough=9000).get(tier, 800)
    return [dict(seed=[seed, 10, i], gp=PROFILES[i % len(PROFILES)], style=i % 3 != 0) for i in range(n)]


def dead(job, why):
    return dict(tables=dict(sj=[]), net={}, S0=[], S=[], U=[], x=[], zj=[], zu=[], zd=[], names=[], knames=[], calm=True, err=why)


def still(net):
    st = nets.static(net)
    for l, row in zip(st['lk'], net['links'] if net['links'] is not None else st['lk']):
        if net['links'] is not None and min(st['jn'][l['I'] - 1]['h0'], st['jn'][l['I']]['h0']) < .05: row['Q_0'] = 0.
    if net['links'] is None:
        for s in net['sl']:
            if s['h_0'] < .05: s['Q_0'] = 0.


def run(job):
    rng = np.random.default_rng(job['seed'])
    net = nets.gen(rng, job['gp'])
    # Flow through (nearly) dry links gives velocities without meaning: two models in three start calmly; of the others only
    # the tables and the initial state are judged.
    calm = job['seed'][-1] % 3 != 1
    if calm: still(net)
    if job['style']: nets.style(rng, net)
    tr = dead(job, ''); tr['calm'] = calm; tr['net'], tr['tables'] = nets.static(net), nets.plain(net)
    where = 'constructor'
    try:
        m = rec.build(net); v = rec.View(net, m)
        M, NI = len(net['sj']), len(m.h_Ik)
        d = m.states
        g = lambda a: d[a] if a in d else []
        if 'H_j' in d:
            tr['S0'] = dict(H=F(np.asarray(d['H_j'])[v.inv]), h=F(g('h_Ik')), Q=F(g('Q_ik')), Qu=F(g('Q_uk')), Qd=F(g('Q_dk')), Qo=F(g('Q_o')) if v.no else [], Qw=F(g('Q_w')) if v.nw else [], Qp=F(g('Q_p')) if v.np_ else [])
        tr.update(x=F(m.x_Ik), zj=F(np.asarray(m.z_inv_j)[v.inv]), zu=F(m.z_inv_uk), zd=F(m.z_inv_dk))
        if not (job['style'] and net['style']['names']):
            tr.update(names=[str(x) for x in np.asarray(m.superjunction_names)[v.inv]], knames=[str(x) for x in m.superlink_names])
        tr['S'].append(v.state())
        wild = lambda s, lim=1e3: not max(map(abs, s['h'] + s['H'] + s['Q'] + s['Qu'] + s['Qd'])) < lim
        if not calm or wild(tr['S'][0], 50) or any(l['Q0'] < 0 for l in tr['net']['lk']): return tr   # K02 met: what follows is a model out of control
        for k, u in enumerate(rec.inputs(rng, net, v, 2, dict(p_qin=.9, p_u=1))):
            where = 'step %d' % (k + 1)
            m.step(**v.kw(u))
            s = v.state()
            if wild(s): break
            tr['U'].append(rec.full(u, M, NI, v.no, v.nw, v.np_)); tr['S'].append(s)
    except Exception as e:
        if not calm and type(e).__name__ == 'LinAlgError': return tr
        tr['err'] = '%s: %s: %s' % (where, type(e).__name__, str(e)[:200]); tr['tb'] = traceback.format_exc()[-1500:]
        if not tr['S']: tr['S'], tr['U'] = [], []
    return tr
