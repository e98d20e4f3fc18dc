"""Run the real model on generated networks and inputs and record what it publishes, as JSON for TLC."""
import copy, json, math, os, sys, traceback, warnings
import numpy as np
warnings.filterwarnings('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import nets


def F(v):
    return [float(x) for x in np.asarray(v, dtype=float).ravel()]


def build(net):
    from pipedream_solver.hydraulics import SuperLink
    return SuperLink(**nets.tables(net))


class View:
    """What a model publishes, in the order of the tables the user passed."""
    def __init__(self, net, m):
        self.net, self.m = net, m
        self.perm = np.asarray(m.permutations)          # table row held at each internal position
        self.inv = np.argsort(self.perm)
        self.no, self.nw, self.np_ = len(net['o']), len(net['w']), len(net['p'])

    def state(self, geom=True):
        m = self.m
        s = dict(t=float(m.t), it=int(m.iter_count), H=F(np.asarray(m.H_j)[self.inv]), h=F(m.h_Ik), Q=F(m.Q_ik), Qu=F(m.Q_uk), Qd=F(m.Q_dk),
                 Qo=F(m.Q_o) if self.no else [], Qw=F(m.Q_w) if self.nw else [], Qp=F(m.Q_p) if self.np_ else [])
        if geom:
            s.update(A=F(m.A_ik), P=F(m.Pe_ik), R=F(m.R_ik), B=F(m.B_ik), Au=F(m.A_uk), Ad=F(m.A_dk), As=F(np.asarray(m.A_sj)[self.inv]), V=F(np.asarray(m.V_j)[self.inv]))
        return s

    def kw(self, u):
        """Inputs given in table order -> keyword arguments of step() (in the model's own order)."""
        k = dict(dt=u['dt'])
        if u['Qin'] is not None: k['Q_in'] = np.array(u['Qin'])[self.perm]
        if u['Hbc'] is not None: k['H_bc'] = np.array(u['Hbc'])[self.perm]
        if u['Q0'] is not None: k['Q_0Ik'] = np.array(u['Q0'])
        if self.no and u['uo'] is not None: k['u_o'] = np.array(u['uo'])
        if self.nw and u['uw'] is not None: k['u_w'] = np.array(u['uw'])
        if self.np_ and u['up'] is not None: k['u_p'] = np.array(u['up'])
        if u.get('n', 1) > 1: k['num_iter'] = u['n']; k['head_tol'] = u['tol']
        return k


def inputs(rng, net, v, n, p=None):
    """A random input history."""
    o = dict(dt=(.5, 30.), qin=(0, .5), p_qin=.85, q0=(0, .01), p_q0=.4, p_hbc=.7, hbc=(.3, 1.8), p_u=.85, niter=0.0, dts=0.5, drain=0.1)
    o.update(p or {})
    R = lambda pr: bool(rng.random() < pr)
    M, NI = len(net['sj']), len(v.m.h_Ik)
    base = nets.rnd(rng, *o['dt'])
    vary = R(o['dts'])
    mode = R(o['p_qin']), R(o['p_q0']), R(o['p_hbc'])
    amp = rng.uniform(0, 1, M) * (rng.random(M) < .7)
    hb = np.array([s['z_inv'] for s in net['sj']]) + rng.uniform(*o['hbc'], M)
    us = dict(uo=np.round(rng.choice([0, .3, .7, 1.0], v.no), 3), uw=np.round(rng.choice([0, .5, 1.0], v.nw), 3), up=np.round(rng.choice([0, .5, 1.0], v.np_), 3))
    out = []
    for k in range(n):
        dt = round(base * float(rng.choice([.1, .5, 1, 2])), 4) if vary else base
        q = rng.uniform(*o['qin'], M) * amp
        if R(o['drain']): q = -q * .3
        if R(.25): hb = hb + rng.uniform(-.25, .25, M)
        for key in us:
            if R(.25) and us[key].size: us[key] = np.round(rng.choice([0, .25, .6, 1.0], us[key].size), 3)
        u = dict(dt=float(dt), Qin=[round(float(x), 5) for x in q] if mode[0] else None, Q0=[round(float(x), 6) for x in rng.uniform(*o['q0'], NI)] if mode[1] else None,
                 Hbc=[round(float(x), 4) for x in hb] if mode[2] else None,
                 uo=F(us['uo']) if R(.97) or not v.no else None, uw=F(us['uw']) if R(.97) or not v.nw else None, up=F(us['up']) if R(.97) or not v.np_ else None, n=1, tol=0.0)
        if R(o['niter']): u['n'] = int(rng.integers(2, 6)); u['tol'] = float(rng.choice([0.0, 0.0, .0015, .05]))
        out.append(u)
    return out


def full(u, M, NI, no, nw, np_):
    """Defaults of step() written out (Hbc: empty when not prescribed)."""
    z = lambda v, n: F(v) if v is not None else [0.0] * n
    return dict(dt=float(u['dt']), Qin=z(u['Qin'], M), Q0=z(u['Q0'], NI), Hbc=[] if u['Hbc'] is None else F(u['Hbc']), uo=z(u['uo'], no), uw=z(u['uw'], nw), up=z(u['up'], np_), n=int(u.get('n', 1)))


def run(seed, gp=None, ip=None, nsteps=12, net=None):
    """One trace: network, states, inputs.  An exception of the model on valid input ends the trace and is recorded."""
    rng = seed if isinstance(seed, np.random.Generator) else np.random.default_rng(seed)
    net = net or nets.gen(rng, gp)
    tr = dict(seed=seed if isinstance(seed, (int, list)) else 0, net=nets.static(net), S=[], U=[], IT=[], err='')
    tr['raw'] = net
    where = 'constructor'
    try:
        m = build(net); v = View(net, m)
        M, NI = len(net['sj']), len(m.h_Ik)
        tr['S'].append(v.state())
        for k, u in enumerate(inputs(rng, net, v, nsteps, ip)):
            where = 'step %d' % (k + 1)
            it = None
            if u['n'] > 1: twin = copy.deepcopy(m)
            m.step(**v.kw(u))
            if u['n'] > 1 and m.iter_elapsed > 1:
                w = dict(u); w['n'] = int(m.iter_elapsed) - 1; w['tol'] = 0.0
                tv = View(net, twin); twin.step(**tv.kw(w)); it = tv.state(geom=False)
            far = max(map(abs, F(m.h_Ik) + F(m.H_j) + F(m.Q_ik) + F(m.Q_uk) + F(m.Q_dk)))
            if math.isfinite(far) and far > 1e3: break      # a numerically unstable run: rounding swamps every balance
            tr['U'].append(full(u, M, NI, v.no, v.nw, v.np_)); tr['S'].append(v.state())
            tr['IT'].append(it if it is not None else {k: x for k, x in tr['S'][-2].items() if k not in ('A', 'P', 'R', 'B', 'Au', 'Ad', 'As', 'V')})
            if not all(math.isfinite(x) for x in tr['S'][-1]['h'] + tr['S'][-1]['H'] + tr['S'][-1]['Q']): break
    except Exception as e:
        tr['err'] = '%s: %s: %s' % (where, type(e).__name__, str(e)[:200])
        tr['tb'] = traceback.format_exc()[-1500:]
    return tr
