"""Workload of C13-C15: the simulation manager over real models.

Jobs of kind 'gen' replay behaviours of SimManager produced by TLC: sequences of step() calls in which every attempt has a
prescribed error verdict, brought about by disturbing the heads after the large step of that attempt.  Other jobs are
random: natural errors, random series, recordings, rewinds."""
import copy, inspect, json, math, os, traceback
import numpy as np
import rec, nets
from rec import F

load = lambda: (__import__('pipedream_solver.hydraulics'), __import__('pipedream_solver.simulation'))
PERT = {}
COEFFS = [[1, 0, 0, 0, 0], [.5, .5, 0, .5, 0], [1 / 6, 1 / 6, 0, 0, 0], [1 / 4, 1 / 2, 1 / 4, 3 / 4, 1 / 4], [1 / 18, 1 / 9, 1 / 18, 0, 0], [5 / 4, 1 / 2, -3 / 4, -1 / 4, -3 / 4], [1 / 3, 1 / 18, -5 / 18, -5 / 6, -1 / 6]]


def jobs(prop, tier, seed):
    n = dict(quick=500, thorough=6000).get(tier, 500)
    out = [dict(kind='random', seed=[seed, int(prop[1:]), i], prop=prop) for i in range(n)]
    if os.environ.get('GENFILE'):
        for i, b in enumerate(json.load(open(os.environ['GENFILE']))):
            out.append(dict(kind='gen', seed=[seed, int(prop[1:]), 10 ** 6 + i], prop=prop, calls=b))
    return out


def dead(job, why):
    return dict(kind=job['kind'], ops=[], err=why)


class Recorder:
    """Wraps the public step() of one model instance."""
    def __init__(self, v):
        self.v, self.m, self.ev, self.hook = v, v.m, [], None
        real = type(self.m).step
        sig = inspect.signature(real)
        def step(*a, **k):
            arg = sig.bind(self.m, *a, **k).arguments
            s0 = self.brief()
            out = real(self.m, *a, **k)
            prev = F(np.asarray(self.m.states['H_j'])[v.inv])
            if self.hook: self.hook(self)
            s1 = self.brief()
            q, h, i = arg.get('Q_in'), arg.get('H_bc'), arg.get('Q_0Ik')
            self.ev.append(dict(s0=s0, s1=s1, prev=prev, dt=float(arg['dt']), Qin=[] if q is None else F(np.asarray(q)[v.inv]), Hbc=[] if h is None else F(np.asarray(h)[v.inv]), Qik=[] if i is None else F(i)))
            return out
        self.m.step = step

    def brief(self):
        v, m = self.v, self.m
        s = dict(t=float(m.t), H=F(np.asarray(m.H_j)[v.inv]), h=F(m.h_Ik), Q=F(m.Q_ik), Qu=F(m.Q_uk), Qd=F(m.Q_dk))
        s.update(Qo=F(m.Q_o) if v.no else [], Qw=F(m.Q_w) if v.nw else [], Qp=F(m.Q_p) if v.np_ else [], x=F(m.x_Ik))
        return s


def series(rng, t0, T, base, amp):
    """Irregular samples, some of them exactly at multiples of the step."""
    n = int(rng.integers(2, 7))
    ts = np.unique(np.round(np.concatenate([[t0], t0 + rng.uniform(0, T, n)]), int(rng.integers(0, 3))))
    if rng.random() < .2: ts = ts[:1]
    v = base + rng.uniform(*amp, (len(ts), len(base)))
    return dict(t=F(ts), v=[F(np.round(r, 5)) for r in v])


def run(job):
    rng = np.random.default_rng(job['seed'])
    import pandas as pd
    from pipedream_solver.simulation import Simulation
    gen = job['kind'] == 'gen'
    prop = job['prop']
    net = nets.gen(rng, dict(M=(2, 4), maxlinks=3, p_perm=.5, p_struct=.25, p_bc=.35, p_maxd=.05, methods=['b'], level=(.3, 1.5)))
    shift = float(rng.choice([0, 0, 0, -3, -40]))            # heads below datum
    if shift:
        for s in net['sj']: s['z_inv'] = round(s['z_inv'] + shift, 4)
        for j in net['juncs'] or []: j['z_inv'] = round(j['z_inv'] + shift, 5)
    tr = dict(kind=job['kind'], ops=[], err='', net=dict(names=[s['name'] for s in net['sj']], knames=[s['name'] for s in net['sl']]))
    where = 'constructor'
    try:
        m = rec.build(net); v = rec.View(net, m); M, NI = len(net['sj']), len(m.h_Ik)
        if rng.random() < .3: m.spinup(n_steps=3, dt=2.)
        r = Recorder(v)
        base = round(float(rng.uniform(1, 12)), 3)
        t0 = float(rng.choice([0, 0, 30, 3600.5]))
        T = base * 12
        ser = {}
        if gen or rng.random() < .85: ser['Q_in'] = series(rng, t0, T, np.zeros(M), (0, .3))
        if rng.random() < .6: ser['H_bc'] = series(rng, t0, T, np.array([s['z_inv'] for s in net['sj']]), (.3, 1.6))
        if rng.random() < .6: ser['Q_Ik'] = series(rng, t0, T, np.zeros(NI), (0, .004))
        how = str(rng.choice(['linear', 'linear', 'nearest']))
        mind = round(base * float(rng.choice([.1, .3, .6])), 4); maxd = base * 4
        lim = dict(mind=mind, maxd=maxd, minr=float(rng.choice([1e-10, .2])), maxr=float(rng.choice([1e10, 3.])), safety=1.0, tol=float(rng.choice([.01, 1.])))
        if gen: mind = base / 8; lim['mind'] = mind
        frames = {k: pd.DataFrame(d['v'], index=([int(x) for x in d['t']] if all(x == int(x) for x in d['t']) and rng.random() < .5 else d['t'])) for k, d in ser.items()}
        given = {k: f.copy(deep=True) for k, f in frames.items()}
        kw = dict(dt=base, min_dt=lim['mind'], max_dt=lim['maxd'], tol=lim['tol'], min_rel_change=lim['minr'], max_rel_change=lim['maxr'], interpolation_method=how)
        if rng.random() < .3 or not ser: kw['t_start'] = t0
        if rng.random() < .3: kw['t_end'] = t0 + 100 * base
        where = 'Simulation'
        sim = Simulation(m, **frames, **kw)
        tr.update(lim=lim, how=how, t0=kw.get('t_start', min([d['t'][0] for d in ser.values()] or [0.])), Qin=ser.get('Q_in', dict(t=[], v=[])), Hbc=ser.get('H_bc', dict(t=[], v=[])), Qik=ser.get('Q_Ik', dict(t=[], v=[])), first=r.brief())
        saved = []
        ctl = dict()
        for c, n_ in (('u_o', v.no), ('u_w', v.nw), ('u_p', v.np_)):
            if n_: ctl[c] = np.round(rng.uniform(0, 1, n_), 3)
        plan = job['calls'] if gen else [None] * int(rng.integers(4, 9))
        with sim:
            for c in plan:
                # ---- one step() call
                if gen:
                    scale = base / 8
                    req = dict(dt=c['call']['dt'] * scale, sub=c['call']['sub'], retries=c['call']['retries'], tol=1000. * c['call']['tol'], norm=int(rng.choice([0, 1, 2, -1])))
                    if req['norm'] == 0: req['norm'] = 2
                    errs = c['errs']
                else:
                    req = dict(dt=base if rng.random() < .6 else round(base * float(rng.uniform(.3, 2)), 4), sub=int(rng.choice([1, 1, 2, 3, 4])), retries=int(rng.choice([0, 1, 2, 4])),
                               tol=float(np.round(10 ** rng.uniform(-1.5, 1.5), 4)), norm=int(rng.choice([0, 1, 2, -1])))
                    errs = None
                    if rng.random() < .3:
                        try: req['dt'] = float(sim.filter_step_size(tol=req['tol']))
                        except TypeError as e: raise
                step(tr, r, sim, req, errs, rng, ctl, ser, M, NI)
                where = 'step %d' % len(tr['ops'])
                # ---- step size proposals
                if rng.random() < (.5 if prop == 'C13' else .1): propose(tr, sim, rng, req)
                # ---- recording
                if rng.random() < (.7 if prop == 'C15' else .1):
                    sv = {} if rng.random() < .7 else {k: sim.state_variables[k] for k in rng.choice(['H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk', 'x_Ik'], 2, replace=False)}
                    sim.record_state(sv) if sv else sim.record_state()
                    tr['ops'].append(dict(op='record', vars=sorted(sv) if sv else ['all'], s=r.brief()))
                if rng.random() < (.25 if prop == 'C15' else .05): saved.append((copy.deepcopy(m.states), None))
                if saved and rng.random() < .15:
                    st = saved[int(rng.integers(len(saved)))][0]
                    sim.load_state(st)
                    tr['ops'].append(dict(op='load', s=dict(t=float(st['t']), H=F(np.asarray(st['H_j'])[v.inv]), h=F(st['h_Ik']), Q=F(st['Q_ik'])), after=r.brief()))
                if max(map(abs, F(m.H_j) + F(m.Q_ik))) > 1e3 or not np.isfinite(F(m.H_j)).all(): break
        where = 'tables'
        tabs = []
        for var, key, cols in (('H_j', 'H', 'names'), ('h_Ik', 'h', None), ('Q_ik', 'Q', None), ('Q_uk', 'Qu', 'knames'), ('Q_dk', 'Qd', 'knames'), ('Q_o', 'Qo', None), ('Q_w', 'Qw', None), ('Q_p', 'Qp', None), ('x_Ik', 'x', None)):
            if not hasattr(sim.states, var): continue
            df = getattr(sim.states, var)
            ok = True
            if cols:
                names = tr['net'][cols]
                ok = sorted(map(str, df.columns)) == sorted(names)
                if ok: df = df[names]
            tabs.append(dict(var=key, named=ok, t=F(df.index), v=[F(x) for x in df.values]))
        tr['tables'] = tabs
        tr['untouched'] = all(given[k].equals(frames[k]) for k in frames)
    except Exception as e:
        tr['err'] = '%s: %s: %s' % (where, type(e).__name__, str(e)[:200]); tr['tb'] = traceback.format_exc()[-1500:]
    return tr


def step(tr, r, sim, req, errs, rng, ctl, ser, M, NI):
    m = r.m
    r.ev = []
    before = r.brief(); dts, es = [float(x) for x in sim.dts], [-1.0 if e is None else float(e) for e in sim.errs]
    st = dict(att=0, last=None)
    def hook(rr):
        # the large step of an attempt starts at the start of the call
        pos = len(rr.ev) % (1 + (req['sub'] if req['sub'] > 1 else 0))
        if pos == 0 and errs is not None and req['sub'] > 1:
            e = errs[st['att']] if st['att'] < len(errs) else 0.0
            st['att'] += 1
            if math.isnan(e): m.H_j = m.H_j + np.where(np.arange(M) == int(rng.integers(M)), np.nan, 0.)
            elif e * 1000. > req['tol']: m.H_j = m.H_j + rng.choice([-1, 1], M) * 100. * (1 + np.abs(m.H_j)) * req['tol'] / 1000.
    r.hook = hook
    k = dict(dt=req['dt'], subdivisions=req['sub'], retries=req['retries'], tol=req['tol'], norm=req['norm'])
    over = dict(Qin=0, Hbc=0, Qik=0)
    if rng.random() < .1: k['Q_in'] = np.round(rng.uniform(0, .2, M), 4)[r.v.perm]; over['Qin'] = F(k['Q_in'][r.v.inv])
    if rng.random() < .07: k['Q_Ik'] = np.round(rng.uniform(0, .002, NI), 5); over['Qik'] = F(k['Q_Ik'])
    if rng.random() < .15: k['num_iter'] = 3
    sim.step(**k, **ctl)
    r.hook = None
    tr['ops'].append(dict(op='step', req=req, before=before, dts=dts, errs=es, ev=r.ev, after=r.brief(), dt2=float(sim.dt), dts2=[float(x) for x in sim.dts], errs2=[-1.0 if e is None else float(e) for e in sim.errs],
                          oQin=over['Qin'] or [], oQik=over['Qik'] or []))


def propose(tr, sim, rng, req):
    c = COEFFS[int(rng.integers(len(COEFFS)))]
    lim = dict(tr['lim'])
    k = {}
    for a, b, vals in (('mind', 'min_dt', [.5, 2]), ('maxd', 'max_dt', [5, 50]), ('minr', 'min_rel_change', [.05, .5]), ('maxr', 'max_rel_change', [1.5, 4]), ('safety', 'safety_factor', [.7, .9])):
        if rng.random() < .3: k[b] = float(rng.choice(vals)); lim[a] = k[b]
    if lim['mind'] > lim['maxd']: k['min_dt'] = lim['mind'] = lim['maxd'] / 10
    tol = float(np.round(10 ** rng.uniform(-1, 1), 4))
    if rng.random() < .7:
        given = rng.random() < .4
        if given:
            dts, errs = [float(x) for x in np.round(rng.uniform(1, 20, 3), 3)], [float(x) for x in np.round(10 ** rng.uniform(-3, 3, 3), 6)]
            k.update(dts=list(dts), errs=list(errs))
        else: dts, errs = [float(x) for x in sim.dts], [-1.0 if e is None else float(e) for e in sim.errs]
        order = int(rng.choice([1, 2, 3]))
        got = sim.filter_step_size(tol=tol, coeffs=c, k=order, **k)
        tr['ops'].append(dict(op='filter', dts=dts, errs=errs, tol=tol, c=[float(x) for x in c], k=order, lim=lim, got=float(got)))
    else:
        if 'safety_factor' not in k: lim['safety'] = .9
        err = float(np.round(10 ** rng.uniform(-3, 3), 6)); dt = float(np.round(rng.uniform(1, 20), 3))
        got = sim.compute_step_size(dt=dt, err=err, tol=tol, **k)
        tr['ops'].append(dict(op='compute', dt=dt, e=err, tol=tol, lim=lim, got=float(got)))
