"""Random networks as plain data, the tables a user would pass for them, and the static facts the specification needs.

A network is a dict of plain Python values (`net`).  `tables(net)` turns it into the DataFrames a user passes;
`static(net)` derives, from the same plain data and the documentation only, the record the specification reads
(which superlink joins what, which link has which length, shape, roughness...).  Nothing here looks at the model.
"""
import copy, math
import numpy as np

SHAPES = ['circular', 'rect_closed', 'rect_open', 'triangular', 'trapezoidal', 'parabolic', 'elliptical', 'wide',
          'force_main', 'floodplain']
COLS_G = ['g%d' % i for i in range(1, 8)]


def rnd(rng, a, b, nd=4):
    return round(float(rng.uniform(a, b)), nd)


def shape_params(rng, shape):
    g = [0.0] * 7
    if shape == 'circular':
        g[0] = rnd(rng, .6, 2.5, 2); g[1] = float(rng.choice([0.0, 0.002, 0.01, 0.05]))
    elif shape == 'rect_closed':
        g[0] = rnd(rng, .6, 2.5, 2); g[1] = rnd(rng, .5, 3, 2); g[2] = float(rng.choice([0.0, 0.002, 0.05]))
    elif shape in ('rect_open', 'wide'):
        g[0] = rnd(rng, 3, 8, 2); g[1] = rnd(rng, .8, 6, 2)
    elif shape == 'triangular':
        g[0] = rnd(rng, 2, 6, 2); g[1] = rnd(rng, .4, 3, 2)
    elif shape == 'trapezoidal':
        g[0] = rnd(rng, 2, 6, 2); g[1] = rnd(rng, .5, 4, 2); g[2] = rnd(rng, .3, 3, 2)
    elif shape == 'parabolic':
        g[0] = rnd(rng, 3, 6, 2); g[1] = rnd(rng, 1.5, 6, 2)
    elif shape == 'elliptical':
        g[0] = rnd(rng, 2.5, 6, 2); g[1] = rnd(rng, 1, 5, 2)
    elif shape == 'force_main':
        g[0] = rnd(rng, .3, 1.5, 2); g[1] = float(rng.choice([0.0, 0.05, 0.2]))
    elif shape == 'floodplain':
        g = [rnd(rng, 3, 6, 2), rnd(rng, .4, 1, 2), rnd(rng, .3, 1, 2), rnd(rng, 1, 4, 2), rnd(rng, .2, 2, 2),
             rnd(rng, .5, 3, 2), float(rng.choice([0.0, 0.5, 1.2]))]
    return g


def transect(rng):
    n = int(rng.integers(5, 9))
    x = np.cumsum(np.concatenate([[0.0], rng.uniform(.4, 2.0, n - 1)]))
    y = np.concatenate([[1.0], np.sort(rng.uniform(.1, .9, n - 2))[::-1], [1.0]])
    m = (n - 2) // 2
    mid = y[1:-1].copy()
    lo = np.sort(mid)[::-1]
    half = np.concatenate([lo[::2], lo[1::2][::-1]])
    y[1:-1] = half
    y = y - y.min()
    y = y / y.max() * rng.uniform(1.5, 4)
    t = {'x': [round(float(v), 4) for v in x], 'y': [round(float(v), 4) for v in y]}
    if rng.random() < .6:
        t['sample_points'] = int(rng.choice([8, 13, 25, 60]))
    return t


def gen(rng, p=None):
    """A random network.  p: profile, a dict of overrides (see `o`)."""
    o = dict(M=(2, 5), extra=.4, shapes=SHAPES, p_trans=.12, p_expl=.45, p_struct=.3, p_bc=.3, p_tab=.3, p_perm=.3,
             methods=['b', 'b', 'f', 'lsq'], bcm=['z', 'z', 'b'], ends=['b', 'b', 'o'], p_damp=.3, p_dxe=.35,
             p_hw=.3, p_ctrl=.25, p_maxd=.15, p_maxk=.1, p_As=.4, p_off=.5, p_C=.4, level=(.3, 1.6), maxlinks=5, p_iso=0.0,
             p_rev=.3, p_deep=.25, structs='owp', p_C0=.15, p_adverse=.3, p_mobile=0.0, n_sl=None)
    o.update(p or {})
    R = lambda pr: bool(rng.random() < pr)
    M = int(rng.integers(o['M'][0], o['M'][1] + 1))
    z = [rnd(rng, 0, 3, 3) for _ in range(M)]
    water = rnd(rng, *o['level'])          # water level above the highest bottom, so most things start wet
    deep = R(o['p_deep'])
    sj = []
    for j in range(M):
        tab = R(o['p_tab'])
        sj.append(dict(name='S%d' % (j * 7 % 10 + 10 * (j + 1)), z_inv=z[j], h_0=rnd(rng, *o['level']) + (1.5 if deep else 0.0), bc=R(o['p_bc']),
                       storage='tabular' if tab else 'functional', table=None,
                       a=rnd(rng, 0, 6) if R(.7) else 0.0, b=float(rng.choice([0.0, 0.5, 1.0, 1.7])), c=rnd(rng, 1, 30),
                       max_depth=rnd(rng, 1.5, 4) if R(o['p_maxd']) else math.inf, map_x=rnd(rng, 0, 9), map_y=rnd(rng, 0, 9)))
    if all(s['bc'] for s in sj):
        sj[int(rng.integers(M))]['bc'] = False
    storages = {}
    ntab = int(rng.integers(1, 3))
    for j in range(M):
        if sj[j]['storage'] == 'tabular':
            t = 'T%d' % rng.integers(ntab)
            sj[j]['table'] = t
            if t not in storages:
                n = int(rng.integers(3, 6))
                h = np.concatenate([[0.0], np.cumsum(rng.uniform(.2, 1.2, n - 1))])
                A = rng.uniform(2, 40, n)
                storages[t] = {'h': [round(float(v), 4) for v in h], 'A': [round(float(v), 4) for v in A]}
    if R(.5):
        storages = dict(reversed(list(storages.items())))
    # superlinks: spanning tree plus extras
    pairs = [(int(rng.integers(j)), j) for j in range(1, M)]
    while R(o['extra']) and M > 2 and len(pairs) < M + 2:
        a, b = [int(v) for v in rng.choice(M, 2, replace=False)]
        pairs.append((a, b))
    if o['n_sl'] is not None: pairs = pairs[:o['n_sl']]
    if R(o['p_iso']):      # one superjunction connected only through structures or not at all
        pairs = [q for q in pairs if M - 1 not in q] or pairs
    rng.shuffle(pairs)
    pairs = [tuple(int(v) for v in q) for q in pairs]
    explicit = R(o['p_expl'])
    mobile = (not explicit) and R(o['p_mobile'])
    nint = int(rng.integers(2 if mobile else 1, o['maxlinks'] + 1))
    multi = o['shapes'] if isinstance(o['shapes'], list) else SHAPES
    transects = {}
    def pick_shape():
        if R(o['p_trans']):
            t = 'X%d' % rng.integers(2)
            if t not in transects: transects[t] = transect(rng)
            return 'irregular', [0.0] * 7, t
        s = str(rng.choice(multi)); return s, shape_params(rng, s), ''
    dxe = R(o['p_dxe']); hw = R(o['p_hw']); adv = R(o['p_adverse'])
    sl, links, juncs = [], [], []
    def friction():
        f = str(rng.choice(['cm', 'cm', 'hw', 'dw'])) if hw else 'cm'
        return f, {'cm': rnd(rng, .01, .05), 'hw': rnd(rng, 80, 140, 1), 'dw': rnd(rng, .0005, .01, 5)}[f]
    def ctrl(g, shape):
        c = R(o['p_ctrl'])
        return c, (rnd(rng, .2, 1.5) if c or R(.5) else 0.0), (rnd(rng, .3, .9) if c or R(.5) else 0.0)
    for k, (a, b) in enumerate(pairs):
        if R(.5): a, b = b, a
        oa = rnd(rng, 0, .6, 3) if R(o['p_off']) else 0.0
        ob = rnd(rng, 0, .6, 3) if R(o['p_off']) else 0.0
        # listed from the higher to the lower end unless reversed listing is asked for
        if (sj[a]['z_inv'] + oa < sj[b]['z_inv'] + ob) != (R(o['p_rev']) and not explicit): a, b, oa, ob = b, a, ob, oa
        s, g, t = pick_shape(); f, n = friction(); c, Ac, C = ctrl(g, s)
        L = rnd(rng, 20, 300, 2)
        sl.append(dict(name='K%d' % (5 * k + 3), sj_0=a, sj_1=b, in_offset=oa, out_offset=ob, dx=L, n=n, shape=s, g=g, transect=t,
                       friction_method=f, Q_0=rnd(rng, -.2, .4) if R(.4) else 0.0, h_0=rnd(rng, *o['level']) + (1.0 if deep else 0.0), ctrl=c, A_s=rnd(rng, .1, 5) if R(o['p_As']) else 0.0,
                       A_c=Ac, C=C, C_uk=None, C_dk=None, dx_uk=None, dx_dk=None, max_depth=None))
        if dxe:
            sl[-1]['dx_uk'] = rnd(rng, 1, 20, 2) if R(.8) else 0.0; sl[-1]['dx_dk'] = rnd(rng, 1, 20, 2) if R(.8) else 0.0
    if R(o['p_C']):
        for s in sl:
            s['C_uk'] = 0.0 if R(o['p_C0']) else rnd(rng, 0, 3)
            s['C_dk'] = 0.0 if R(o['p_C0']) else rnd(rng, 0, 3)
    if R(o['p_maxk']):
        for s in sl: s['max_depth'] = rnd(rng, 1, 4) if R(.7) else math.inf
    if explicit:
        for k, s in enumerate(sl):
            m = int(rng.integers(1, o['maxlinks'] + 1))
            a, b = orient(sj, s)
            du, dd = orient_dx(sj, s)
            zu = sj[a[0]]['z_inv'] + a[1]; zd = sj[b[0]]['z_inv'] + b[1]
            w = rng.uniform(.5, 1.5, m); w = w / w.sum() * s['dx']
            w = [round(float(v), 3) for v in w]; s['dx'] = round(sum(w), 3)
            tot = s['dx'] + du + dd
            pos = [du + sum(w[:i]) for i in range(m + 1)]
            zz = [zu + (zd - zu) * q / tot for q in pos]
            if adv:
                zz = [v + (rng.uniform(-.15, .15) if 0 < i < m else 0) for i, v in enumerate(zz)]
            same = R(.4)
            for i in range(m + 1):
                juncs.append(dict(k=k, h_0=rnd(rng, *o['level']) + (1.0 if deep else 0.0), z_inv=round(float(zz[i]), 5), A_s=rnd(rng, .1, 5) if R(o['p_As']) else 0.0))
            for i in range(m):
                if same: sh, g, t, f, n = s['shape'], s['g'], s['transect'], s['friction_method'], s['n']
                else: (sh, g, t), (f, n) = pick_shape(), friction()
                c, Ac, C = ctrl(g, sh)
                links.append(dict(k=k, shape=sh, g=g, transect=t, friction_method=f, n=n, dx=w[i], Q_0=rnd(rng, -.2, .4) if R(.4) else 0.0, ctrl=c, A_c=Ac, C=C))
    net = dict(sj=sj, sl=sl, links=links if explicit else None, juncs=juncs if explicit else None, transects=transects, storages=storages,
               o=[], w=[], p=[], internal_links=nint,
               opts=dict(method=str(rng.choice(o['methods'])), bc_method=str(rng.choice(o['bcm'])), end_method=str(rng.choice(o['ends'])),
                         inertial_damping=R(o['p_damp']), auto_permute=R(o['p_perm']), min_depth=float(rng.choice([1e-5, 1e-5, 1e-4])),
                         mobile_elements=mobile))
    if R(o['p_struct']):
        add_structures(rng, net, o)
    return net


def add_structures(rng, net, o):
    R = lambda pr: bool(rng.random() < pr)
    M = len(net['sj']); sj = net['sj']
    if M < 2: return
    def pair():
        a, b = [int(v) for v in rng.choice(M, 2, replace=False)]
        return a, b
    if 'o' in o['structs']:
        shaped = R(.6)
        for i in range(int(rng.integers(0, 3)) + (1 if o['structs'] == 'o' else 0)):
            a, b = pair()
            s = str(rng.choice(['circular', 'rect_closed', 'rect_open'])) if shaped else None
            g = shape_params(rng, s) if s else [0.0] * 7
            if s: g[0] = rnd(rng, .1, 1.2, 2); g[1] = rnd(rng, .1, 1.0, 2) if s != 'circular' else g[1]
            net['o'].append(dict(sj_0=a, sj_1=b, A=rnd(rng, .05, .6), C=rnd(rng, .3, .9), z_o=rnd(rng, 0, 1.2, 3) if R(.6) else 0.0, y_max=(g[0] if s else rnd(rng, .1, 1, 2)),
                                 orientation=str(rng.choice(['side', 'bottom'])), shape=s, g1=g[0], g2=g[1], g3=g[2], oneway=R(.3)))
    if 'w' in o['structs']:
        for i in range(int(rng.integers(0, 3)) + (1 if o['structs'] == 'w' else 0)):
            a, b = pair()
            net['w'].append(dict(sj_0=a, sj_1=b, z_w=rnd(rng, 0, 1.2, 3), y_max=rnd(rng, .2, 1.5), Cr=rnd(rng, .5, 2.2), Ct=rnd(rng, .2, 1.6), L=rnd(rng, .2, 3), s=rnd(rng, 0, 2) if R(.7) else 0.0))
    if 'p' in o['structs']:
        for i in range(int(rng.integers(0, 3)) + (1 if o['structs'] == 'p' else 0)):
            a, b = pair()
            hi = rnd(rng, 1, 5)
            net['p'].append(dict(sj_0=a, sj_1=b, z_p=rnd(rng, 0, .8, 3), a_p=hi + rnd(rng, 0, 2), b_p=rnd(rng, 1, 60), c_p=float(rng.choice([1.0, 1.5, 2.0])), dH_max=hi, dH_min=rnd(rng, 0, .4)))


def orient(sj, s):
    """(superjunction, offset) of the upstream (higher) and of the downstream end of a superlink."""
    a, b = (s['sj_0'], s['in_offset']), (s['sj_1'], s['out_offset'])
    if sj[a[0]]['z_inv'] + a[1] < sj[b[0]]['z_inv'] + b[1]: a, b = b, a
    return a, b


def flipped(sj, s):
    return sj[s['sj_0']]['z_inv'] + s['in_offset'] < sj[s['sj_1']]['z_inv'] + s['out_offset']


def orient_dx(sj, s):
    du, dd = s['dx_uk'] or 0.0, s['dx_dk'] or 0.0
    return (dd, du) if flipped(sj, s) else (du, dd)


def tables(net):
    """The keyword arguments of SuperLink(...)."""
    import pandas as pd
    sj = pd.DataFrame([{k: v for k, v in s.items()} for s in net['sj']])
    sj.insert(0, 'id', np.arange(len(sj)))
    if all(v is None for v in sj['table']): sj['table'] = None
    if not np.isfinite(sj['max_depth']).any(): sj = sj.drop(columns='max_depth')
    rows = []
    for k, s in enumerate(net['sl']):
        r = {q: v for q, v in s.items() if q != 'g' and v is not None}
        r.update({c: v for c, v in zip(COLS_G, s['g'])}); r['id'] = k
        rows.append(r)
    sl = pd.DataFrame(rows)
    kw = dict(net['opts'])
    if net['links'] is not None:
        I, i = 0, 0; j0, j1 = [], []
        L = []
        for k in range(len(net['sl'])):
            m = sum(1 for l in net['links'] if l['k'] == k)
            j0.append(I); j1.append(I + m)
            for q in range(m):
                l = [l for l in net['links'] if l['k'] == k][q]
                r = {c: v for c, v in l.items() if c != 'g'}; r.update({c: v for c, v in zip(COLS_G, l['g'])})
                r['j_0'], r['j_1'] = I + q, I + q + 1
                L.append(r)
            I += m + 1
        sl['j_0'] = j0; sl['j_1'] = j1
        links = pd.DataFrame(L); links['id'] = np.arange(len(links)); links['name'] = ['L%d' % i for i in range(len(links))]
        jn = pd.DataFrame(net['juncs']); jn['id'] = np.arange(len(jn)); jn['name'] = ['J%d' % i for i in range(len(jn))]
        kw.update(links=links, junctions=jn)
        kw.pop('mobile_elements')
    else:
        kw['internal_links'] = net['internal_links']
    if net['transects']:
        kw['transects'] = {t: dict({a: (np.array(v) if isinstance(v, list) else v) for a, v in d.items()}) for t, d in net['transects'].items()}
    if net['storages']:
        kw['storages'] = {t: {a: np.array(v) for a, v in d.items()} for t, d in net['storages'].items()}
    for key, name in (('o', 'orifices'), ('w', 'weirs'), ('p', 'pumps')):
        if net[key]:
            df = pd.DataFrame(net[key]); df.insert(0, 'id', np.arange(len(df)))
            df['name'] = [key.upper() + str(3 * i + 2) for i in range(len(df))]
            if key == 'o' and all(v is None for v in df['shape']): df = df.drop(columns=['shape', 'g1', 'g2', 'g3'])
            kw[name] = df
    kw['superjunctions'] = sj; kw['superlinks'] = sl
    if net.get('style'): restyle(net, kw)
    return kw


def style(rng, net):
    """Another way to write the same tables: optional columns left out, extra ones, other column order and spelling."""
    st = {q: bool(rng.random() < .5) for q in ('optional', 'upper', 'roughness', 'lean', 'shuffle', 'extra', 'names', 'links_opt')}
    st['seed'] = int(rng.integers(2 ** 31))
    net['style'] = st


def restyle(net, kw):
    st = net['style']; rng = np.random.default_rng(st['seed'])
    sj, sl = kw['superjunctions'], kw['superlinks']
    same = lambda t, c, v: c in t and all(x == v for x in t[c])
    if st['optional']:
        for t, c, v in ((sl, 'friction_method', 'cm'), (sj, 'map_x', None), (sj, 'map_y', None), (sl, 'max_depth', math.inf), (sj, 'max_depth', math.inf)):
            if c in t and (v is None or same(t, c, v)): del t[c]
        if not net['transects'] and 'transect' in sl: del sl['transect']
        for c in COLS_G[4:]:
            for t in (sl, kw.get('links')):
                if t is not None and same(t, c, 0.0): del t[c]
        if not net['storages'] and 'table' in sj: del sj['table']
        if 'orifices' in kw and same(kw['orifices'], 'oneway', False): del kw['orifices']['oneway']
    if st['links_opt'] and 'links' in kw:
        t = kw['links']
        if same(t, 'friction_method', 'cm'): del t['friction_method']
        if not net['transects']: del t['transect']
        for c in ('name',): del t[c]
        del kw['junctions']['name']
    if st['upper']:
        for q in ('superlinks', 'links', 'orifices'):
            if q in kw and 'shape' in kw[q]: kw[q]['shape'] = [x.upper() if isinstance(x, str) and rng.random() < .5 else x for x in kw[q]['shape']]
    if st['roughness']:
        for q in ('superlinks', 'links'):
            if q in kw: kw[q] = kw[q].rename(columns={'n': 'roughness'})
    if st['lean'] and 'links' in kw:
        # the internals are listed: the superlink table need not describe them
        kw['superlinks'] = kw['superlinks'].drop(columns=[c for c in ['dx', 'n', 'roughness', 'shape', 'Q_0', 'h_0', 'ctrl', 'A_s', 'A_c', 'C', 'transect', 'friction_method'] + COLS_G if c in kw['superlinks']])
    if st['names']:
        for q in ('superjunctions', 'superlinks'): del kw[q]['name']
    if st['extra']:
        for q in kw:
            if hasattr(kw[q], 'columns'): kw[q]['remark'] = 'x'
    if st['shuffle']:
        for q in kw:
            if hasattr(kw[q], 'columns'): kw[q] = kw[q][list(rng.permutation(kw[q].columns))]


def plain(net):
    """The tables as the specification reads them: values that are not given are empty."""
    ints = {'k', 'sj_0', 'sj_1', 'internal_links', 'm'}
    def f(x, key=''):
        if x is None: return []
        if isinstance(x, bool) or isinstance(x, str): return x
        if isinstance(x, dict): return {a: f(b, a) for a, b in x.items()}
        if isinstance(x, (list, tuple)): return [f(y) for y in x]
        return int(x) if key in ints else float(x)
    r = f({k: v for k, v in net.items() if k not in ('transects', 'storages', 'style', 'names')})
    for q in r['sl']:
        if r['links']: q['dx'] = q.get('dx', 0.0)
    for q in r['o']: q['shape'] = q['shape'] or ''
    r['transects'] = [dict(name=t, x=f(d['x']), y=f(d['y']), m=int(d.get('sample_points', 100))) for t, d in net['transects'].items()]
    r['storages'] = [dict(name=t, h=f(d['h']), A=f(d['A'])) for t, d in net['storages'].items()]
    return r


def slot(shape, g):
    """Default width of the slot above a closed section."""
    g = list(g)
    if shape == 'circular' and g[1] == 0: g[1] = .001
    if shape == 'rect_closed' and g[2] == 0: g[2] = .001
    if shape == 'force_main' and g[1] == 0: g[1] = .001
    return g


def static(net):
    """The static record of the specification (1-based indices)."""
    sj, out = net['sj'], {}
    trn = list(net['transects'])
    tbn = list(net['storages'])
    sls, lks, jns = [], [], []
    for k, s in enumerate(net['sl']):
        (ju, ou), (jd, od) = orient(sj, s)
        zu, zd = sj[ju]['z_inv'] + ou, sj[jd]['z_inv'] + od
        fl = flipped(sj, s)
        cu, cd = (s['C_uk'], s['C_dk'])
        du, dd = s['dx_uk'] or 0.0, s['dx_dk'] or 0.0
        if fl: cu, cd, du, dd = cd, cu, dd, du
        dC = 1 / .67 ** 2
        cu = dC if cu is None else cu; cd = dC if cd is None else cd
        I1, i1 = len(jns) + 1, len(lks) + 1
        if net['links'] is not None:
            L = [l for l in net['links'] if l['k'] == k]
            J = [j for j in net['juncs'] if j['k'] == k]
        else:
            m = net['internal_links']
            L = [dict(k=k, shape=s['shape'], g=s['g'], transect=s['transect'], friction_method=s['friction_method'], n=s['n'], dx=s['dx'] / m, Q_0=s['Q_0'], ctrl=s['ctrl'], A_c=s['A_c'], C=s['C']) for _ in range(m)]
            tot = s['dx'] + du + dd
            sp = [s['dx'] * i / m for i in range(m + 1)]
            if net['opts'].get('mobile_elements'):
                sp = sorted([s['dx'] * i / (m - 1) for i in range(m)] + [s['dx'] / 2 + (0 if m % 2 == 0 else s['dx'] / m / 2)])
                for i, l in enumerate(L): l['dx'] = sp[i + 1] - sp[i]
            J = [dict(k=k, h_0=s['h_0'], z_inv=zu + (zd - zu) * (du + x) / tot, A_s=s['A_s']) for x in sp]
        n = len(L)
        for i, l in enumerate(L):
            lks.append(dict(k=k + 1, I=I1 + i, dx=float(l['dx']), n=float(l['n']), fm=l['friction_method'], sh=l['shape'], g=[float(v) for v in slot(l['shape'], l['g'])],
                            tr=(trn.index(l['transect']) + 1) if l['shape'] == 'irregular' else 0, ctrl=bool(l['ctrl']), Ac=float(l['A_c']), C=float(l['C']),
                            So=(J[i]['z_inv'] - J[i + 1]['z_inv']) / l['dx'], Q0=float(l['Q_0']), first=(i == 0), last=(i == n - 1)))
        for i, q in enumerate(J):
            jns.append(dict(k=k + 1, As=float(q['A_s']), z=float(q['z_inv']), h0=float(q['h_0']), pos=i, n=n))
        su = (zu - J[0]['z_inv']) / du if du > 0 else 0.0
        sd = (J[-1]['z_inv'] - zd) / dd if dd > 0 else 0.0
        md = s['max_depth']
        sls.append(dict(ju=ju + 1, jd=jd + 1, zu=float(zu), zd=float(zd), Cu=float(cu), Cd=float(cd), dxu=float(du), dxd=float(dd), I1=I1, IN=I1 + n, i1=i1, in_=i1 + n - 1, n=n,
                        maxd=math.inf if md is None else float(md), Sou=float(su), Sod=float(sd), dx=float(s['dx'])))
    sjs = [dict(z=float(s['z_inv']), h0=float(s['h_0']), maxd=float(s['max_depth']), bc=bool(s['bc']), kind=s['storage'], a=float(s['a']), b=float(s['b']), c=float(s['c']),
                tab=(tbn.index(s['table']) + 1) if s['table'] else 0) for s in sj]
    tabs = [dict(h=[float(v) for v in net['storages'][t]['h']], A=[float(v) for v in net['storages'][t]['A']]) for t in tbn]
    trs = [dict(x=[float(v) for v in net['transects'][t]['x']], y=[float(v) for v in net['transects'][t]['y']], m=int(net['transects'][t].get('sample_points', 100))) for t in trn]
    os_ = []
    for o in net['o']:
        sh, g = o['shape'], [o['g1'], o['g2'], o['g3'], 0., 0., 0., 0.]
        if sh is None: sh, g = 'rect_open', [math.sqrt(o['A']), math.sqrt(o['A']), 0., 0., 0., 0., 0.]
        os_.append(dict(ju=o['sj_0'] + 1, jd=o['sj_1'] + 1, C=float(o['C']), z=float(o['z_o']), ymax=float(o['y_max']), side=o['orientation'] == 'side', sh=sh, g=[float(v) for v in g], oneway=bool(o['oneway'])))
    ws = [dict(ju=w['sj_0'] + 1, jd=w['sj_1'] + 1, Cr=float(w['Cr']), Ct=float(w['Ct']), L=float(w['L']), s=float(w['s']), z=float(w['z_w']), ymax=float(w['y_max'])) for w in net['w']]
    ps = [dict(ju=p['sj_0'] + 1, jd=p['sj_1'] + 1, z=float(p['z_p']), a=float(p['a_p']), b=float(p['b_p']), c=float(p['c_p']), hi=float(p['dH_max']), lo=float(p['dH_min'])) for p in net['p']]
    op = net['opts']
    return dict(sl=sls, lk=lks, jn=jns, sj=sjs, tabs=tabs, trs=trs, o=os_, w=ws, p=ps, mind=float(op['min_depth']), bcm=op['bc_method'], em=op['end_method'], meth=op['method'], damp=bool(op['inertial_damping']))
