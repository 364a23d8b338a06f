"""Random and specification-generated simulations, run on the real simulator and recorded as Sim traces."""
from __future__ import annotations
import copy, inspect, itertools, math
from gb import *
from common import rng_for, BIG, TIER

UNITS = {'days': 86400e6, 'hours': 3600e6, 'seconds': 1e6, 'milliseconds': 1e3, 'microseconds': 1.0}
ALIAS = {'days': ['days', 'd'], 'hours': ['hours', 'h'], 'seconds': ['seconds', 's'],
         'milliseconds': ['milliseconds', 'ms'], 'microseconds': ['microseconds', 'us']}
CN = ['ca', 'cb', 'cc']
NAMES = ['v', 'vt', 'vth', 'v_th', 'v_var', 'i', 'id_sat', 'i_mdl', 'ca_p', 'x_instm', 'p', 'pp']
ODD = {'inf': 2100000000, '-inf': 2100000010, 'nan': 2100000020}      # as in the specification
UT = {'int': int, 'float': float, 'np': np.float64, 'npi': np.int64}

PROFILE = dict(nprm=(1, 3), nmech=(1, 3), circ=0.35, laws=dict(lin=5, thr=3, sat=2, knee=2, fail=2, none=0.5),
               ew=0.2, units=0.5, steps=(3, 8), auto=0.5, elapsed=0.4, sens=0.4, subset=0.5, shift=0.5, layers=0.4,
               pmeas=0.5, idle=0.25, comps=dict(sum=5, sub=2, lat=2, mul=1, mix=1, mixm=.7, const=0.2), mechunit=0.5, lots=(1, 3), chps=(1, 3),
               devs=(1, 4), extra=0.3, scale=(1.3, 13), span=60, vary=0, tall=.05, far=.05, odd=.03)
PROFILES = {
    'C01': dict(steps=(1, 12), nprm=(1, 2), nmech=(1, 1), elapsed=0.7, sens=0.3, lots=(1, 2), chps=(1, 2), devs=(1, 2), pmeas=0.5),
    'C02': dict(odd=.3, vary=.15, steps=(2, 6), nprm=(1, 4), nmech=(1, 1), lots=(1, 4), chps=(1, 4), devs=(1, 5), subset=0.8, sens=0.6, pmeas=0.6, circ=0.4),
    'C03': dict(far=.15, vary=.3, steps=(3, 10), laws=dict(lin=6, sat=2, knee=4, thr=2), units=0.2, circ=0.1, ew=0.1, pmeas=0.4, idle=0.1, span=100, lots=(1, 2), chps=(1, 2)),
    'C04': dict(far=.15, vary=.25, steps=(4, 9), laws=dict(lin=1, thr=5, sat=4, knee=1), idle=0.5, circ=0.1, units=0.4, pmeas=0.5, shift=0.2),
    'C05': dict(odd=.3, vary=.25, steps=(4, 9), laws=dict(fail=6, lin=1), nmech=(1, 2), circ=0.1, units=0.3, shift=0.2, pmeas=0.5),
    'C06': dict(steps=(5, 12), pmeas=0.7, circ=0.5, shift=0.7, subset=0.6, sens=0.5),
    'C08': dict(vary=.15, units=1.0, laws=dict(lin=5, thr=2, knee=2, fail=2, sat=1), scale=(1.3, 13.5), steps=(2, 6), nmech=(1, 3), lots=(1, 2), chps=(1, 2), devs=(1, 2), circ=0.1),
    'C09': dict(steps=(1, 3), circ=0.7, auto=0.7, nprm=(1, 3), nmech=(1, 2), devs=(1, 5), elapsed=0.5),
    'C16': dict(tall=.2, vary=.25, nprm=(2, 4), nmech=(1, 4), circ=0.2, shift=0.8, steps=(3, 7), comps=dict(sum=3, sub=3, lat=3, mul=2, mix=3, mixm=3), lots=(1, 2), chps=(1, 2)),
    'C17': dict(odd=.3, ew=1.0, circ=0.6, comps=dict(sum=2, sub=2, lat=3, mul=2, mix=2, mixm=1, const=2), shift=0.7, steps=(2, 5), lots=(1, 3), chps=(1, 3), devs=(1, 3)),
    'C18': dict(vary=.3, circ=1.0, nprm=(1, 4), nmech=(1, 2), devs=(1, 5), lots=(1, 3), chps=(1, 3), extra=0.6, subset=0.7, steps=(3, 7)),
    'C12': dict(vary=1.0, steps=(2, 6), nmech=(1, 3), lots=(1, 2), chps=(1, 3), devs=(1, 3), sens=.6, circ=.4, shift=.7),
    'C10': dict(layers=1.0, steps=(2, 5), nmech=(1, 2), circ=0.4, shift=0.6, lots=(1, 3), chps=(1, 3), devs=(1, 4)),
}


def wpick(rng, w):
    return rng.choices(list(w), list(w.values()))[0]


def flatten_layers(lay, L, C, n, op):
    out = []
    for l in range(L):
        for c in range(C):
            for d in range(n):
                v = [lay['base'], lay['lot'][l % len(lay['lot'])] if lay['lot'] else None,
                     lay['chp'][(l * C + c) % len(lay['chp'])] if lay['chp'] else None,
                     lay['dev'][((l * C + c) * n + d) % len(lay['dev'])] if lay['dev'] else None]
                v = [x for x in v if x is not None]
                r = 1 if op == 'scaling' else 0
                for x in v:
                    r = r * x if op == 'scaling' else r + x
                out.append(r)
    return out


def latent(lay, op, scale=1.0):
    """The LatentVar described by a layer description (values are integers times scale for offsets)."""
    s = (lambda xs: Script([x * scale for x in xs]) if xs else None) if op == 'offset' else \
        (lambda xs: Script(xs) if xs else None)
    base = lay['base'] if lay['base'] is None or op == 'scaling' else lay['base'] * scale
    return LatentVar(dev_vrtn_mdl=s(lay['dev']), chp_vrtn_mdl=s(lay['chp']), lot_vrtn_mdl=s(lay['lot']),
                     deter_val=base, vrtn_type=op)


def mk_layers(rng, full, kind, hi):
    """kind 'scaling' gives small factors, 'offset' gives offsets up to hi; full: use all layers."""
    if kind == 'scaling':
        dev = [rng.randint(1, 5) for _ in range(37)]
        if full:
            return dict(base=rng.choice([None, 1, 2]), dev=dev if rng.random() < .8 else [rng.randint(1, 3)],
                        chp=[rng.randint(1, 2) for _ in range(23)] if rng.random() < .7 else None,
                        lot=[rng.randint(1, 2) for _ in range(7)] if rng.random() < .7 else None)
        return dict(base=rng.choice([None, 1, 2]), dev=dev, chp=None, lot=None)
    dev = [rng.randint(-hi, hi) for _ in range(37)]
    if full:
        return dict(base=rng.choice([None, rng.randint(0, hi)]), dev=dev,
                    chp=[rng.randint(0, hi) for _ in range(23)] if rng.random() < .7 else None,
                    lot=[rng.randint(0, hi) for _ in range(7)] if rng.random() < .7 else None)
    return dict(base=rng.choice([None, rng.randint(0, hi)]), dev=dev, chp=None, lot=None)


def mk_vary(rng):
    """An environmental variation: integers per batch, chip and device, added or multiplied."""
    t = rng.choice(['offset', 'offset', 'scaling'])
    lay = rng.choice([['dev'], ['chp'], ['lot'], ['dev', 'chp'], ['chp', 'lot'], ['dev', 'lot'], ['dev', 'chp', 'lot']])
    hi = 3 if t == 'offset' else 2
    return dict(type=t, **{l: [rng.randint(0 if t == 'offset' else 1, hi) for _ in range(k)] if l in lay else None
                           for l, k in (('dev', 41), ('chp', 19), ('lot', 5))})


def varied(vary, k, c):
    """All values that condition k with target c may take."""
    k = CN[k]
    if k not in vary or c < 0:
        return [c]
    out = {c}
    for l in ('dev', 'chp', 'lot'):
        if vary[k][l]:
            out = {(a + b if vary[k]['type'] == 'offset' else a * b) for a in out for b in set(vary[k][l])}
    return sorted(out)


def rates(co, thr, cs):
    return max(sum(a * (c if c >= 0 else 0) for a, c in zip(co, cs)) - thr, 0)


def split_us(us):
    d, r = divmod(us, 86400000000)
    s, u = divmod(r, 1000000)
    return [d, s, u]


def ticks_of(us, unit, pw):
    return (1000 * us) // int(UNITS[unit] * 10 ** pw) if pw >= 0 else (1000 * us * 10 ** -pw) // int(UNITS[unit])


def gen_desc(rng, prof, plan=None, huge=None):
    """A complete, concrete test: device model, plan, state; everything as plain data."""
    P = {**PROFILE, **prof}
    if huge:
        P.update({'lots': (1, 1), 'chps': (1, 1), 'devs': (1, 1), 'nprm': (1, 1), 'nmech': (1, 1), 'steps': (2, 4), 'circ': P['circ'] / 2, 'vary': 0, 'ew': P['ew'] if P['ew'] == 1 else 0, 'elapsed': .5, 'subset': 0 if huge in ('devs',) else P['subset']})
        P[huge] = {'lots': (130, 140), 'chps': (258, 270), 'devs': (258, 300), 'steps': (110, 270)}[huge]
    elif plan is None and rng.random() < P['tall']:      # something that comes in large numbers
        k = rng.choice(['lots', 'chps', 'devs', 'steps', 'nmech', 'nprm'])
        P.update({'lots': (1, 1), 'chps': (1, 2), 'devs': (1, 2), 'nprm': (1, 2), 'nmech': (1, 1)})
        P[k] = {'lots': (6, 13), 'chps': (6, 13), 'devs': (10, 40), 'steps': (20, 45), 'nmech': (5, 8), 'nprm': (5, 8)}[k]
    L, C = rng.randint(*P['lots']), rng.randint(*P['chps'])
    vary = {}
    if P['vary'] and rng.random() < P['vary']:
        P['ew'] = 0     # the conditions that devices see are read off the equations' array arguments
        for k in rng.choice([[0], [0, 1], [1]]):
            vary[CN[k]] = mk_vary(rng)
    # durations: a scale in log10(microseconds) and a span
    scale = 10 ** rng.uniform(*P['scale'])
    if rng.random() < P['far']:     # centuries, at conditions that take far longer still to get there
        scale = 10 ** rng.uniform(13, 14.3)

    def dur():
        us = int(scale * 10 ** rng.uniform(0, math.log10(P['span'])))
        # prefer round durations that are exact in some unit
        for u in ('days', 'hours', 'seconds', 'milliseconds'):
            if us > 3 * UNITS[u] and rng.random() < 0.7:
                return int(round(us / UNITS[u]) * UNITS[u])
        return us

    def conds(idle):
        return [0, 0, rng.choice([-1, 0, 7])] if idle else [rng.randint(1, 9), rng.randint(0, 5), rng.choice([-1, 0, 3, 7])]
    nst = rng.randint(*P['steps'])
    strs = [dict(op='stress', conds=conds(False), us=dur(), name=f'strs{k}') for k in range(rng.randint(1, 3))]
    idle = [dict(op='stress', conds=conds(True), us=dur(), name='rest')]
    if plan is None:
        kinds = [('m' if rng.random() < P['pmeas'] else 'z' if rng.random() < P['idle'] else 's') for _ in range(nst)]
        if huge or rng.random() < .9:
            kinds[-1] = 'm'
    else:
        kinds = plan
    # parameters
    nprm = rng.randint(*P['nprm'])
    prms = []
    for k in range(nprm):
        comp = wpick(rng, P['comps'])
        if P['nmech'][0] > 3 and rng.random() < .5:
            comp = 'sum'
        nm = 1 if comp == 'mul' else max(rng.randint(*P['nmech']), 2 if comp in ('mix', 'mixm') else 1)
        prms.append(dict(kind='deg', name=f'p{k + 1}', comp=comp, nm=nm, ew=rng.random() < P['ew'],
                         shift=rng.random() < P['shift'], explicit=rng.random() < .5, init_ew=rng.random() < P['ew']))
    if rng.random() < P['circ']:
        for k in range(rng.randint(1, 2)):
            args = sorted(rng.sample(range(1, nprm + 1), rng.randint(1, min(nprm, rng.choice([2, 4])))))
            prms.append(dict(kind='circ', name=f'q{k + 1}', args=args, ks=[rng.choice([1, 2, -1]) for _ in args],
                             ew=rng.random() < P['ew'], lat=mk_layers(rng, rng.random() < P['layers'], 'offset', 50),
                             sco=[rng.choice([0, 0, 3]), rng.choice([0, 5]), 0]))
            if rng.random() < .25:
                prms[-1].update(nolat=True, lat=dict(base=0, dev=None, chp=None, lot=None))
    rng.shuffle(prms)
    order = {p['name']: k + 1 for k, p in enumerate(prms)}
    for p in prms:   # a parameter that ignores its initial value has no meaningful value before the first stress
        if p['kind'] == 'circ':
            for a in p['args']:
                q = next(x for x in prms if x['name'] == f'p{a}')
                if q['comp'] == 'const':
                    q['comp'] = 'sum'
    degs = [p['name'] for p in sorted((p for p in prms if p['kind'] == 'deg'), key=lambda p: p['name'])]
    for p in prms:
        if p['kind'] == 'circ':
            p['args'] = [order[degs[a - 1]] for a in p['args']]
    nP = len(prms)
    # measurements
    top = [rng.randint(*P['devs']) for _ in prms]
    nmeas = rng.randint(1, 3)
    meas = []
    for k in range(nmeas):
        pick = [x for x in range(nP) if rng.random() < .7]
        cnt = [0] * nP
        for x in pick:
            cnt[x] = rng.randint(1, top[x]) if rng.random() < P['subset'] else top[x]
        if huge:
            cnt = list(top)
        mc = [rng.randint(0, 9), rng.randint(0, 5), rng.choice([-1, 4])]
        sens = [rng.choice([1, 2, 3, 3, 7]) if (rng.random() < P['sens'] * .6 and mc[j] >= 0) else 0 for j in range(3)]
        if not any(cnt) and not any(sens):
            cnt[rng.randrange(nP)] = 1
        meas.append(dict(op='meas', conds=mc, counts=cnt, sens=sens, name=f'meas{k}',
                         order=rng.sample(range(nP + 3), nP + 3)))
    if len(meas) > 1 and rng.random() < .5:
        meas[1]['conds'] = list(meas[0]['conds'])
        meas[1]['sens'] = [x if c >= 0 else 0 for x, c in zip(meas[1]['sens'], meas[1]['conds'])]
        if not any(meas[1]['counts']) and not any(meas[1]['sens']):
            meas[1]['counts'][rng.randrange(nP)] = 1
    T = strs + idle + meas
    if rng.random() < .3:
        for t in T:
            if rng.random() < .5:
                t['name'] = rng.choice(['unspecified', 'meas0', 'strs0', ' both sides ', '', '12', '1.50', 'None', 'a, b; "c"', 'über 85 °C', '2024-01-01', 'x' * 80])
    idx = {'s': list(range(len(strs))), 'z': [len(strs)], 'm': list(range(len(strs) + 1, len(T)))}
    seq = []
    for ch in kinds:
        if ch in idx:
            seq.append(rng.choice(idx[ch]))
        else:  # letters of specification-generated plans
            seq.append({'a': 0, 'b': min(1, len(strs) - 1)}.get(ch, idx['m'][0] if ch == 'm' else idx['m'][-1]))
    total_us = sum(T[k]['us'] for k in seq if T[k]['op'] == 'stress') or 1
    allc = [t['conds'] for t in strs + idle]
    if vary:
        allc = allc + [[max(varied(vary, k, c[k])) for k in range(3)] for c in allc]
    min_us = min([T[k]['us'] for k in seq if T[k]['op'] == 'stress'] or [1])
    if not all(ch in 'smz' for ch in kinds):
        pass
    # sizes
    mcnt = [max([T[k]['counts'][x] for k in seq if T[k]['op'] == 'meas'] or [0]) for x in range(nP)]
    need = list(mcnt)
    for x, p in enumerate(prms):
        if p['kind'] == 'circ' and mcnt[x]:
            for a in p['args']:
                need[a - 1] = max(need[a - 1], mcnt[x])
    auto = rng.random() < P['auto']
    mx = max(need + [1])
    if auto:
        n = [x if x else 1 for x in need]
        asked = None
    else:
        asked = {}
        for x in range(nP):
            if need[x]:
                asked[x] = need[x] + (rng.randint(1, 3) if rng.random() < P['extra'] else 0)
        if not asked:
            asked[0] = 1
        n = [asked.get(x, 0) for x in range(nP)]
        for x, p in enumerate(prms):
            if p['kind'] == 'circ' and n[x]:
                for a in p['args']:
                    n[a - 1] = max(n[a - 1], n[x])
        # a dependency may be left for the state generation to size
        for x, p in enumerate(prms):
            if p['kind'] == 'deg' and x in asked and not mcnt[x] and rng.random() < .5 and len(asked) > 1:
                del asked[x]
        n = [asked.get(x, 0) for x in range(nP)]
        for x, p in enumerate(prms):
            if p['kind'] == 'circ' and n[x]:
                for a in p['args']:
                    n[a - 1] = max(n[a - 1], n[x])
        n = [x if x else 1 for x in n]
    dev_unit = rng.choice(sum(ALIAS.values(), [])) if rng.random() < P['units'] * .6 else ''
    pos = {v: k for k, vs in ALIAS.items() for v in vs}

    def eff(mu, pu):
        return pos.get(mu or pu or dev_unit or 'h')
    # mechanisms
    for x, p in enumerate(prms):
        if p['kind'] != 'deg':
            continue
        pu = rng.choice(sum(ALIAS.values(), [])) if rng.random() < P['units'] * .6 else ''
        p['unit'] = pu
        p['mechs'] = []
        full = rng.random() < P['layers']
        p['init'] = mk_layers(rng, rng.random() < P['layers'], 'offset', 400)
        if p['comp'] in ('mul', 'mix'):
            p['init'] = dict(base=rng.randint(200, 900), dev=[rng.randint(0, 99) for _ in range(37)], chp=None, lot=None)
        elif rng.random() < .06:
            p['init'] = dict(base=0, dev=None, chp=None, lot=None)
            p['noinit'] = True
        elif rng.random() < .06:
            p['init'] = dict(base=rng.randint(0, 400), dev=None, chp=None, lot=None)
            p['coninit'] = True
        p['w'] = mk_layers(rng, full, 'scaling', 0) if p['comp'] == 'lat' else None
        if p['w']:
            p['w']['base'] = None
            p['w']['chp'] = p['w']['lot'] = None
            p['w']['dev'] = [min(v, 3) for v in p['w']['dev']]
        if p['shift']:
            p['sco'] = [rng.choice([0, 3, -2]), rng.choice([0, 4]), 0]
            p['sref'] = [rng.randint(0, 5), rng.randint(0, 5), 0]
            p['slat'] = mk_layers(rng, rng.random() < P['layers'], 'offset', 30)
            if rng.random() < .25:
                p['slat'], p['nolat'] = dict(base=0, dev=None, chp=None, lot=None), True
        for j in range(p['nm']):
            for _ in range(40):
                law = wpick(rng, P['laws'])
                mu = rng.choice(sum(ALIAS.values(), [])) if rng.random() < P['mechunit'] * P['units'] * 1.4 else ''
                scales = p['comp'] == 'mul' or p['comp'] in ('mix', 'mixm') and j == 0
                u = eff(mu, pu)
                m = dict(law='lin' if law == 'thr' else law, unit=mu, sg=1, un=0, shape='id', co=[rng.randint(0, 2), rng.randint(0, 2), 0],
                         thr=0, co2=[0, 0, 0], thr2=0, cap=0, capc=0, knee=0, lim=0, fv=0, fvc=0, pw=0,
                         ew=rng.random() < P['ew'], lat=mk_layers(rng, rng.random() < P['layers'], 'scaling', 0))
                if rng.random() < .12:
                    m['lat'], m['nolat'] = dict(base=1, dev=None, chp=None, lot=None), True
                if sum(m['co']) == 0:
                    m['co'][0] = 1
                if law == 'thr':
                    m['thr'] = rng.randint(1, 12)
                rmax = max(flatten_layers(m['lat'], L, C, n[x], 'scaling'))
                Rm = rmax * max([rates(m['co'], m['thr'], c) for c in allc] + [1])
                lim = 40000000
                if law in ('lin', 'thr'):
                    m['shape'] = rng.choice(['id', 'id', 'quad', 'root'])
                    lim = {'id': 40000000, 'quad': 900000, 'root': 2000000}[m['shape']]
                if law not in ('none', 'fail') and rng.random() < .3:
                    m['sg'] = -1
                if law == 'knee':
                    m['co2'] = [rng.randint(1, 3), rng.randint(0, 2), 0]
                    m['co'] = [rng.randint(1, 3), rng.randint(0, 2), 0]
                    Rm = rmax * max(max(rates(m['co'], 0, c), rates(m['co2'], 0, c)) for c in allc + [[1, 0, 0]])
                if scales:
                    if rng.random() < .5:
                        m['sg'] = -1
                    m['un'] = 1000
                    lim = 100000
                    m['shape'] = 'id'
                elif p['comp'] == 'mixm':       # the sum gets multiplied by the conditional shift
                    lim = 100000
                    m['shape'] = 'id'
                # choose the power of ten that keeps damage representable
                pw = -14
                while ticks_of(total_us, u, pw) * Rm > lim:
                    pw += 1
                m['pw'] = pw
                if ticks_of(min_us, u, pw) < 40 and law != 'none':
                    continue
                nk = L * C * n[x]
                m['h'] = [rng.choice([0, 0, 3, 20]) for _ in range(nk)] if law in ('thr', 'sat') and rng.random() < .5 else None
                tot = ticks_of(total_us, u, pw)
                if law == 'sat':
                    m['cap'] = rng.randint(50, max(60, min(tot * Rm, 20000000)))
                    m['capc'] = rng.randint(0, max(1, m['cap'] // 5))
                    if rng.random() < .5:
                        m['g'] = [rng.randint(-m['cap'] // 2, m['cap'] // 2) for _ in range(nk)]
                if law == 'knee':
                    m['knee'] = rng.randint(50, max(60, tot * Rm // 2))
                if law == 'fail':
                    m['fv'], m['fvc'] = rng.randint(1, 3000) if scales else rng.randint(1000, 100000), rng.randint(0, 50)
                    okl = None
                    cvals = {tuple(c) for k in seq if T[k]['op'] == 'stress' for c in itertools.product(*[varied(vary, j, T[k]['conds'][j]) for j in range(3)])}
                    vals = sorted({r * rates(m['co'], m['thr'], c) for c in cvals for r in flatten_layers(m['lat'], L, C, n[x], 'scaling')})
                    xs = sorted({(R * ticks_of(T[k]['us'], u, pw), R) for k in seq if T[k]['op'] == 'stress' for R in vals})
                    for __ in range(30):
                        cand = rng.choice(xs)[0] + rng.choice([-1, 1]) * rng.randint(1, 2000) if xs else 5
                        if cand > 0 and all(abs(xx - cand) > R + 2 for xx, R in xs):
                            okl = cand
                            break
                    if okl is None:
                        continue
                    m['lim'] = okl
                    if rng.random() < .4:
                        m['sg'] = -1
                if law == 'none':
                    m['none_default'] = rng.random() < .7
                    m['un'] = 1000 if scales else 0
                break
            else:
                m.update(law='none', none_default=True, shape='id', sg=1, un=1000 if p['comp'] == 'mul' or p['comp'] in ('mix', 'mixm') and j == 0 else 0)
            p['mechs'].append(m)
        fails = [m for m in p['mechs'] if m['law'] == 'fail']
        if fails and p['comp'] in ('sum', 'sub') and rng.random() < P['odd']:
            rng.choice(fails)['sp'] = rng.choice(['inf', 'nan'])      # a failure that leaves nothing to measure
    el = rng.choice([rng.randint(0, 10 ** 12), int(10 ** rng.uniform(0, 13))]) if rng.random() < P['elapsed'] else 0
    desc = dict(lots=L, chps=C, unit=dev_unit, prms=prms, T=T, seq=seq, n=n, auto=auto and el == 0, elapsed=el,
                asked={prms[k]['name']: v for k, v in (asked or {}).items()}, elnum=rng.random() < .3, vary=vary, ticks=bool(vary) and rng.random() < .5,
                cn=rng.choice([CN, CN, ['temp', 'vdd', 'rh'], ['T', 'V', 'RH'], ['t_amb', 'vgs', 'vds'], ['c1', 'c10', 'c100'], ['temp', 'temp_2', 'temp_var']]),
                cs=[[rng.choice([1, .5, .25, -.125, 2, 16]), 0 if vary.get(c, {}).get('type') == 'scaling' else rng.choice([0, -3.5, 20, -300, 273.25])] if rng.random() < .4 else [1, 0] for c in CN],
                vs=10.0 ** rng.choice([-12, -9, -6, -4, -2, 2, 5, 9]) if rng.random() < .35 else 1)
    if auto and el:
        desc['asked'] = {prms[x]['name']: n[x] for x in range(nP)}
    # conditions that nothing depends on may be left out of a step
    for t in T:
        used = set()
        if t['op'] == 'stress':
            for p in prms:
                for m in p.get('mechs', []):
                    used |= {k for k in range(3) if m['co'][k] or m['co2'][k]} | ({0} if m['capc'] or m['fvc'] else set())
        else:
            used |= {k for k in range(3) if t['sens'][k]}
            for x, p in enumerate(prms):
                if t['counts'][x]:
                    for q in [p] + [prms[a - 1] for a in p.get('args', [])]:
                        sco = q.get('sco') if q['kind'] == 'circ' or q['shift'] else None
                        used |= {k for k in range(3) if sco and sco[k]}
        for k in range(3):
            if k not in used and rng.random() < .3:
                t['conds'][k] = -1
        t['ctype'] = rng.choice(['int', 'int', 'float', 'np'])
        t['ntype'] = rng.choice(['int', 'int', 'int', 'npi'])
    if rng.random() < .4:
        pool = rng.sample(NAMES, len(prms))
        for p, nm in zip(prms, pool):
            p['name'] = nm
        desc['asked'] = {prms[k]['name']: v for k, v in (asked or {}).items()}
        if auto and el:
            desc['asked'] = {prms[x]['name']: n[x] for x in range(nP)}
    for p in prms:
        for m in p.get('mechs', []):
            m['dflt'] = rng.random() < .1
        p['dflt'] = rng.random() < .1
        if p['kind'] == 'deg' and (p['comp'] != 'sum' or p['explicit'] or p['ew']) and p['comp'] != 'const' and rng.random() < .35:
            for m in p['mechs']:
                m['uf' if m['un'] else 'uo'] = rng.choice([.5, .25, 2, 8]) if m['un'] else rng.choice([0, .5, -.25, 1, -3.75, 20])
        p['utype'] = rng.choice(['int', 'int', 'float', 'np', 'npi'])
        p['single'] = p['kind'] == 'deg' and p['nm'] == 1 and rng.random() < .3
    desc['single'] = len(prms) == 1 and rng.random() < .3
    # how each duration is expressed
    for t in T:
        if t['op'] == 'stress':
            opts = [(u, t['us'] / UNITS[u]) for u in UNITS if t['us'] % UNITS[u] == 0 and t['us'] / UNITS[u] < 1e12]
            t['how'] = None
            if opts and rng.random() < max(P['units'], .3):
                u, v = rng.choice(opts)
                t['how'] = [rng.choice(ALIAS[u] + ([None] if u == 'hours' else [])), int(v)]
            if rng.random() < max(P['units'], .3) / 3:      # a fraction of a unit
                u = rng.choice(list(UNITS))
                v = t['us'] / UNITS[u]
                if timedelta(**{u: v}) == td(split_us(t['us'])):
                    t['how'] = [rng.choice(ALIAS[u] + ([None] if u == 'hours' else [])), v]
    return desc


# ------------------------------------------------------------------ building real objects
class Conds:
    """The conditions as the test describes them: what they are called and how their values relate to the specification's."""
    def __init__(self, desc):
        self.names = desc.get('cn', CN)
        self.by = desc.get('cs', [[1, 0]] * 3)

    def value(self, k, v, ct=float):
        s, o = self.by[k]
        x = v * s + o
        return ct(x) if x == int(x) else float(x) if ct is int else ct(x)

    def expr(self, k):
        s, o = self.by[k]
        return self.names[k] if [s, o] == [1, 0] else f'(({self.names[k]} - {o!r}) / {s!r})'

    def back(self, k, v):
        s, o = self.by[k]
        return (v - o) / s


def tuned(args, body, how):
    """The equation, possibly with an argument that has a default and that nothing provides."""
    if how:
        args, body = args + ['tune=2.0'], body[:-1] + [body[-1].replace('return ', 'return tune / 2 * (') + ')']
    return eqn(args, body)


def unit_of(m, vs, ut='float'):
    """The value of the mechanism that means no effect."""
    u = m['uf'] if m.get('uf') else m['un'] // 1000 + m.get('uo', 0) * vs
    return UT[ut](u) if u == int(u) and abs(u) < 1e9 else float(u)


def mech_eqn(m, vs=1, D=Conds({})):
    cargs = [D.names[i] for i in range(3) if m['co'][i] or m['co2'][i] or ((m['capc'] or m['fvc']) and i == 0)]
    r = '1' if m.get('nolat') else 'r'
    args = ['time', *cargs] + ([] if m.get('nolat') else ['r']) + (['h'] if m.get('h') else []) + (['g'] if m.get('g') else [])
    E = m['ew']
    ca = D.expr(0)
    lin = lambda co, thr: '(' + ' + '.join([f'{a}*{D.expr(k)}' for k, a in enumerate(co) if a] or ['0']) + f' - {thr}' + (' - h)' if m.get('h') else ')')
    tau = f'(time / 1e{m["pw"]})'
    body = []
    if E:
        body += [f'rate = {lin(m["co"], m["thr"])}', 'if rate < 0:', '    rate = 0.0', f'X = {r} * rate * {tau}']
    else:
        body += [f'X = {r} * np.maximum({lin(m["co"], m["thr"])}, 0) * {tau}']
    if m['law'] == 'lin':
        body += [{'id': 'V = X', 'quad': 'V = X * X / 1000', 'root': 'V = X ** 0.5'}[m['shape']]]
    elif m['law'] == 'sat':
        cap = f'({m["cap"]} + {m["capc"]} * {ca}) / 1000' if m['capc'] else f'{m["cap"]} / 1000'
        cap = f'{cap} + g' if m.get('g') else cap
        body += [f'cap = {cap}'] + (['V = X if X < cap else cap'] if E else ['V = np.minimum(X, cap)'])
    elif m['law'] == 'knee':
        body += [f'K = {m["knee"]} / 1000', f'R1 = {r} * {lin(m["co"], 0)}', f'R2 = {r} * {lin(m["co2"], 0)}']
        if E:
            body += ['if R1 <= 0 or R2 <= 0:', '    V = 0.0', 'elif X <= K:', '    V = X', 'else:', f'    V = K + R2 * ({tau} - K / R1)']
        else:
            body += [f'V = np.where((R1 <= 0) | (R2 <= 0), 0.0, np.where(X <= K, X, K + R2 * ({tau} - K / np.where(R1 > 0, R1, 1))))']
    elif m['law'] == 'fail':
        fv = f'({m["fv"]} + {m["fvc"]} * {ca}) / 1000' if m['fvc'] else f'{m["fv"]} / 1000'
        fv = f'{fv} * np.{m["sp"]}' if m.get('sp') else fv
        body += ([f'V = {fv} if X > {m["lim"]} / 1000 else 0.0'] if E else [f'V = np.where(X > {m["lim"]} / 1000, {fv}, 0.0)'])
    elif m['law'] == 'none':
        args = [] if m.get('nolat') else ['r']
        return eqn(args, [f'return {unit_of(m, vs)!r}'])
    V = 'V' if vs == 1 else f'V * {vs!r}'
    V = f'+ {V}' if m['sg'] > 0 else f'- {V}'
    body += [f'return (1 {V}) * {m["uf"]!r}' if m.get('uf') else f'return {unit_of(m, vs)!r} {V}']
    return tuned(args, body, m.get('dflt'))


def spy(f, rec, key, names):
    """The same equation, noting the conditions it is evaluated for, per test step."""
    if rec is None:
        return f
    args = [a for a, p in inspect.signature(f).parameters.items() if p.default is p.empty]
    src = f'def g({", ".join(args + ["ph"])}):\n    note(ph, dict({", ".join(f"{a}={a}" for a in args if a in names)}))\n    return f({", ".join(args)})'

    def note(ph, conds):
        calls = rec.setdefault((int(round(float(np.ravel(ph)[0]))), key), [])
        now = {c: np.array(v) for c, v in conds.items()}
        if not calls or any(a.shape != b.shape or np.any(a != b) for a, b in zip(calls[-1].values(), now.values())):
            calls[:] = calls[-40:] + [now]
    ns = dict(note=note, f=f)
    exec(src, ns)
    return ns['g']


def build(desc, rec=None, ticks=False):
    mdls = {}
    U = lambda a: a or None
    D = Conds(desc)
    vs = desc.get('vs', 1)      # what the specification calls 1 is this much
    tiny = f' + {1.23456789e-05 * vs!r}' if desc.get('twin') else ''      # well below the resolution of the specification, not of the twin
    for p in desc['prms']:
        if p['kind'] == 'deg':
            mechs = {}
            for j, m in enumerate(p['mechs']):
                cls = FailMechMdl if m['law'] == 'fail' else DegMechMdl
                if m['law'] == 'none' and m.get('none_default'):
                    mechs[f'm{j + 1}'] = cls(unitary_val=unit_of(m, vs, p['utype']), time_unit=U(m['unit']))
                else:
                    more = {k: LatentVar(Script([v * f for v in m[k]])) for k, f in (('h', 1), ('g', 0.001)) if m.get(k)}
                    mechs[f'm{j + 1}'] = cls(spy(mech_eqn(m, 1 if m['un'] else vs, D), rec if m['law'] != 'none' else None, (p['name'], f'm{j + 1}'), D.names), unitary_val=unit_of(m, vs, p['utype']), time_unit=U(m['unit']), **({} if m.get('nolat') else dict(r=latent(m['lat'], 'scaling'))), **more)
            if p['single']:
                mechs['m1'].name = 'm1'
            ms = list(mechs)
            # mechanisms may be expressed around any unitary value, which then means no effect
            me = [f'{k} / {m["uf"]!r}' if m.get('uf') else f'({k} - {m["uo"] * vs!r})' if m.get('uo') else k for k, m in zip(ms, p['mechs'])]
            s = ' + '.join(me)
            br = ['if init == -1.5e300:', '    return 0'] if p['ew'] else []
            comp = None
            lat = {}
            if p['comp'] == 'sum' and (p['explicit'] or p['ew'] or me != ms):
                comp = eqn(['init', 'cond', *ms], br + [f'return init + cond + {s}'])
            elif p['comp'] == 'sub':
                comp = eqn([*ms, 'init', 'cond'], br + [f'return init + cond - ({s})'])
            elif p['comp'] == 'lat':
                comp = tuned(['init', 'cond', 'w', *ms], br + [f'return init + w * (cond + {s})'], p.get('dflt'))
                lat = {'w': latent(p['w'], 'scaling')}
            elif p['comp'] == 'mul':
                comp = eqn(['init', 'cond', *ms], br + [f'return init * cond * {me[0]}'])
            elif p['comp'] == 'mix':
                comp = eqn([*ms, 'cond', 'init'], br + [f'return init * {me[0]} + {" + ".join(me[1:])} + cond'])
            elif p['comp'] == 'mixm':
                comp = eqn([*ms, 'cond', 'init'], br + [f'return (init * {me[0]} + {" + ".join(me[1:])}) * cond'])
            elif p['comp'] == 'const':
                comp = eqn(['init', 'cond', *ms], br + [f'return {4.25 * vs!r}'])
            cond = None
            un = 1 if p['comp'] in ('mul', 'mixm') else 0
            if p['shift']:
                cs = [k for k in range(3) if p['sco'][k]]
                ex = ' + '.join([f'{p["sco"][k]} * ({D.expr(k)} - {p["sref"][k]})' for k in cs] or ['0'])
                sn = [] if p.get('nolat') else ['s']
                bn = ([D.names[k] for k in cs] + sn)[-1:]
                br = [f'if {bn[0]} == -1.5e300:', '    return 0'] if p['ew'] and bn else []
                cvs = 1 if un else vs
                cond = CondShiftMdl(spy(tuned([D.names[k] for k in cs] + sn, br + [f'return {un} + ({ex}) / 1000 * {cvs!r}{" + s" if sn else ""}{tiny if not un else ""}'], p.get('dflt')), rec, (p['name'], 'cond'), D.names), unitary_val=UT[p['utype']](un),
                                    **({'s': latent(p['slat'], 'offset', 0.001 * cvs)} if sn else {}))
            elif un:
                cond = CondShiftMdl(unitary_val=UT[p['utype']](1))
            iv = latent(p['init'], 'offset', 0.001 * vs)
            init = InitValMdl(eqn(['a0'], ['if a0 == -1.5e300:', '    return 0', 'return a0']), a0=iv) if p['init_ew'] else InitValMdl(init_val=iv)
            if p.get('coninit'):
                init = InitValMdl(eqn([], [f'return {p["init"]["base"] * 0.001 * vs!r}']))
            if p.get('noinit'):
                init = None
            if desc.get('onemech') and mdls:
                mechs = {'m1': next(iter(mdls.values())).mech_mdl('m1')}
            mdls[p['name']] = DegPrmMdl(mechs['m1'] if p['single'] else mechs, init, cond, comp, time_unit=U(p['unit']), **lat)
        else:
            an = [desc['prms'][a - 1]['name'] for a in p['args']]
            ex = ' + '.join(f'{k} * {a}' for k, a in zip(p['ks'], an))
            cs = [k for k in range(3) if p['sco'][k]]
            zn = [] if p.get('nolat') else ['z']
            ex += tiny + (' + z' if zn else '') + ''.join(f' + {p["sco"][k]} * {D.expr(k)} / 1000 * {vs!r}' for k in cs)
            br = [f'if {([*an] + zn)[-1]} == -1.5e300:', '    return 0'] if p['ew'] else []
            mdls[p['name']] = CircPrmMdl(spy(tuned([*an, *[D.names[k] for k in cs], *zn], br + ['return ' + ex], p.get('dflt')), rec, (p['name'], 'circ'), D.names), **({'z': latent(p['lat'], 'offset', 0.001 * vs)} if zn else {}))
    if desc['single']:
        mdls = next(iter(mdls.values()))
        mdls.name = desc['prms'][0]['name']
    dev = DeviceMdl(mdls, time_unit=U(desc['unit']))
    if rec is None or ticks:
        objs = step_objs(desc)
        for o in objs if ticks else ():
            o.conditions['ph'] = 0
        steps = [objs[k] for k in desc['seq']]
    else:
        steps = step_objs({**desc, 'T': [desc['T'][k] for k in desc['seq']]})
        for k, st in enumerate(steps):
            st.conditions['ph'] = k
    test = TestSpec(steps, desc['chps'], desc['lots'], name='sim case')
    return test, dev


def step_objs(desc):
    objs = []
    D = Conds(desc)
    for t in desc['T']:
        ct = UT[t.get('ctype', 'int')]
        cd = {D.names[k]: D.value(k, t['conds'][k], ct) for k in range(3) if t['conds'][k] >= 0}
        if t['op'] == 'stress':
            if t['how']:
                objs.append(StrsSpec(cd, t['how'][1], t['name'], time_unit=t['how'][0]))
            else:
                objs.append(StrsSpec(cd, td(split_us(t['us'])), t['name']))
        else:
            names = [p['name'] for p in desc['prms']] + D.names
            cnt = t['counts'] + t['sens']
            nt = UT[t.get('ntype', 'int')]
            objs.append(MeasSpec({names[k]: nt(cnt[k]) for k in t['order'] if cnt[k]}, cd, t['name']))
    return objs


def cfg_of(desc):
    prms = []
    pos = {v: k for k, vs in ALIAS.items() for v in vs}
    L, C = desc['lots'], desc['chps']
    for x, p in enumerate(desc['prms']):
        n = desc['n'][x]
        q = dict(kind=p['kind'], n=n, unit=p.get('unit', ''), comp=p.get('comp', 'sum'), init=[], w=[], shift='none', sco=[0, 0, 0],
                 sref=[0, 0, 0], slat=[], mechs=[], args=[], ks=[])
        if p['kind'] == 'deg':
            q['init'] = flatten_layers(p['init'], L, C, n, 'offset')
            if p['comp'] == 'lat':
                q['w'] = flatten_layers(p['w'], L, C, n, 'scaling')
            if p['comp'] == 'const':
                q['w'] = [4250] * (L * C * n)
            if p['shift']:
                q.update(shift='lin', sco=p['sco'], sref=p['sref'], slat=flatten_layers(p['slat'], L, C, n, 'offset'))
            for m in p['mechs']:
                tick = UNITS[pos[m['unit'] or p['unit'] or desc['unit'] or 'h']] * 10.0 ** m['pw']        # a thousandth of this many us
                sp = 0 if not m.get('sp') else ODD['nan'] if m['sp'] == 'nan' else ODD['inf' if (m['sg'] > 0) == (p['comp'] == 'sum') else '-inf']
                q['mechs'].append({'sl': 2 + math.ceil(1 / tick), 'sp': sp} | {k: m[k] for k in ('law', 'shape', 'sg', 'un', 'co', 'thr', 'co2', 'thr2', 'cap', 'capc', 'knee', 'lim', 'fv', 'fvc', 'unit', 'pw')}
                                  | {'r': flatten_layers(m['lat'], L, C, n, 'scaling'), 'h': m.get('h') or [0] * (L * C * n), 'g': m.get('g') or [0] * (L * C * n)})
        else:
            q.update(args=p['args'], ks=p['ks'], sco=p['sco'], w=flatten_layers(p['lat'], L, C, n, 'offset'))
        prms.append(q)
    on = lambda k: desc.get('vary', {}).get(CN[k]) or {}
    vary = [dict(on=bool(on(k)), dev=bool(on(k).get('dev')), chp=bool(on(k).get('chp'))) for k in range(3)]
    return dict(vary=vary, lots=L, chps=C, unit=desc['unit'], elapsed=split_us(desc['elapsed']), tol=1, prms=prms)


def rows_by_step(report, names, D, twin=None, vs=1):
    """Measurement rows grouped by step number, as the integers SimTrace expects."""
    ids = Ids()
    out = {}
    m = report.measurements
    if m is None or len(m) == 0:
        return out
    lab = lambda v: -1 if v is None or v != v else int(v)
    tw = list(twin.measurements['measured']) if twin is not None and len(twin.measurements) == len(m) else None
    for k, (prm, stp, dv, ch, lo, t, v) in enumerate(zip(m['param'], m['step #'], m['device #'], m['chip #'], m['lot #'], m['time'], m['measured'])):
        q = names.get(prm, 99)
        s = vs if q <= 99 else 1
        ppb = 0 if twin is None else BIG if tw is None else 0 if repr(tw[k]) == repr(v) else milli(abs(tw[k] - v) / max(abs(tw[k]), 1e-3 * s), 1e9)
        out.setdefault(int(stp), []).append([names.get(prm, 99), lab(lo), lab(ch), lab(dv), ODD[repr(float(v))] if repr(float(v)) in ODD else milli(v / s if q <= 99 else D.back(q - 101, v)), ids(float(v)), *triple(t), ppb])
    return out


def sums_by_step(report, D):
    out = {}
    s = report.test_summary
    for k in range(len(s)):
        r = s.iloc[k]
        cv = []
        for k2, c in enumerate(D.names):
            v = D.back(k2, r[c]) if c in s.columns and r[c] is not None else None
            cv.append(-1 if v is None or v != v else (int(v) if v == int(v) else BIG))
        no = int(r['step number'])
        out.setdefault(no, []).append(dict(no=no, pos=k, name=str(r['step name']), type=str(r['step type']), conds=cv,
                                           dur=triple(r['duration']), start=triple(r['start time']), end=triple(r['end time'])))
    return out


def simulate_desc(desc, rec=None, ticks=False):
    test, dev = build(desc, rec, ticks)
    D = Conds(desc)
    by = lambda k, v: D.by[CN.index(k)][0] if v['type'] == 'offset' else 1
    vrtns = {D.names[CN.index(k)]: EnvVrtnMdl(*[Script([x * by(k, v) for x in v[l]]) if v[l] else None for l in ('dev', 'chp', 'lot')], v['type']) for k, v in desc.get('vary', {}).items()}
    if ticks:
        vrtns['ph'] = EnvVrtnMdl(None, None, Count(1), 'offset')
    env = PhysTestEnv(vrtns or None)
    state = None
    if not desc['auto']:
        kw = {}
        if desc['elapsed']:
            kw['elapsed_time'] = td(split_us(desc['elapsed']))
        state = gerabaldi.gen_init_state(dev, dict(desc['asked']), desc['chps'], desc['lots'], **kw)
    return gerabaldi.simulate(test, dev, env, state)


def arrays_only(desc):
    """The same test with every equation written for arrays."""
    d = copy.deepcopy(desc)
    for p in d['prms']:
        p['ew'] = p['init_ew'] = False
        for m in p.get('mechs', []):
            m['ew'] = False
    return d


def by_step(desc, rec):
    """The observations of a run whose steps all ask for the same 'ph', by step number; None where they do not tell."""
    spied = [bool(p['kind'] == 'circ' or p['shift']) for p in desc['prms']]
    strs = any(m['law'] != 'none' for p in desc['prms'] for m in p.get('mechs', []))
    due = [k for k, t in enumerate(desc['seq'])
           if (strs if desc['T'][t]['op'] == 'stress' else any(s and c for s, c in zip(spied, desc['T'][t]['counts'])))]
    phs = sorted({ph for ph, _ in rec})
    if len(phs) != len(due):
        return None
    at = dict(zip(phs, due))
    return {(at[ph], key): v for (ph, key), v in rec.items()}


def seen_conds(desc, rec, k):
    """What the equations of step k were given: per parameter and device the conditions, the conditions observed, and
    whether all mechanisms of a parameter were given the same."""
    T = desc['T'][desc['seq'][k]]
    L, C = desc['lots'], desc['chps']
    cv, co, ok, inn = [], [], True, True
    D = Conds(desc)
    may = [set(varied(desc.get('vary', {}), j, c)) for j, c in enumerate(T['conds'])]
    for x, p in enumerate(desc['prms']):
        d = desc['n'][x] if T['op'] == 'stress' else T['counts'][x]
        keys = [f'm{j + 1}' for j in range(len(p.get('mechs', [])))] if T['op'] == 'stress' else ['cond', 'circ']
        got = {}
        for key in keys if d else []:
            calls = (rec or {}).get((k, (p['name'], key)), [])
            for c, v in (calls[-1] if calls else {}).items():
                # every evaluation for all devices is for the same conditions
                full = [w[c] for w in calls if w[c].size == L * C * d]
                ok &= all(bool(np.all(np.ravel(w) == np.ravel(full[-1]))) for w in full)
                try:
                    a = np.broadcast_to(v if v.ndim <= 3 and v.ndim != 1 else v.reshape((L, C, d)), (L, C, d))
                except ValueError:
                    continue            # not a call for all devices
                ok &= c not in got or bool(np.all(got[c] == a))
                got[c] = a
        got = {CN[D.names.index(c)]: D.back(D.names.index(c), a) for c, a in got.items()}
        if not got:
            cv.append([])
            co.append([])
            continue
        cells = []
        for l in range(L):
            for ch in range(C):
                for z in range(desc['n'][x]):
                    if z >= d:
                        cells.append([])
                    else:
                        vals = [got[n][l, ch, z] if n in got else T['conds'][j] for j, n in enumerate(CN)]
                        # a value that the condition cannot take
                        inn &= all(v in m for v, m, n in zip(vals, may, CN) if n in got)
                        cells.append([int(v) if v in m else T['conds'][j] for j, (v, m) in enumerate(zip(vals, may))])
        cv.append(cells)
        co.append([j + 1 for j, n in enumerate(CN) if n in got])
    return dict(cv=cv, co=co, cvok=ok, cvin=inn)


def events_of(desc, report, twin=None, rec=None):
    names = {p['name']: k + 1 for k, p in enumerate(desc['prms'])}
    D = Conds(desc)
    names.update({c: 101 + k for k, c in enumerate(D.names)})
    rows, sums = rows_by_step(report, names, D, twin, desc.get('vs', 1)), sums_by_step(report, D)
    ev = []
    for k, t in enumerate(desc['seq']):
        T = desc['T'][t]
        e = dict(op=T['op'], name=T['name'], conds=T['conds'], sum=sums.get(k, []), rows=rows.get(k, []), **seen_conds(desc, rec, k))
        if T['op'] == 'stress':
            e['dur'] = split_us(T['us'])
        else:
            e.update(counts=T['counts'], sens=T['sens'])
        ev.append(e)
    ev.append(dict(op='end', nsum=len(report.test_summary), nmeas=len(report.measurements)))
    return ev


def run_case(job):
    cid, desc = job
    try:
        with limit(20):
            rec = {} if desc.get('vary') else None
            if desc.get('ticks') and rec is not None:
                report = simulate_desc(desc, rec, True)
                rec = by_step(desc, rec)
                if rec is None:
                    rec = {}
                    report = simulate_desc(desc, rec)
            else:
                report = simulate_desc(desc, rec)
            ev = events_of(desc, report, rec=rec, twin=simulate_desc(arrays_only(desc)) if desc.get('twin') else None)
    except Exception as ex:
        ev = [dict(op='crash', why=f'{type(ex).__name__}: {ex}'[:300])]
    return dict(id=cid, cfg=cfg_of(desc), ev=ev, _desc=desc)


def one_mech_job():
    """One mechanism model object used by two parameters that are described in different time units."""
    none = dict(base=None, dev=[1], chp=None, lot=None)
    mech = dict(law='lin', shape='id', sg=1, un=0, co=[1, 0, 0], thr=0, co2=[0, 0, 0], thr2=0, cap=0, capc=0, knee=0, lim=0, fv=0, fvc=0,
                unit='', pw=1, ew=False, lat=none)
    prm = lambda n, u: dict(kind='deg', name=n, comp='sum', nm=1, ew=False, shift=False, explicit=False, init_ew=False, unit=u, utype='int',
                            single=False, init=dict(base=0, dev=[1], chp=None, lot=None), w=None, mechs=[mech])
    T = [dict(op='stress', conds=[1, 0, -1], us=36000000000, name='s', how=None), dict(op='meas', conds=[1, 0, -1], counts=[1, 1], sens=[0, 0, 0], name='m', order=[0, 1, 2, 3, 4])]
    return 'kf-onemech', dict(lots=1, chps=1, unit='', elapsed=0, auto=True, asked={}, n=[1, 1], seq=[0, 1], T=T, prms=[prm('p1', 's'), prm('p2', 'h')],
                              vary={}, single=False, onemech=True)


def random_jobs(prop, count, tag='rnd'):
    rng = rng_for('sim', prop, tag)
    jobs = [(f'{tag}-{k}', dict(gen_desc(rng, PROFILES.get(prop, {})), twin=prop == 'C17')) for k in range(count)]
    # and some in which one number is large
    return jobs + [(f'{tag}-{h}{k}', gen_desc(rng, PROFILES.get(prop, {}), huge=h)) for h in ('lots', 'chps', 'devs', 'steps') for k in range(1 if TIER == 'quick' else 3)]


def plan_jobs(prop, plans, tag='gen'):
    rng = rng_for('sim', prop, tag)
    base = {**PROFILES.get(prop, {}), 'nprm': (1, 2), 'nmech': (1, 2), 'lots': (1, 2), 'chps': (1, 2), 'devs': (1, 2)}
    return [(f'{tag}-{"".join(pl)}', gen_desc(rng, base, list(pl))) for pl in plans]
