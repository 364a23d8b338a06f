"""C09-C12: layered variation, environmental conditions and initial states (spec/Layers.tla)."""
from common import *
from gb import *
import drv_sim

CLAUSES = {'C09': ('init.', 'lay.'), 'C10': ('lay.',), 'C11': ('lay.',), 'C12': ('env.',)}
SIMCL = {'C09': ('val.', 'rows.', 'sum.start'), 'C10': ('val.', 'same.'), 'C12': ('cond.',)}


def _primes(n):
    s = np.ones(140000, bool)
    s[:2] = False
    for k in range(2, 375):
        if s[k]:
            s[k * k::k] = False
    return np.flatnonzero(s)[1:n + 1]     # odd primes: powers of two are left for the base value


PR = _primes(12000)
LAYER = {'lot': 0, 'chp': 1, 'dev': 2}
RAD = [10 ** 8, 10 ** 4, 1]


class Mode:
    """How draws are coded: as decimal digits of a sum or as distinct primes of a product."""
    def __init__(self, t):
        self.t = t

    def __deepcopy__(self, memo):
        return self

    def base(self, b):
        if b == 0:
            return None
        if b == 9:
            return 0.0
        return float(b * 10 ** 12) if self.t == 'offset' else float(2 ** b)

    def draw(self, layer, digit):
        k = LAYER[layer]
        return float(digit * RAD[k]) if self.t == 'offset' else float(PR[4000 * k + digit])

    def decode(self, v):
        bad = [-1, -1, -1, -1]
        v = float(v)
        if not np.isfinite(v) or v != int(v) or v < 0:
            return bad
        v = int(v)
        if self.t == 'offset':
            r = [v // 10 ** 12, v // 10 ** 8 % 10 ** 4, v // 10 ** 4 % 10 ** 4, v % 10 ** 4]
            return r if r[0] < 1000 else bad
        if v == 0:
            return [9, 0, 0, 0]
        if v >= 2 ** 62:
            return bad
        b = 0
        while v % 2 == 0:
            v //= 2
            b += 1
        out = [b, 0, 0, 0]
        if v > 1:
            for k in np.flatnonzero(v % PR == 0):
                j = 1 + k // 4000
                if out[j]:
                    return bad
                out[j] = int(k % 4000)
                v //= int(PR[k])
        return out if v == 1 else bad


class Coded(RandomVar):
    """Distribution number d of a layer: every draw names the distribution and is used once."""
    def __init__(self, mode, layer, d, name=None):
        self._dist_type = 'uniform'
        super().__init__(name=name)
        self.mode, self.layer, self.d, self.k = mode, layer, d, 0

    def sample(self, quantity=1):
        out = np.array([self.mode.draw(self.layer, self.d * 1000 + (self.k + j) % 1000) for j in range(quantity)], dtype=float)
        self.k += quantity
        return out


def cells(arr, mode):
    arr = np.asarray(arr)
    if arr.ndim != 3:
        return [[[[-1, -1, -1, -1]]]]
    return [[[mode.decode(v) for v in row] for row in lot] for lot in arr]


def mkvar(cfg, mode, env):
    dist = lambda l: Coded(mode, l, cfg[l]) if cfg[l] else None
    if env:
        return EnvVrtnMdl(dist('dev'), dist('chp'), dist('lot'), cfg['type'])
    return LatentVar(dist('dev'), dist('chp'), dist('lot'), mode.base(cfg['base']), 'v', cfg['type'])


def run_reconf(job):
    cid, env, ops = job
    rng = rng_for('reconf', cid)
    ev = []
    cfg = None
    var = None
    try:
        with limit(20):
            mode = Mode('offset')
            for o in ops:
                res = 'ok'
                e = dict(o)
                if o['op'] == 'new':
                    cfg = dict(o['cfg'])
                    mode.t = cfg['type']
                    var = mkvar(cfg, mode, env)
                elif o['op'] == 'layer':
                    cfg[o['layer']] = o['d']
                    attr = {'lot': 'batch' if env else 'lot'}.get(o['layer'], o['layer']) + '_vrtn_mdl'
                    try:
                        setattr(var, attr, Coded(mode, o['layer'], o['d']) if o['d'] else None)
                    except Exception as ex:
                        res = type(ex).__name__
                elif o['op'] == 'type':
                    if o['t'] in ('scaling', 'offset'):
                        cfg['type'] = mode.t = o['t']
                        if not env and cfg['base']:
                            # the coding of the base value follows the type
                            var.deter_val = mode.base(cfg['base'])
                    try:
                        var.vrtn_type = o['t']
                    except Exception as ex:
                        res = type(ex).__name__
                elif o['op'] == 'base':
                    cfg['base'] = o['b']
                    if not env:
                        var.deter_val = mode.base(o['b'])
                L, C, D = rng.randint(1, 2), rng.randint(1, 3), rng.randint(1, 3)
                if env:
                    a = var.gen_env_vrtns(mode.base(cfg['base']), D, C, L)
                else:
                    a = var.gen_latent_vals(D, C, L)
                e.update(env=env, L=L, C=C, D=D, a=cells(a, mode), res=res)
                ev.append(e)
    except Exception as ex:
        ev.append(dict(op='crash', why=f'{type(ex).__name__}: {ex}'[:300]))
    return dict(id=cid, ev=ev, _desc=ops)


def run_shape(job):
    """C10: one configuration, several samplings of various sizes, through a variable or a model that uses it."""
    cid, cfg, sizes = job
    ev = []
    try:
        with limit(20):
            mode = Mode(cfg['type'])
            var = mkvar(cfg, mode, False)
            via = rng_for('shape', cid).choice(['var', 'mdl', 'prm'])
            if via != 'var':
                mdl = DegMechMdl(eqn(['time', 'v'], ['return v * time']), v=var)
                if via == 'prm':
                    mdl = DegPrmMdl({'m': mdl}, InitValMdl(init_val=LatentVar(deter_val=1)), prm_name='p')
            for k, (L, C, D) in enumerate(sizes):
                if via == 'var':
                    a = var.gen_latent_vals(D, C, L)
                elif via == 'mdl':
                    a = mdl.gen_latent_vals(D, C, L)['v']
                else:
                    a = mdl.gen_latent_vals(D, C, L)['m']['v']
                e = dict(op='new' if k == 0 else 'again', env=False, L=L, C=C, D=D, a=cells(a, mode), res='ok')
                if k == 0:
                    e['cfg'] = cfg
                ev.append(e)
    except Exception as ex:
        ev.append(dict(op='crash', why=f'{type(ex).__name__}: {ex}'[:300]))
    return dict(id=cid, ev=ev, _desc=cfg)


def rand_cfg(rng, env=False):
    while True:
        c = dict(type=rng.choice(['scaling', 'offset']), base=rng.choice([0, 3, 5, 9]), lot=rng.choice([0, 1, 2]), chp=rng.choice([0, 1, 2]),
                 dev=rng.choice([0, 1, 2]))
        if env:
            c['base'] = rng.choice([1, 3, 4, 9])
        if c['base'] or c['dev']:
            return c


def random_reconf(rng, cid):
    env = rng.random() < .5
    cfg = rand_cfg(rng, env)
    ops = [dict(op='new', cfg=dict(cfg))]
    for _ in range(rng.randint(2, 9)):
        x = rng.random()
        if x < .5:
            l = rng.choice(['lot', 'chp', 'dev'])
            d = rng.choice([0, 1, 2, 3])
            if l == 'dev' and d == 0 and not cfg['base']:
                d = 1
            cfg[l] = d
            ops.append(dict(op='layer', layer=l, d=d))
        elif x < .8:
            ops.append(dict(op='type', t=rng.choice(['scaling', 'offset', 'offset', 'scaling', 'bogus', 'Scaling', ''])))
        elif x < .95:
            b = rng.choice([0, 2, 6, 9])
            if not b and (env or not cfg['dev']):
                b = 2
            cfg['base'] = b
            ops.append(dict(op='base', b=b))
        else:
            ops.append(dict(op='again'))
    return (cid, env, ops)


# ------------------------------------------------------------------ environmental conditions
CNAMES = ['c', 'cc', 't', 'te', 'temp', 'temp_b', 'vd', 'vdd', 'p', 'm']     # names that are prefixes of one another


def env_desc(rng, cid):
    conds = [rand_cfg(rng, True) for _ in range(rng.randint(1, 3))]
    for c in conds:
        if rng.random() < .2:
            c.update(lot=0, chp=0, dev=0)
    L, C = rng.randint(1, 3), rng.randint(1, 3)
    share = len(conds) > 1 and L * C <= 3 and rng.random() < .4       # one variation model for two conditions
    if share:
        conds[1] = dict(conds[0], base=conds[1]['base'])
    return dict(conds=conds, share=share, L=L, C=C, nsteps=rng.randint(1, 5), how=rng.choice(['direct', 'direct', 'sim', 'sim']), cid=cid)


def env_of(d, rng):
    modes = [Mode(c['type']) for c in d['conds']]
    names = rng.sample(CNAMES, len(modes))
    made = [mkvar(c, m, True) for c, m in zip(d['conds'], modes)]
    if d['share']:
        made[1] = made[0]
    return modes, names, PhysTestEnv({n: v for n, c, v in zip(names, d['conds'], made) if c['lot'] or c['chp'] or c['dev']})


def env_direct(d, rng):
    modes, names, env = env_of(d, rng)
    base = {n: m.base(c['base']) for n, c, m in zip(names, d['conds'], modes)}
    # device parameters depending on some of the conditions
    P = {}
    dep = {}
    for p in range(rng.randint(1, 3)):
        cs = rng.sample(names, rng.randint(1, len(names)))
        sc = rng.sample(names, rng.randint(1, len(names)))
        P[f'p{p}'] = DegPrmMdl({'m': DegMechMdl(eqn(['time', *cs], ['return time * (' + ' + '.join(cs) + ')']))}, InitValMdl(init_val=LatentVar(deter_val=1.0)),
                               CondShiftMdl(eqn(sc, ['return ' + ' + '.join(sc)])))
        dep[f'p{p}'] = (cs, sc)
    if rng.random() < .5:
        qc = rng.sample(names, 1)
        P['q'] = CircPrmMdl(eqn(['p0', *qc], ['return p0 + ' + qc[0]]))
        dep['q'] = ([], qc)
    dev = DeviceMdl(P)
    ev = []
    for _ in range(d['nsteps']):
        target = rng.choice(['stress', 'measure'])
        cnt = {p: rng.randint(1, 4) for p in P if (p != 'q' or target == 'measure') and rng.random() < .8}
        if not cnt:
            cnt = {'p0': 1}
        sens = {n: rng.randint(1, 3) for n in names if rng.random() < .4} if target == 'measure' else {}
        kw = {}
        form = rng.choice(['dict', 'report'])
        if form == 'report':
            rep = SimReport(TestSpec([MeasSpec({**cnt, **sens}, {})], d['C'], d['L']))
            out = env.gen_env_cond_vals(dict(base), [*cnt, *sens] if rng.random() < .5 else {**cnt, **sens}, rep, dev, target)
        else:
            out = env.gen_env_cond_vals(dict(base), {**cnt, **sens}, None, dev, target, d['C'], d['L'])
        obs, sn = [], []
        for p in cnt:
            for n in dep[p][0 if target == 'stress' else 1]:
                a = out[p][n] if n in out[p] else None
                obs.append(dict(prm=p, c=names.index(n) + 1, D=cnt[p], a=cells(a, modes[names.index(n)]) if a is not None else []))
        for n in sens:
            a = np.ravel(out[n][n])
            sn.append(dict(c=names.index(n) + 1, n=sens[n], a=[modes[names.index(n)].decode(v) for v in a]))
        ev.append(dict(op='step', obs=obs, sens=sn))
    return ev


def env_sim(d, rng):
    """The same observations through whole simulations: the conditional shift shows the conditions of a measurement,
    hard failures that take the value of a condition show the conditions of a stress step."""
    modes, names, env = env_of(d, rng)
    base = {n: m.base(c['base']) for n, c, m in zip(names, d['conds'], modes)}
    ns = d['nsteps']
    P, look = {}, {}
    for p in range(rng.randint(1, 3)):
        if rng.random() < .5:
            c = rng.choice(names)
            mech = {f'f{k}': FailMechMdl(eqn(['phase', c], [f'return np.where(phase == {k}, {c}, 0.0)'])) for k in range(ns)}
            P[f's{p}'] = DegPrmMdl(mech, InitValMdl(init_val=LatentVar(deter_val=0.0)))
            look[f's{p}'] = ('s', c)
        else:
            c = rng.choice(names)
            P[f'm{p}'] = DegPrmMdl({'m': DegMechMdl()}, InitValMdl(init_val=LatentVar(deter_val=0.0)), CondShiftMdl(eqn([c], [f'return {c}'])))
            look[f'm{p}'] = ('m', c)
    first = next(iter(P))
    if look[first][0] == 'm' and rng.random() < .5:
        c = rng.choice(names)
        P['q'] = CircPrmMdl(eqn([first, c], [f'return {c} + 0 * {first}']))
        look['q'] = ('m', c)
    dev = DeviceMdl(P)
    top = {p: rng.randint(1, 4) for p in P}
    steps, info = [], []
    for k in range(ns):
        if any(v[0] == 's' for v in look.values()) and rng.random() < .6:
            steps.append(StrsSpec({**base, 'phase': k}, timedelta(hours=rng.randint(1, 5))))
            info.append('s')
        # after each step everything is measured
        cnt = {p: top[p] for p in P}
        sens = {n: rng.randint(1, 3) for n in names if rng.random() < .4}
        if rng.random() < .4:
            cnt = {p: rng.randint(1, top[p]) for p in P if look[p][0] == 'm' and rng.random() < .7} | {p: top[p] for p in P if look[p][0] == 's'}
        both = [*cnt.items(), *sens.items()]
        rng.shuffle(both)
        if not both:
            both = [(first, top[first])]
        steps.append(MeasSpec(dict(both), dict(base)))
        info.append(dict(both))
    rep = gerabaldi.simulate(TestSpec(steps, d['C'], d['L']), dev, env)
    m = rep.measurements
    ev = []
    prev = {}
    for k, i in enumerate(info):
        if i == 's':
            continue
        r = m[m['step #'] == k]
        obs, sn, sobs = [], [], []
        for p, n in i.items():
            v = np.asarray(r[r['param'] == p]['measured'], dtype=float)
            if p in names:
                j = names.index(p)
                sn.append(dict(c=j + 1, n=n, a=[modes[j].decode(x) for x in v]))
                continue
            kind, c = look[p]
            j = names.index(c)
            arr = v.reshape((d['L'], d['C'], n)) if v.size == d['L'] * d['C'] * n else np.zeros((1, 1, 1))
            if kind == 'm':
                obs.append(dict(prm=p, c=j + 1, D=n, a=cells(arr, modes[j])))
            elif k > 0 and info[k - 1] == 's':
                sobs.append(dict(prm=p, c=j + 1, D=n, a=cells(arr - prev.get(p, 0), modes[j])))
            elif k > 1 or p in prev:
                pass
            if kind == 's':
                prev[p] = arr
        if sobs:
            ev.append(dict(op='step', obs=sobs, sens=[]))
        ev.append(dict(op='step', obs=obs, sens=sn))
    return ev


def run_env(d):
    rng = rng_for('env', d['cid'])
    try:
        with limit(20):
            ev = env_direct(d, rng) if d['how'] == 'direct' else env_sim(d, rng)
    except Exception as ex:
        ev = [dict(op='crash', why=f'{type(ex).__name__}: {ex}'[:300])]
    return dict(id=d['cid'], conds=d['conds'], share=bool(d['share']), L=d['L'], C=d['C'], ev=ev, _desc=d['how'])


# ------------------------------------------------------------------ initial states
def run_init(cid):
    rng = rng_for('init', cid)
    ev, prms = [], []
    try:
        with limit(20):
            nd = rng.randint(1, 3)
            P, modes, names = {}, {}, []
            for k in range(nd):
                cfg = rand_cfg(rng)
                n = f'p{k}'
                modes[n] = Mode(cfg['type'])
                names.append(n)
                unis = [rng.choice([0, 1, 1, 7]) for _ in range(rng.randint(1, 3))]
                mk = lambda u: (FailMechMdl if rng.random() < .3 else DegMechMdl)(eqn(['time', 'r'], [f'return {u} + r * time']), unitary_val=u, r=LatentVar(dev_vrtn_mdl=Script([1, 2, 3])))
                style = rng.choice(['default', 'eqn', 'scalar'])
                var = mkvar(cfg, modes[n], False)
                if style == 'default':
                    im = InitValMdl(init_val=var)
                else:
                    im = InitValMdl(eqn(['v'], ['return v'] if style == 'eqn' else ['if v < -1:', '    return 0.0', 'return v']), v=var)
                P[n] = DegPrmMdl({f'm{j}': mk(u) for j, u in enumerate(unis)}, im, w=LatentVar(dev_vrtn_mdl=Script([1, 2])))
                prms.append(dict(kind='deg', args=[], cfg=cfg, unis=[1000 * u for u in unis], name=n))
            for k in range(rng.randint(0, 2)):
                args = sorted(rng.sample(range(nd), rng.randint(1, nd)))
                P[f'q{k}'] = CircPrmMdl(eqn([f'p{a}' for a in args] + ['z'], ['return z + ' + ' + '.join(f'p{a}' for a in args)]), z=LatentVar(dev_vrtn_mdl=Script([1, 2, 3])))
                prms.append(dict(kind='circ', args=[a + 1 for a in args], cfg=rand_cfg(rng), unis=[], name=f'q{k}'))
            order = list(range(len(prms)))
            rng.shuffle(order)
            pos = {o: k + 1 for k, o in enumerate(order)}
            prms = [dict(prms[o], args=[pos[a - 1] for a in prms[o]['args']]) for o in order]
            dev = DeviceMdl({p['name']: P[p['name']] for p in prms})
            for _ in range(rng.randint(1, 4)):
                L, C = rng.randint(1, 3), rng.randint(1, 3)
                req = {p['name']: rng.randint(1, 4) for p in prms if rng.random() < .6}
                if not req:
                    req = {prms[0]['name']: 2}
                items = list(req.items())
                rng.shuffle(items)
                req = dict(items)
                if rng.random() < .3:
                    req['temp'] = rng.randint(1, 3)
                kw = {}
                want = [0, 0, 0]
                x = rng.random()
                if x < .4:
                    want = [rng.randint(0, 30), rng.randint(0, 86399), rng.randint(0, 999999)]
                    kw['elapsed_time'] = td(want)
                elif x < .6:
                    h = rng.choice([0, 1, 25, 100, 0.5])
                    kw['elapsed_time'] = h
                    want = triple(timedelta(hours=h))
                before = dict(req)
                rep = None
                if rng.random() < .4:
                    rep = SimReport(TestSpec([MeasSpec(req, {'temp': 1})], C, L))
                    s = gerabaldi.gen_init_state(dev, quantity_info=rep, **kw)
                else:
                    if C == 1 and L == 1 and rng.random() < .5:
                        s = gerabaldi.gen_init_state(dev, req, **kw)
                    else:
                        s = gerabaldi.gen_init_state(dev, req, C, L, **kw)
                got = []
                for p in prms:
                    n = p['name']
                    g = dict(there=True, L=0, C=0, D=0, a=[], mechs=[], flat=True, same=True, latok=True)
                    if p['kind'] == 'circ':
                        z = s.latent_var_vals.get(n, {}).get('z')
                        g['latok'] = n not in req or (z is not None and z.shape[:2] == (L, C) and z.shape[2] >= req[n])
                    elif n not in s.init_prm_vals:
                        g['there'] = False
                    else:
                        a = s.init_prm_vals[n]
                        g['L'], g['C'], g['D'] = a.shape
                        g['a'] = cells(a, modes[n])
                        mv = s.init_deg_mech_vals[n]
                        for j in range(len(p['unis'])):
                            x = np.full(a.shape, mv[f'm{j}'])
                            g['mechs'].append(milli(x.flat[0]))
                            g['flat'] &= bool(np.all(x == x.flat[0])) and bool(np.all(s.curr_deg_mech_vals[n][f'm{j}'] == x))
                            g['latok'] &= s.latent_var_vals[n][f'm{j}']['r'].shape == a.shape
                        g['latok'] &= s.latent_var_vals[n]['w'].shape == a.shape
                        g['same'] = s.curr_prm_vals[n].shape == a.shape and bool(np.all(s.curr_prm_vals[n] == a))
                    got.append(g)
                ev.append(dict(op='init', req=[before.get(p['name'], 0) for p in prms], L=L, C=C, got=got, elapsed=triple(s.elapsed), want=want, kept=req == before))
            if rng.random() < .3:
                try:
                    gerabaldi.gen_init_state(dev)
                    r = 'none'
                except Exception as ex:
                    r = type(ex).__name__
                ev.append(dict(op='noinit', res=r))
    except Exception as ex:
        ev.append(dict(op='crash', why=f'{type(ex).__name__}: {ex}'[:300]))
    return dict(id=cid, prms=[{k: v for k, v in p.items()} for p in prms], ev=ev, _desc=cid)


def sim_part(prop, res, scratch, n):
    cases = pmap(drv_sim.run_case, drv_sim.random_jobs(prop, n), timeout=3000)
    validate(res, 'SimTrace', cases, scratch, lambda c: c == 'crash' or c.startswith(SIMCL[prop]), chunk=3000)


def check(prop, res, scratch):
    quick = TIER == 'quick'
    dec = lambda c: c == 'crash' or c.startswith(CLAUSES[prop])
    rng = rng_for('layers', prop)
    out, gen, distinct = run_tlc('LayersMC', scratch, env={'MAXOPS': 2 if quick else 3})
    res.add_design('LayersMC', gen, distinct)
    if prop == 'C11':
        seqs = gen_lines(out)
        rng.shuffle(seqs)
        jobs = [(f'gen-{k}', False, s) for k, s in enumerate(seqs[:2500 if quick else 30000])]
        envs = [s for s in seqs if s[0]['cfg']['base'] and all(o.get('b', 1) for o in s)]
        jobs += [(f'genenv-{k}', True, s) for k, s in enumerate(envs[:1200 if quick else 15000])]
        res.extra['spec_generated_sequences'] = len(jobs)
        jobs += [random_reconf(rng, f'rnd-{k}') for k in range(800 if quick else 10000)]
        cases = pmap(run_reconf, jobs, timeout=3000)
    elif prop == 'C10':
        size = lambda: (rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 5))
        cfgs = [dict(type=t, base=b, lot=l, chp=c, dev=d) for t in ('scaling', 'offset') for b in (0, 3, 9) for l in (0, 1) for c in (0, 1) for d in (0, 1) if b or d]
        jobs = [(f'cfg-{k}', c, [size() for _ in range(4)]) for k, c in enumerate(cfgs)]
        jobs += [(f'rnd-{k}', rand_cfg(rng), [size() for _ in range(rng.randint(1, 4))]) for k in range(400 if quick else 6000)]
        cases = pmap(run_shape, jobs, timeout=3000)
        sim_part(prop, res, scratch, 250 if quick else 4000)
    elif prop == 'C12':
        cases = pmap(run_env, [env_desc(rng, f'env-{k}') for k in range(900 if quick else 12000)], timeout=3000)
        sim_part(prop, res, scratch, 250 if quick else 4000)
    else:
        cases = pmap(run_init, [f'init-{k}' for k in range(600 if quick else 9000)], timeout=3000)
        sim_part(prop, res, scratch, 250 if quick else 4000)
    validate(res, 'LayersTrace', cases, scratch, dec, chunk=4000)
    res.assumptions += ['draws are made distinguishable by coded distributions; populations of at most 4 lots x 4 chips x 5 devices']
