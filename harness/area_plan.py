"""C14, C22: test plans and the cookbook (spec/Plan.tla)."""
from common import *
from gb import *
from gerabaldi import cookbook

CLAUSES = {'C14': ('plan.', 'loop.'), 'C22': ('htol.', 'env.', 'mech.')}
FACT = {'days': 86400000000, 'd': 86400000000, 'hours': 3600000000, 'h': 3600000000, 'seconds': 1000000, 's': 1000000,
        'milliseconds': 1000, 'ms': 1000, 'microseconds': 1, 'us': 1, None: 3600000000}
PN = ['pa', 'pb', 'pc']


def us(t):
    return (t[0] * 86400 + t[1]) * 1000000 + t[2]


def span(u):
    return [u // 86400000000, u // 1000000 % 86400, u % 1000000]


class Plan:
    """Runs plan operations on a real TestSpec and records what can be observed afterwards."""
    def __init__(self, lib, np_, rng, alias=False, nested=False):
        self.alias, self.nested = alias, nested
        self.lib, self.np, self.rng, self.ev, self.lists = lib, np_, rng, [], []
        self.objs, self.copy = [], []
        for k, s in enumerate(lib):
            if s['k'] == 's':
                c = {'temp': 300 + k}
                o = StrsSpec(c, td(s['dur']), f's{k}')
                self.copy.append(lambda o=o, c=dict(c), s=s, k=k: o.conditions == c and triple(o.duration) == list(s['dur']) and o.name == f's{k}')
            else:
                m = {PN[j]: n for j, n in enumerate(s['counts']) if n}
                o = MeasSpec(m, {'temp': 250 + k}, f'm{k}')
                self.copy.append(lambda o=o, m=dict(m), k=k: o.measurements == m and o.conditions == {'temp': 250 + k} and o.name == f'm{k}')
            self.objs.append(o)
        self.spec = None

    def ids(self, seq):
        return [next((k + 1 for k, o in enumerate(self.objs) if o is s), 0) for s in seq]

    def look(self, **e):
        part = self.rng.randint(0, 3)
        for k, _ in enumerate(self.spec):
            if k >= part:
                break
        it = self.ids(list(self.spec)) if not self.nested else self.within()
        again = self.ids([s for s in self.spec])
        need = self.spec.calc_samples_needed()
        self.ev.append(dict(plan=self.ids(self.spec.steps), iter=it, again=again, libok=all(f() for f in self.copy),
                            samples=[int(need.get(PN[j], 0)) for j in range(self.np)] if set(need) <= set(PN) else [-1], **e))

    def within(self):
        """The steps of an iteration in whose course the plan is iterated again."""
        it = []
        try:
            for s in self.spec:
                it.append(s)
                list(self.spec)
        except Exception:
            return self.ids(it) + [-1]
        return self.ids(it)

    def arg(self, g):
        if len(g) == 1 and self.rng.random() < .5:
            return self.objs[g[0] - 1]
        ls = [self.objs[k - 1] for k in g]
        self.lists.append(ls)
        return ls

    def new(self, g):
        if not g and self.rng.random() < .5:
            self.spec = TestSpec()
        else:
            ls = [self.objs[k - 1] for k in g]
            if self.alias:       # the list handed to the constructor is used further by the caller
                self.lists.append(ls)
            self.spec = TestSpec(ls)
        self.look(op='new', g=g)

    def append(self, g):
        res = 'ok'
        try:
            self.spec.append_steps(self.arg(g))
        except Exception as ex:
            res = type(ex).__name__
        self.look(op='append', g=g, res=res)

    def loop(self, g, t):
        """The loop duration is handed over as a time span or as a number in some unit."""
        u = us(t)
        fits = [k for k, f in FACT.items() if u % f == 0]
        kw, dur = {}, td(t)
        if self.rng.random() < .6:
            name = self.rng.choice(fits)
            dur = u // FACT[name]
            if self.rng.random() < .3:
                dur = float(dur)
            if name is not None:
                kw = dict(time_unit=name)
        elif u % 1800000000 == 0 and self.rng.random() < .3:
            dur, kw = u / 3600000000, dict(time_unit='h')
        elif self.rng.random() < .3:
            # a fraction of a unit
            name = self.rng.choice(sorted(k for k in FACT if k))
            if u / FACT[name] < 1e6 and timedelta(microseconds=FACT[name]) * (u / FACT[name]) == td(t):
                dur, kw = u / FACT[name], dict(time_unit=name)
        res = 'ok'
        try:
            with limit(5):
                self.spec.append_steps(self.arg(g), loop_for_duration=dur, **kw)
        except UserWarning:
            res = 'warn'
        except gexc.UserConfigError:
            res = 'reject'
        except Exception as ex:
            res = type(ex).__name__
            if len(self.spec.steps) > 100000:
                self.spec.steps = self.spec.steps[:50]
        self.look(op='loop', g=g, t=list(t), res=res)

    def mutate(self):
        if self.lists:
            ls = self.rng.choice(self.lists)
            if self.rng.random() < .5:
                ls.append(self.objs[0])
            else:
                ls.clear()
        self.look(op='mutate')


def run_plan(job):
    cid, lib, np_, ops = job
    rng = rng_for('planrun', cid)
    p = Plan(lib, np_, rng, cid == 'kf-alias', cid == 'kf-nested')
    try:
        with limit(20):
            for o in ops:
                if o['op'] == 'new':
                    p.new(o['g'])
                elif o['op'] == 'append':
                    p.append(o['g'])
                elif o['op'] == 'loop':
                    p.loop(o['g'], o['t'])
                elif o['op'] == 'mutate':
                    p.mutate()
                else:
                    p.look(op='read')
    except Exception as ex:
        p.ev.append(dict(op='crash', why=f'{type(ex).__name__}: {ex}'[:300]))
    return dict(id=cid, lib=lib, np=np_, strict=cid.startswith('kf-'), ev=p.ev, _desc=ops)


GENLIB = [dict(k='s', dur=[0, 3600, 0]), dict(k='s', dur=[0, 5400, 0]), dict(k='m', counts=[2, 0]), dict(k='m', counts=[1, 3])]


def random_plan(rng, cid):
    np_ = rng.randint(1, 3)
    lib = []
    f = rng.choice([1, 1000, 1000000, 3600000000, 1800000000, 86400000000])
    for k in range(rng.randint(2, 6)):
        if k == 0 or rng.random() < .5:
            d = rng.randint(1, 12) * f
            if rng.random() < .2:
                d += rng.choice([1, 500, -1]) if d > 1 else 1
            lib.append(dict(k='s', dur=span(d)))
        else:
            lib.append(dict(k='m', counts=[rng.choice([0, 1, 1, 2, 3, 7]) for _ in range(np_)]))
    grp = lambda lo: [rng.randint(1, len(lib)) for _ in range(rng.randint(lo, 4))]
    ops = [dict(op='new', g=grp(0))]
    for _ in range(rng.randint(2, 7)):
        x = rng.random()
        if x < .3:
            ops.append(dict(op='append', g=grp(0)))
        elif x < .8:
            g = grp(0)
            per = sum(us(lib[k - 1]['dur']) for k in g if lib[k - 1]['k'] == 's')
            if rng.random() < .2:
                g = [k for k in g if lib[k - 1]['k'] == 'm']
            t = per * rng.randint(1, 6) if per else f
            y = rng.random()
            if y < .2:
                t = max(t + rng.choice([1, -1]), 1)
            elif y < .4:
                t = max(1, rng.randint(1, 6) * f)
            elif y < .5:
                t = per // rng.choice([2, 3, 4]) or 1     # the target is a fraction of one group
            elif y < .57:
                t = 0
            if per and t // per > 60:
                t = per * 3
            if per and rng.random() < .02:      # many repetitions
                t = per * rng.randint(100, 400)
            ops.append(dict(op='loop', g=g, t=span(t)))
        elif x < .9:
            ops.append(dict(op='mutate'))
        else:
            ops.append(dict(op='read'))
    return (cid, lib, np_, ops)


# ------------------------------------------------------------------ cookbook
def htol_event(rng):
    """One call of the prebuilt test, with some arguments left at their documented defaults."""
    a = dict(vdd=1000, mult=1200, intrvl=1000, dur=1000, chps=77, lots=3, temp=125)
    dur = rng.choice([1, 2, 7, 12, 24, 100, 168, 500, 720, 1000, 1500, 2000])
    div = [x for x in range(1, dur + 1) if dur % x == 0 and dur // x <= 30]
    new = dict(vdd=rng.choice([800, 900, 1000, 1100, 1800, 5000]), mult=rng.choice([1000, 1100, 1200, 1250, 1500, 2000]), dur=dur,
               intrvl=rng.choice(div + [rng.randint(1, dur * 2) for _ in range(3)]), chps=rng.randint(1, 99), lots=rng.randint(1, 5), temp=rng.choice([85, 105, 125, 150, -40, 0]))
    names = dict(vdd='vdd_nom', mult='vdd_strs_mult', intrvl='strs_meas_intrvl', dur='duration_override', chps='num_chps_override', lots='num_lots_override', temp='temp_override')
    kw = {}
    for k in new:
        if rng.random() < .6:
            a[k] = new[k]
            kw[names[k]] = new[k] / 1000 if k in ('vdd', 'mult') else new[k]
    if a['dur'] // a['intrvl'] > 100:
        a['intrvl'] = kw['strs_meas_intrvl'] = a['dur']
    a['meas'] = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
    to = {PN[k]: n for k, n in enumerate(a['meas'])}
    e = dict(op='htol', a=a, res='ok', rows=[], meas=[], chps=0, lots=0)
    try:
        t = cookbook.htol(dict(to), **kw)
        for s in t:
            k = 'm' if type(s) is MeasSpec else 's' if type(s) is StrsSpec else 'x'
            h = s.duration.total_seconds() / 3600 if k == 's' else 0
            if set(s.conditions) != {'temp', 'vdd'}:
                k = 'x'
            e['rows'].append([k, int(h) if h == int(h) else -1, milli(s.conditions.get('temp', 0), 100), milli(s.conditions.get('vdd', 0), 1000000)])
            if k == 'm':
                e['meas'].append([s.measurements.get(PN[j], 0) for j in range(len(a['meas']))] if set(s.measurements) <= set(to) else [-1])
        e['chps'], e['lots'] = t.num_chps, t.num_lots
    except Exception as ex:
        e['res'] = type(ex).__name__
    return e


def fig(name, got, want, tol):
    return dict(name=name, got=milli(got, 1), want=int(round(want)), tol=int(round(tol)))


def env_figs(rng, n=60):
    """Figures of the prebuilt environments, in millionths; spread figures with wide statistical tolerances."""
    figs = []
    ideal = cookbook.ideal_env()
    mdl = lambda: DeviceMdl({'pa': DegPrmMdl({'k': DegMechMdl(eqn(['time', 'temp', 'vdd', 'r'], ['return time * temp * vdd * r']), r=LatentVar(deter_val=1.0))},
                                             InitValMdl(init_val=LatentVar(deter_val=0.0)), CondShiftMdl(eqn(['temp', 'vdd'], ['return temp + 1000 * vdd'])))})
    t, v = rng.choice([233.15, 298.15, 398.15]), rng.choice([0.8, 1.0, 1.25])
    ms = MeasSpec({'pa': 3, 'temp': 2, 'vdd': 2}, {'temp': t, 'vdd': v})
    rep = gerabaldi.simulate(TestSpec([ms], 2, 2), mdl(), ideal)
    m = rep.measurements
    for prm, want in (('pa', t + 1000 * v), ('temp', t), ('vdd', v)):
        for x in m[m['param'] == prm]['measured']:
            figs.append(fig('ideal', x * 1e3 if prm == 'pa' else x * 1e6, want * (1e3 if prm == 'pa' else 1e6), 0))
    # stress conditions in the ideal environment
    rep = gerabaldi.simulate(TestSpec([MeasSpec({'pa': 2}, {'temp': 0, 'vdd': 0}), StrsSpec({'temp': t, 'vdd': v}, timedelta(hours=1000)), MeasSpec({'pa': 2}, {'temp': 0, 'vdd': 0})], 2, 1), mdl(), ideal)
    for x in rep.measurements['measured'][-4:]:
        figs.append(fig('ideal', x * 1e3, t * v * 1e6, 2000))
    figs.append(fig('ideal', ideal.meas_instm('pa').measure(np.array([1.23456789]))[0] * 1e6, 1234567.89, 1))
    # voltage and temperature environment: the conditions devices see
    env = cookbook.volt_and_temp_env()
    B, C, D = 400, 24, 24
    for cond, base, sb, sc, sd in (('temp', 398.15, .5, .2, .05), ('vdd', 1.2, 0, .0005, .0003)):
        k = 1e6 if cond == 'vdd' else 1e4
        x = np.array([env.gen_env_cond_vals({'temp': 398.15, 'vdd': 1.2}, {'pa': D}, None, mdl(), 'measure', C, 1)['pa'][cond][0] for _ in range(B)]) * k
        chip = x.mean(axis=2)
        bat = chip.mean(axis=1)
        sd_dev = np.sqrt(((x - chip[:, :, None]) ** 2).sum() / (B * C * (D - 1)))
        sd_chp = np.sqrt(max(((chip - bat[:, None]) ** 2).sum() / (B * (C - 1)) - sd_dev ** 2 / D, 0))
        sd_bat = np.sqrt(max(bat.var(ddof=1) - (sd_chp ** 2) / C, 0))
        figs.append(fig(cond + '.dev', sd_dev, sd * k, sd * k * .05))
        figs.append(fig(cond + '.chip', sd_chp, sc * k, sc * k * .1))
        figs.append(fig(cond + '.batch', sd_bat, sb * k, sb * k * .25 if sb else sc * k * .15))
        figs.append(fig(cond + '.centre', bat.mean(), base * k, max(sb, sc) * k * .4))
    # the instruments, on exactly known values
    N = 20000
    ti, vi = env.meas_instm('temp'), env.meas_instm('vdd')
    # a value near 0 degrees shows the error: two significant figures resolve 0.1 and below there
    y = np.asarray(ti.measure(np.full(N, 273.15 + 5))) * 1e4
    figs += [fig('temp.celsius', y.mean(), 5e4, 100), fig('temp.error', y.std(), np.sqrt(2000 ** 2 + 1000 ** 2 / 12), 120)]
    y = np.asarray(ti.measure(np.full(N, 273.15 + 126)))
    figs += [fig('temp.figures', 1e3 * np.abs(y / 10 - np.round(y / 10)).max(), 0, 0), fig('temp.figures', 1e3 * np.median(y), 130e3, 0)]
    for tv, want in ((500, 180), (100, -40), (273.15 + 182, 180), (273.15 - 44, -40)):
        figs.append(fig('temp.range', np.median(ti.measure(np.full(99, tv))) * 1e6, want * 1e6, 0))
    y = np.asarray(vi.measure(np.full(N, 0.2))) * 1e7     # three figures resolve 1 mV here: error barely visible
    y = np.asarray(vi.measure(np.full(N, 0.05))) * 1e7    # 0.1 mV
    figs += [fig('vdd.error', y.std(), np.sqrt(2000 ** 2 + 1000 ** 2 / 12), 120), fig('vdd.centre', y.mean(), 5e5, 100)]
    y = np.asarray(vi.measure(np.full(N, 1.2345)))
    figs += [fig('vdd.figures', 1e3 * np.abs(y * 100 - np.round(y * 100)).max(), 0, 0), fig('vdd.figures', 1e6 * np.median(y), 1.23e6, 0)]
    for tv, want in ((13.1, 12), (-1, 0), (12.06, 12)):
        figs.append(fig('vdd.range', np.median(vi.measure(np.full(99, tv))) * 1e6, want * 1e6, 0))
    # other measurements are not affected
    figs.append(fig('other', env.meas_instm('pa').measure(np.array([1.23456789]))[0] * 1e6, 1234567.89, 1))
    o = env.gen_env_cond_vals({'humidity': 37.5}, {'humidity': 3})['humidity']['humidity']
    figs += [fig('other', x * 1e6, 37.5e6, 0) for x in np.ravel(o)]
    # the prebuilt NBTI mechanism: power laws of the published equation, medians of a large population
    return dict(op='figs', figs=figs)


def mech_figs(rng):
    """Scaling of the prebuilt NBTI mechanism: A0 exp(Ea/kT) V^alpha t^n around the documented centres."""
    figs = []
    mech = cookbook.jedec_nbti_mdl()
    dev = DeviceMdl({'pa': DegPrmMdl(mech if rng.random() < .5 else {'nbti': mech}, InitValMdl(init_val=LatentVar(deter_val=0.0)))})
    for t, v, h in ((398.15, 1.2, 1000), (300.0, 1.0, 1), (330.0, 0.8, 100), (233.15, 1.1, 10), (rng.uniform(220, 450), rng.uniform(.5, 3), rng.choice([.5, 7, 3000]))):
        want = 0.006 * np.exp(0.05 / (8.617e-5 * t)) * v ** 3.4 * h ** 0.21
        z = dict(temp=0, vdd=0)
        rep = gerabaldi.simulate(TestSpec([StrsSpec(dict(temp=t, vdd=v), timedelta(hours=h)), MeasSpec({'pa': 400}, dict(temp=t, vdd=v))], 5, 1), dev, cookbook.ideal_env())
        y = rep.measurements['measured']
        figs.append(fig('mech.nbti', np.median(y) * 1e8, want * 1e8, want * 1e8 * .01))
    return dict(op='figs', figs=figs)


def run_cook(job):
    cid, kind, n = job
    rng = rng_for('cook', cid)
    ev = []
    try:
        with limit(60), fixed_generators(cid):
            if kind == 'htol':
                ev = [htol_event(rng) for _ in range(n)]
            elif kind == 'env':
                ev = [env_figs(rng)]
            else:
                ev = [mech_figs(rng)]
    except Exception as ex:
        ev.append(dict(op='crash', why=f'{type(ex).__name__}: {ex}'[:300]))
    return dict(id=cid, lib=[], np=0, ev=ev, _desc=kind)


def check(prop, res, scratch):
    quick = TIER == 'quick'
    dec = lambda c: c == 'crash' or c.startswith(CLAUSES[prop])
    out, gen, distinct = run_tlc('PlanMC', scratch, env={'MAXOPS': 2 if quick else 3, 'GENLEN': 2})
    res.add_design('PlanMC', gen, distinct)
    if prop == 'C14':
        rng = rng_for('plan', prop)
        pre = lambda k: [dict(op='new', g=[[], [1], [3, 1]][k % 3])]
        jobs = [(f'gen-{k}', GENLIB, 2, pre(k) + ops + [dict(op='mutate')]) for k, ops in enumerate(gen_lines(out))]
        res.extra['spec_generated_sequences'] = len(jobs)
        # recorded findings, see known_findings.txt
        jobs += [('kf-alias', GENLIB, 2, [dict(op='new', g=[3]), dict(op='mutate')]),
                 ('kf-nested', GENLIB, 2, [dict(op='new', g=[3, 1, 4])]),
                 ('kf-multiple', GENLIB, 2, [dict(op='new', g=[]), dict(op='loop', g=[1, 3, 1], t=[0, 3600, 0])])]
        jobs += [random_plan(rng, f'rnd-{k}') for k in range(2000 if quick else 30000)]
        cases = pmap(run_plan, jobs, timeout=400 if quick else 3000)
        res.assumptions += ['steps are MeasSpec and StrsSpec objects with positive durations; loops of at most 400 repetitions']
    else:
        jobs = [(f'htol-{k}', 'htol', 25) for k in range(40 if quick else 400)]
        jobs += [(f'env-{k}', 'env', 0) for k in range(8 if quick else 16)] + [(f'mech-{k}', 'mech', 0) for k in range(3 if quick else 12)]
        cases = pmap(run_cook, jobs, timeout=400 if quick else 3000)
        res.assumptions += ['spreads of the prebuilt environment are estimated from samples, with tolerances of many standard errors']
    validate(res, 'PlanTrace', cases, scratch, dec, chunk=4000)
