"""C06 and C07: sessions of simulations that share their inputs (spec/Session.tla)."""
import json, os, subprocess, sys
from common import *
from gb import *
import drv_sim
from drv_sim import CN, td, split_us


# ------------------------------------------------------------------ digests of what the user holds
def plain(x):
    if isinstance(x, np.ndarray):
        return ['array', list(x.shape), [repr(v) for v in x.ravel().tolist()]]
    if isinstance(x, dict):
        return ['dict'] + [[str(k), plain(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return repr(x)


def rv(r):
    """A distribution: its type and parameters."""
    return [type(r).__name__] + [[a, repr(getattr(r, a))] for a in ('name', 'mu', 'sigma', 'alpha', 'beta', 'start', 'stop', 'value') if hasattr(r, a)]


def lv(v):
    return [repr(v.name), v.vrtn_type, repr(v.deter_val), rv(v.dev_vrtn_mdl), rv(v.chp_vrtn_mdl), rv(v.lot_vrtn_mdl)]


def mdl(m):
    return [type(m).__name__, repr(m.name), id(m.compute), [[v, lv(m.latent_var(v))] for v in m.latent_vars],
            repr(getattr(m, 'unitary', None)), repr(getattr(m, 'time_unit', None))]


def dig_model(dev):
    out = [repr(dev.name), repr(dev.time_unit)]
    for p in dev.prm_mdl_list:
        m = dev.prm_mdl(p)
        out.append([p, mdl(m)])
        if hasattr(m, 'mech_mdl_list'):
            out += [[p, k, mdl(m.mech_mdl(k))] for k in m.mech_mdl_list]
            out += [mdl(m.init_mdl), mdl(m.cond_mdl)]
    return out


def dig_step(s):
    return [id(s), type(s).__name__, s.name, plain(s.conditions), plain(getattr(s, 'measurements', None)), repr(getattr(s, 'duration', None))]


def dig_plan(t):
    return [t.name, t.description, t.num_chps, t.num_lots, [dig_step(s) for s in t], plain(t.calc_samples_needed())]


def dig_env(env, prms):
    out = [repr(env.name)]
    for c in CN:
        v = env.vrtn_mdl(c)
        out.append([c, repr(v.name), v.vrtn_type, rv(v.dev_vrtn_mdl), rv(v.chp_vrtn_mdl), rv(v.batch_vrtn_mdl)])
    for p in prms:
        i = env.meas_instm(p)
        probe = pd.Series([0.0, 1.23456789, -987.654321, 5e5])
        out.append([p, repr(i.name), plain(i.measure(probe).tolist())])
    return out


def dig_state(s):
    return [repr(s.elapsed), plain(s.curr_prm_vals), plain(s.init_prm_vals), plain(s.curr_deg_mech_vals), plain(s.init_deg_mech_vals), plain(s.latent_var_vals)]


def dig_table(d):
    f = lambda v: f'{v:.9e}' if isinstance(v, float) else repr(v)
    return [[str(c)] + [f(v) for v in d[c].tolist()] for c in d.columns]


def dig_report(r):
    return [r.test_name, r.test_description, r.num_chps, r.num_lots, dig_table(r.measurements), dig_table(r.test_summary)]


# ------------------------------------------------------------------ what is run
def seeded(desc, rng_seed, seed):
    """A setup in which everything varies, all of it seeded; rebuilt from scratch on every call."""
    r = rng_for('seeded', rng_seed)
    nxt = [seed]

    def sd():
        nxt[0] += r.choice([0, 0, 1])
        return nxt[0]

    old = {}

    def layer(c, s):
        k = r.random()
        if (c, s) in old and r.random() < .15:       # one distribution used in several places
            return old[c, s]
        old[c, s] = Normal(c, s, test_seed=sd()) if k < .6 else Uniform(c - s, c + s, test_seed=sd()) if k < .8 else Gamma(4, 4 / max(c, .1), test_seed=sd())
        return old[c, s]

    def lat(c):
        return LatentVar(dev_vrtn_mdl=layer(c, c / 10), chp_vrtn_mdl=layer(1, .05) if r.random() < .5 else None,
                         lot_vrtn_mdl=layer(1, .05) if r.random() < .5 else None)
    mdls = {}
    for k in range(r.randint(1, 3)):
        mechs = {'m1': DegMechMdl(eqn(['time', 'ca', 'cb', 'cc', 'r'], ['return r * np.abs(ca + 2 * cb + 3 * cc) * time']), r=lat(2.0))}
        if r.random() < .4:
            mechs['m2'] = FailMechMdl(eqn(['time', 'ca', 'f'], ['return np.where(f * np.abs(ca) * time > 3, 50.0, 0.0)']), f=lat(.5))
        mdls[f'p{k + 1}'] = DegPrmMdl(mechs, InitValMdl(init_val=lat(10.0)),
                                      CondShiftMdl(eqn(['cb', 'cc', 's'], ['return (2 * cb + cc) * s']), s=lat(.3)) if r.random() < .5 else None)
    if r.random() < .5:
        mdls['q1'] = CircPrmMdl(eqn(['p1', 'z'], ['return p1 * z']), z=lat(1.5))
    vr = {c: EnvVrtnMdl(dev_vrtn_mdl=layer(0, .1), chp_vrtn_mdl=layer(0, .1) if r.random() < .5 else None,
                        batch_vrtn_mdl=layer(0, .1) if r.random() < .5 else None) for c in CN if r.random() < .7}
    ins = {p: MeasInstrument(error=layer(0, .01), precision=r.choice([None, 5])) for p in mdls if r.random() < .5}
    for d in (vr, ins):        # one object for several conditions or parameters
        if len(d) > 1 and r.random() < .5:
            ks = list(d)
            d[ks[1]] = d[ks[0]]
    env = PhysTestEnv(vr, ins)
    steps = []
    for k in range(r.randint(2, 5)):
        cd = {c: float(r.randint(1, 5)) for c in CN}
        if r.random() < .5:
            steps.append(StrsSpec(cd, r.choice([1, 5, timedelta(hours=3)]), f's{k}'))
        else:
            m = {p: r.randint(1, 3) for p in mdls if r.random() < .8} or {'p1': 2}
            if r.random() < .4:
                m['ca'] = 2
            steps.append(MeasSpec(m, cd, f'm{k}'))
    steps.append(MeasSpec({p: 2 for p in mdls}, {c: 1.0 for c in CN}, 'last'))
    return TestSpec(steps, r.randint(1, 3), r.randint(1, 2), name='seeded'), DeviceMdl(mdls), env


def constant(desc):
    """The description with every latent variable reduced to a constant."""
    import copy
    d = copy.deepcopy(desc)

    def flat(lay, kind):
        if lay:
            v = (lay['dev'] or [1])[0]
            lay.update(base=v, dev=None, chp=None, lot=None)
    for p in d['prms']:
        if p['kind'] == 'deg':
            flat(p['init'], 'offset')
            for k in ('w', 'slat'):
                flat(p.get(k), k)
            for m in p['mechs']:
                flat(m['lat'], 'scaling')
                for k in ('h', 'g'):
                    if m.get(k):
                        m[k] = m[k][:1]
        else:
            flat(p['lat'], 'offset')
    return d


class Sess:
    def __init__(self, cid, desc, rng):
        self.rng, self.desc, self.ids = rng, desc, Ids()
        P = [p['name'] for p in desc['prms']]
        self.P = P
        n = [max([k] + [t['counts'][x] for t in desc['T'] if t['op'] == 'meas']) for x, k in enumerate(desc['n'])]
        for x, p in enumerate(desc['prms']):
            for a in p.get('args', []):
                n[a - 1] = max(n[a - 1], n[x])
        T = list(desc['T'])
        for k in range(2):       # further ways to measure
            cnt = [rng.randint(0, x) for x in n]
            if not any(cnt):
                cnt[rng.randrange(len(cnt))] = 1
            T.append(dict(op='meas', conds=[rng.randint(0, 9), rng.randint(0, 5), 4], counts=cnt, sens=[rng.choice([0, 2]), 0, 0],
                          name=f'more{k}', order=rng.sample(range(len(P) + 3), len(P) + 3)))
        self.T = T
        self.objs = drv_sim.step_objs({**desc, 'T': T})
        self.tab = [dict(op=t['op'], conds=t['conds']) for t in T]
        cd = {CN[0]: 1, CN[1]: 1}
        self.objs += [MeasSpec({P[0]: 1, 'nosuch': 1}, cd, 'undefined'), MeasSpec({'nosuch': 2}, dict(cd), 'undefined')]
        self.tab += [dict(op='bad', conds=[1, 1, -1])] * 2
        # setup 0: explicit state; setup 1: everything constant, state generated by the simulation
        _, self.dev = drv_sim.build(desc)
        kw = {'elapsed_time': td(split_us(desc['elapsed']))} if desc['elapsed'] else {}
        self.state = gerabaldi.gen_init_state(self.dev, {p: k for p, k in zip(P, n)}, desc['chps'], desc['lots'], **kw)
        _, self.cdev = drv_sim.build(constant(desc))
        ins = {p: MeasInstrument(precision=rng.choice([2, 3, None]), meas_lims=rng.choice([None, (-1, 1), (0, 100)]),
                                 error=rng.choice([None, Deterministic(.5)])) for p in P + CN if rng.random() < .5}
        self.measured_ideally = [set(P + CN), set(P + CN) - set(ins)]
        v = {c: rng.random() < .6 for c in CN}
        same = rng.getrandbits(30)
        self.envs = []
        for e in range(2):
            for i in range(2):
                rng2 = rng_for('env', same)
                vr = {c: EnvVrtnMdl(dev_vrtn_mdl=Deterministic(rng2.choice([0, .25])), chp_vrtn_mdl=rng2.choice([None, Deterministic(.5)]),
                                    batch_vrtn_mdl=rng2.choice([None, Deterministic(.125)])) for c in CN if v[c]} if e else None
                self.envs.append(PhysTestEnv(vr, dict(ins) if i else None))
        self.plans = {}
        self.ev = []

    def plan(self, seq):
        k = tuple(seq)
        if k not in self.plans:
            kw = self.rng.choice([dict(name='plan', description='d'), dict(name=' plan', description=''), {}, dict(name='', description='two\nlines ')])
            self.plans[k] = TestSpec([self.objs[x - 1] for x in seq], self.desc['chps'], self.desc['lots'], **kw)
        return self.plans[k]

    def digests(self):
        d = [['plan', self.ids(dig_plan(self.plans[k]))] for k in sorted(self.plans)]
        d += [['plan', self.ids([dig_step(o) for o in self.objs])]]
        d += [['model', self.ids(dig_model(m))] for m in (self.dev, self.cdev)]
        d += [['env', self.ids(dig_env(e, self.P + CN))] for e in self.envs]
        d += [['state', self.ids(dig_state(self.state))]]
        return d

    def start(self):
        self.ev.append(dict(op='start', dig=self.digests()))

    def run(self, seq, setup, env, instm):
        test = self.plan(seq)
        e = dict(op='run', plan=list(seq), setup=setup, env=env, instm=instm, keyed=True, res='ok', rep=0, rows=[])
        try:
            if setup == 0:
                rep = gerabaldi.simulate(test, self.dev, self.envs[2 * env + instm], self.state)
            else:
                rep = gerabaldi.simulate(test, self.cdev, self.envs[2 * env + instm])
        except Hang:
            raise
        except Exception as ex:
            e['res'] = type(ex).__name__
        else:
            e['rep'] = self.ids(dig_report(rep))
            ideal = self.measured_ideally[instm]
            m = rep.measurements
            if len(m):
                for prm, stp, dv, ch, lo, v in zip(m['param'], m['step #'], m['device #'], m['chip #'], m['lot #'], m['measured']):
                    if prm in ideal:
                        # a value that is not part of the plan's steps cannot be keyed; leave it to the other checks
                        if 0 <= int(stp) < len(seq):
                            e['rows'].append([int(stp), self.ids([prm, repr(dv), repr(ch), repr(lo)]), self.ids(['v', f'{v:.9e}'])])
        e['dig'] = self.digests()
        self.ev.append(e)

    def seeded(self, key, seed):
        e = dict(op='run', plan=[], setup=1000 + seed, env=key, instm=0, keyed=False, res='ok', rep=0, rows=[])
        try:
            e['rep'] = self.ids(dig_report(gerabaldi.simulate(*seeded(self.desc, f'{key}', seed))))
        except Hang:
            raise
        except Exception as ex:
            e['res'] = f'{type(ex).__name__}: {ex}'[:200]
        e['dig'] = self.digests()
        self.ev.append(e)


def run(job):
    cid, desc, runs = job
    rng = rng_for('session', cid)
    s, ev = None, []
    try:
        with limit(60):
            s = Sess(cid, desc, rng)
            ns = len([t for t in s.T if t['op'] == 'stress'])
            todo = []
            if runs:      # plans from the specification: 1, 2 stress; 3, 4 measure; 5 cannot be executed
                ms = [k + 1 for k, t in enumerate(s.T) if t['op'] == 'meas']
                m = {1: 1, 2: ns, 3: ms[0], 4: ms[-1], 5: len(s.tab) - rng.randrange(2)}
                for p in runs:
                    todo.append(([m[x] for x in p], rng.choice([0, 0, 1]), rng.randrange(2), 0))
                todo += todo[:1]
            else:
                base = [k + 1 for k in desc['seq']]
                ms = [k + 1 for k, t in enumerate(s.T) if t['op'] == 'meas']
                setup = rng.choice([0, 0, 0, 1])
                env = rng.choice([0, 0, 1])
                todo.append((base, setup, env, 0))
                for _ in range(rng.randint(2, 4)):
                    v = list(base)
                    for __ in range(rng.randint(1, 5)):
                        c = rng.random()
                        mi = [k for k, x in enumerate(v) if s.tab[x - 1]['op'] == 'meas']
                        if c < .6 or not mi:
                            v.insert(rng.randint(0, len(v)), rng.choice(ms))
                        elif c < .8:
                            v.pop(rng.choice(mi))
                        else:
                            k = rng.choice(mi)
                            v.insert(k, v[k])
                    if rng.random() < .2:
                        v.insert(rng.randint(0, len(v)), len(s.tab) - rng.randrange(2))
                    if v:
                        todo.append((v, setup, env, int(rng.random() < .4)))
                todo.append(rng.choice(todo))
                todo.append(todo[0])
            for t in todo:
                s.plan(t[0])
            s.start()
            for k, t in enumerate(todo):
                s.run(*t)
            if not runs and rng.random() < .5:
                key, seed = rng.randrange(10**6), rng.choice([0, 0, 1, 7])
                s.seeded(key, seed)
                s.run(*todo[0])
                s.seeded(key, seed)
        ev = s.ev
    except Exception as ex:
        ev = ((s.ev if s else []) or [dict(op='start', dig=[])]) + [dict(op='crash', why=f'{type(ex).__name__}: {ex}'[:300])]
    return dict(id=cid, tab=s.tab if s else [], ev=ev, _desc=dict(desc=desc, runs=runs))


XKEYS = 40


def across(seed):
    """Reports of seeded setups, as another process sees them (see other_processes)."""
    out = []
    for k in range(XKEYS):
        try:
            with limit(20):
                out.append(['ok', dig_report(gerabaldi.simulate(*seeded(None, f'x{seed}-{k}', k)))])
        except Exception as ex:
            out.append([type(ex).__name__, []])
    return out


def other_processes(res, scratch):
    """The same seeded setups in separate processes, whose hash order and memory layout differ."""
    runs = []
    procs = []
    for h in (1, 2, 3):
        procs.append(subprocess.Popen([sys.executable, os.path.abspath(__file__), str(SEED)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                      env={**os.environ, 'PYTHONHASHSEED': str(h), 'PYTHONDONTWRITEBYTECODE': '1'}, cwd=scratch.path))
    for p in procs:
        try:
            out = p.communicate(timeout=600)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            raise HangError('seeded simulations in another process did not finish')
        try:
            runs.append(json.loads(out.decode().strip().splitlines()[-1]))
        except Exception:
            raise MachineryError('no answer from another process')
    cases = []
    for k in range(XKEYS):
        ids = Ids()
        ev = [dict(op='start', dig=[])]
        for r in runs:
            ev.append(dict(op='run', plan=[], setup=1000 + k, env=0, instm=0, keyed=False, res=r[k][0], rep=ids(r[k][1]), rows=[], dig=[]))
        cases.append(dict(id=f'xproc-{k}', tab=[], ev=ev, _desc=dict(seed=SEED, key=k)))
    return cases


def prefixes(prop):
    return ('twin.', 'run.') if prop == 'C06' else ('keep.', 'repro.', 'run.')


def sessions(prop, res, scratch, ngen, nrnd):
    out, gen, distinct = run_tlc('SessionMC', scratch, env={'MAXLEN': 3 if TIER == 'quick' else 4}, heap='12g')
    res.add_design('SessionMC', gen, distinct)
    rng = rng_for('sessjobs', prop)
    seqs = gen_lines(out)
    rng.shuffle(seqs)
    small = dict(nprm=(1, 2), nmech=(1, 2), lots=(1, 2), chps=(1, 2), devs=(1, 3), steps=(2, 4))
    big = dict(nprm=(1, 3), nmech=(1, 3), lots=(1, 2), chps=(1, 3), devs=(1, 3), steps=(3, 7), circ=.5, shift=.6)
    jobs = [(f'sgen-{k}', drv_sim.gen_desc(rng, small), q) for k, q in enumerate(seqs[:ngen])]
    jobs += [(f'srnd-{k}', drv_sim.gen_desc(rng, big), None) for k in range(nrnd)]
    cases = pmap(run, jobs, timeout=600 if TIER == 'quick' else 3000)
    if prop == 'C07':
        cases += other_processes(res, scratch)
    res.extra['sessions'] = len(cases)
    pre = prefixes(prop)
    validate(res, 'SessionTrace', cases, scratch, lambda c: c == 'crash' or c.startswith(pre), chunk=1000)


def check(prop, res, scratch):
    quick = TIER == 'quick'
    sessions(prop, res, scratch, 250 if quick else 2000, 250 if quick else 3000)
    res.assumptions += ['the digest of an input covers its public attributes and what its instruments measure',
                        'values are compared to ten significant digits']


if __name__ == '__main__':
    print(json.dumps(across(int(sys.argv[1]))))
