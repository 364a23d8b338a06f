"""C21: invalid requests, next to a shadow session that never sees them (spec/Errors.tla)."""
from common import *
from gb import *
import area_session as S
from drv_sim import CN
import gerabaldi.cookbook as cookbook


class World:
    """Objects a user holds; built identically for the session and its shadow."""
    def __init__(self, key, path, tag):
        r = rng_for('errworld', key)
        self.path, self.tag = path, tag
        lat = lambda c: LatentVar(dev_vrtn_mdl=Normal(c, c / 10, test_seed=r.randrange(9)), chp_vrtn_mdl=Normal(1, .1, test_seed=3) if r.random() < .5 else None)
        self.dev = DeviceMdl({
            'p1': DegPrmMdl({'m1': DegMechMdl(eqn(['time', 'ca', 'r'], ['return r * ca * time']), r=lat(2.0)),
                             'm2': FailMechMdl(eqn(['time', 'ca', 'f'], ['return np.where(f * ca * time > 40, 9.0, 0.0)']), f=lat(1.0))},
                            InitValMdl(init_val=lat(5.0)), CondShiftMdl(eqn(['cb'], ['return cb / 10']))),
            'p2': DegPrmMdl({'m1': DegMechMdl(eqn(['time', 'r'], ['return r * time ** 0.5']), r=lat(1.0))}),
            'q1': CircPrmMdl(eqn(['p1', 'p2'], ['return p1 + 2 * p2']))})
        self.counts = {'p1': 3, 'p2': 2, 'q1': 2}
        self.chps, self.lots = r.randint(1, 2), r.randint(1, 2)
        self.state = gerabaldi.gen_init_state(self.dev, dict(self.counts), self.chps, self.lots)
        self.env = PhysTestEnv({'ca': EnvVrtnMdl(dev_vrtn_mdl=Deterministic(.25))}, {'p1': MeasInstrument(precision=3)})
        self.ev = EnvVrtnMdl(dev_vrtn_mdl=Normal(0, 1, test_seed=4), batch_vrtn_mdl=Normal(2, 1, test_seed=5))
        self.lv = LatentVar(deter_val=r.choice([None, 2.0, 3]), dev_vrtn_mdl=Normal(r.choice([0, 1]), .5, test_seed=6), lot_vrtn_mdl=Normal(1, .5, test_seed=7), name='lv')
        self.det = LatentVar(deter_val=r.choice([2.0, 3, .5]), name='det', **r.choice([{}, {}, dict(chp_vrtn_mdl=Normal(1, .25, test_seed=8))]))
        self.steps = [StrsSpec({'ca': 3, 'cb': 1}, 2, 'a', time_unit='hours'), StrsSpec({'ca': 1, 'cb': 1}, timedelta(minutes=90), 'b')]
        self.meas = [MeasSpec({'p1': 2, 'q1': 1}, {'ca': 1, 'cb': 4}, 'm'), MeasSpec({'p2': 2, 'ca': 2}, {'ca': 1, 'cb': 2}, 'n')]
        self.plan = TestSpec([self.meas[0], self.steps[0]], self.chps, self.lots, name='plan', description='x')
        self.rep = gerabaldi.simulate(self.plan, self.dev, self.env, self.state)
        self.n = 0

    def digests(self):
        """No object identities in here: the digest is compared with that of the shadow."""
        st = lambda s: S.dig_step(s)[1:]
        nm = lambda m: [m[0], m[1]] + m[3:]
        dm = [self.dev.prm_mdl_list, repr(self.dev.time_unit)]
        for p in self.dev.prm_mdl_list:
            m = self.dev.prm_mdl(p)
            dm.append(nm(S.mdl(m)))
            if hasattr(m, 'mech_mdl_list'):
                dm += [nm(S.mdl(m.mech_mdl(k))) for k in m.mech_mdl_list] + [nm(S.mdl(m.init_mdl)), nm(S.mdl(m.cond_mdl))]
        e = self.ev
        r = self.rep
        return [['plan', [self.plan.name, self.plan.description, self.plan.num_chps, self.plan.num_lots, [st(s) for s in self.plan], S.plain(self.plan.calc_samples_needed())]],
                ['plan', [st(s) for s in self.steps + self.meas]],
                ['model', dm],
                ['latent', [S.lv(self.lv), S.lv(self.det)]],
                ['env', [repr(e.name), e.vrtn_type, S.rv(e.dev_vrtn_mdl), S.rv(e.chp_vrtn_mdl), S.rv(e.batch_vrtn_mdl)]],
                ['env', S.dig_env(self.env, ['p1', 'p2', 'q1'] + CN)],
                ['state', S.dig_state(self.state)],
                ['state', S.plain(self.counts)],
                ['report', [S.dig_report(r), repr(r.time_unit), S.plain(r.dev_counts)]]]

    # ---- requests; r decides on the details and is the same for the shadow
    def bad(self, kind, r):
        W = self
        m2 = [W.meas[0], W.meas[1]]
        bu = r.choice(['weeks', 'min', 'H', 'hour', 'fortnight'])
        if kind == 'strs.zero':
            StrsSpec({'ca': 1}, r.choice([0, 0.0, timedelta()]), 'z', **r.choice([{}, dict(time_unit='s')]))
        elif kind == 'strs.unit':
            StrsSpec({'ca': 1}, r.choice([1, 0, 2.5]), 'z', time_unit=bu)
        elif kind == 'loop.zero':
            W.plan.append_steps(r.choice([W.steps[0], [W.steps[0], W.meas[0]]]), loop_for_duration=r.choice([0, timedelta(), 0.0]))
        elif kind == 'loop.meas':
            W.plan.append_steps(r.choice([W.meas[0], m2, [W.meas[1]]]), loop_for_duration=r.choice([3, timedelta(hours=4)]))
        elif kind == 'loop.empty':
            W.plan.append_steps([], loop_for_duration=r.choice([3, timedelta(hours=4)]))
        elif kind == 'loop.unit':
            W.plan.append_steps(r.choice([W.steps[0], [W.steps[1], W.meas[0]]]), loop_for_duration=4, time_unit=bu)
        elif kind == 'htol.interval':
            cookbook.htol({'p1': 1}, strs_meas_intrvl=r.choice([7, 300, 999]))
        elif kind == 'latent.none':
            kw = {}
            for key, v in (('chp_vrtn_mdl', Normal(1, 1)), ('lot_vrtn_mdl', r.choice([Normal(1, 1), Deterministic(2)])), ('name', 'x'), ('vrtn_type', r.choice(['offset', 'scaling']))):
                if r.random() < .5:
                    kw[key] = v
            LatentVar(**kw)
        elif kind == 'latent.type':
            t = r.choice(['bogus', 'Offset', None, '', 'sum'])
            if r.random() < .3:
                LatentVar(deter_val=1, vrtn_type=t)
            else:
                W.lv.vrtn_type = t
        elif kind == 'env.type':
            t = r.choice(['bogus', 'Scaling', None, ''])
            if r.random() < .3:
                EnvVrtnMdl(vrtn_type=t)
            else:
                W.ev.vrtn_type = t
        elif kind == 'latent.deter':
            (W.det if r.random() < .7 else LatentVar(deter_val=2, name='d', **r.choice([{}, dict(chp_vrtn_mdl=Normal(1, 1))]))).cbi_export(r.choice(['pymc', 'pyro']))
        elif kind == 'latent.framework':
            W.lv.cbi_export(r.choice(['stan', 'PyMC', 'tfp', '', None]))
        elif kind == 'dist.framework':
            r.choice([W.lv.dev_vrtn_mdl, W.ev.batch_vrtn_mdl]).get_cbi_form(r.choice(['stan', 'PYRO', '']))
        elif kind == 'mech.unnamed':
            DegPrmMdl(DegMechMdl())
        elif kind == 'prm.unnamed':
            DeviceMdl(r.choice([lambda: DegPrmMdl({'m': DegMechMdl()}), lambda: CircPrmMdl(eqn(['p1'], ['return p1']))])())
        elif kind == 'state.counts':
            gerabaldi.gen_init_state(W.dev, *r.choice([(), (None, 2, 2), ({}, 2, 1)]))
        elif kind == 'env.counts':
            W.env.gen_env_cond_vals({'ca': 1, 'cb': 2}, r.choice([['p1'], ['p1', 'p2']]), None, r.choice([None, W.dev]))
        elif kind == 'sim.undefined':
            st = [StrsSpec({'ca': 2, 'cb': 1, 'cc': 4}, 3), MeasSpec({'p1': 1}, {'ca': 1, 'cb': 1, 'cc': 2}), W.steps[0], W.meas[1], MeasSpec(r.choice([{'zz': 1}, {'p1': 1, 'zz': 2}, {'cc': 1, 'p2': 1}, {'cc': 1}]), {'ca': 1, 'cb': 1})]
            gerabaldi.simulate(TestSpec(st[r.randrange(5):], W.chps, W.lots), *r.choice([(W.dev, W.env, W.state), (W.dev, W.env, W.state), (DeviceMdl({p: DegPrmMdl({'m': DegMechMdl()}) for p in ('p1', 'p2', 'q1')}), PhysTestEnv())]))
        elif kind == 'sim.unit':
            at = r.choice(['mech', 'prm', 'dev'])
            by = lambda k: dict(time_unit=bu) if at == k else {}
            p = DegPrmMdl({'m': r.choice([DegMechMdl, FailMechMdl])(eqn(['time'], ['return time']), **by('mech'))}, **by('prm'))
            gerabaldi.simulate(TestSpec([MeasSpec({'p': 1}, {}), W.steps[0]]), DeviceMdl({'p': p}, **by('dev')), W.env)
        elif kind == 'report.unit':
            rep = W.rep
            if r.random() < .3:     # nothing was measured, or nothing happened
                rep = gerabaldi.simulate(TestSpec(r.choice([[W.steps[0]], []]), W.chps, W.lots), W.dev, W.env, W.state)
            rep.convert_report_time(bu)
        elif kind == 'export.unit':
            W.rep.export_to_json(os.path.join(W.path, 'never', 'x.json'), bu)
        elif kind == 'report.missing':
            SimReport(file=os.path.join(W.path, 'nosuch.json'))
        else:
            raise MachineryError(kind)

    def good(self, kind, r):
        W = self
        if kind == 'append':
            W.plan.append_steps(r.choice([W.steps[0], W.meas[1], [W.steps[1], W.meas[0]]]))
        elif kind == 'loop':
            W.plan.append_steps([W.steps[1], W.meas[r.randrange(2)]], loop_for_duration=r.choice([timedelta(hours=3), 4.5, timedelta(minutes=90)]))
        elif kind == 'relayer':
            k = r.choice(['dev', 'chp', 'lot'])
            setattr(W.lv, k + '_vrtn_mdl', Normal(1, .25, test_seed=r.randrange(50)))
        elif kind == 'retype':
            W.lv.vrtn_type = W.det.vrtn_type = r.choice(['offset', 'scaling'])
            W.ev.vrtn_type = r.choice(['offset', 'scaling'])
        elif kind == 'envlayer':
            k = r.choice(['dev', 'chp', 'batch'])
            setattr(W.ev, k + '_vrtn_mdl', r.choice([None, Normal(1, .25, test_seed=r.randrange(50))]))
        elif kind == 'convert':
            W.rep.convert_report_time(r.choice(['hours', 's', 'ms', 'days']))
        elif kind == 'simulate':
            W.rep = gerabaldi.simulate(W.plan, W.dev, W.env, W.state)
        elif kind == 'export':
            W.n += 1
            f = os.path.join(W.path, f'{W.tag}{W.n}.json')
            W.rep.export_to_json(f, r.choice(['seconds', 'h']))
            x = SimReport(file=f)
            return [[x.test_name, x.test_description, S.dig_table(x.measurements), S.dig_table(x.test_summary)]]
        elif kind == 'sample':
            return [S.plain(W.lv.gen_latent_vals(2, 2, 2)), S.plain(W.det.gen_latent_vals(2, 2, 2)), S.plain(W.ev.gen_env_vrtns(4, 2, 2, 1))]
        elif kind == 'state':
            s = gerabaldi.gen_init_state(W.dev, W.counts, W.chps, W.lots)
            return [S.dig_state(s)]
        else:
            raise MachineryError(kind)
        return []


def attempt(f, *a):
    try:
        return 'ok', f(*a)
    except (Hang, MachineryError):
        raise
    except Exception as ex:
        return type(ex).__name__, None


def run(job):
    cid, ops, path = job
    ids, ev = Ids(), []
    d = os.path.join(path, cid)
    os.makedirs(d, exist_ok=True)
    try:
        with limit(60):
            W, V = World(cid, d, 'w'), World(cid, d, 'v')
            dg = lambda X: [[k, ids(v)] for k, v in X.digests()]
            ev.append(dict(op='start', dig=dg(W), sdig=dg(V)))
            for n, k in enumerate(ops):
                if '.' in k:
                    res, _ = attempt(W.bad, k, rng_for('errop', cid, n))
                    ev.append(dict(op='bad', kind=k, res=res, dig=dg(W)))
                else:
                    res, out = attempt(W.good, k, rng_for('errop', cid, n))
                    sres, sout = attempt(V.good, k, rng_for('errop', cid, n))
                    ev.append(dict(op='good', kind=k, res=res, sres=sres, out=ids(out), sout=ids(sout), dig=dg(W), sdig=dg(V)))
    except MachineryError:
        raise
    except Exception as ex:
        ev.append(dict(op='crash', why=f'{type(ex).__name__}: {ex}'[:300]))
    shutil.rmtree(d, ignore_errors=True)
    return dict(id=cid, ev=ev, _desc=ops)


VALID = ['append', 'loop', 'relayer', 'retype', 'envlayer', 'convert', 'simulate', 'export', 'sample', 'state']
INVALID = ['strs.zero', 'strs.unit', 'loop.zero', 'loop.meas', 'loop.empty', 'loop.unit', 'latent.none', 'mech.unnamed', 'prm.unnamed', 'state.counts',
           'env.counts', 'latent.deter', 'report.unit', 'export.unit', 'htol.interval', 'sim.unit', 'latent.type', 'env.type', 'sim.undefined',
           'latent.framework', 'dist.framework', 'report.missing']


def check(prop, res, scratch):
    quick = TIER == 'quick'
    out, gen, distinct = run_tlc('ErrorsMC', scratch, env={'MAXOPS': 3}, heap='12g')
    res.add_design('ErrorsMC', gen, distinct)
    rng = rng_for('errjobs')
    seqs = gen_lines(out)
    rng.shuffle(seqs)
    jobs = [(f'gen-{k}', q, scratch.path) for k, q in enumerate(seqs[:500 if quick else 8000])]
    res.extra['spec_generated_histories'] = len(jobs)
    for k in range(250 if quick else 4000):
        ops = [rng.choice(VALID) if rng.random() < .5 else rng.choice(INVALID) for _ in range(rng.randint(4, 10))]
        jobs.append((f'rnd-{k}', ops + ['simulate', 'sample'], scratch.path))
    cases = pmap(run, jobs, timeout=600 if quick else 3000)
    validate(res, 'ErrorsTrace', cases, scratch, lambda c: c == 'crash' or c.startswith('err.'), chunk=2000)
