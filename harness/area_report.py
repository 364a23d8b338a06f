"""C15: reports through conversion, export and load (spec/Report.tla)."""
from fractions import Fraction
from common import *
from gb import *

US = {'days': 86400000000, 'hours': 3600000000, 'seconds': 1000000, 'milliseconds': 1000, 'microseconds': 1}
CANON = {'days': 'days', 'd': 'days', 'hours': 'hours', 'h': 'hours', 'seconds': 'seconds', 's': 'seconds', 'milliseconds': 'milliseconds',
         'ms': 'milliseconds', 'microseconds': 'microseconds', 'us': 'microseconds'}
ALIASES = list(CANON)
BADU = ['weeks', 'H', 'minutes', 'sec']
NAMES = ['vth', 'created_at', '007', '1e5', 'timestamp', 'date', 'freq', 'None', 'modified', 'ünïcode']
CONDS = ['temp', 'vdd', 'date', 'timestamp', 'last_at', 'rh', '7', '1e3', '2020-01-01', 'Temp', 'vdd_io', 'p', 'Measured', 'x y']
TIMES = ('duration', 'start time', 'end time')


def span_of(us):
    return [us // 86400000000, us // 1000000 % 86400, us % 1000000]


def decode(x, unit):
    """A time in whatever form, as [d, s, us]; numbers are in the given unit."""
    if isinstance(x, (timedelta, np.timedelta64)):
        return triple(x)
    try:
        x = float(x)
        if x != x or unit not in US:
            return [-8, 0, 0]
        return span_of(round(Fraction(x) * US[unit]))
    except Exception:
        return [-7, 0, 0]


def norm(v):
    if v is None or (isinstance(v, float) and v != v):
        return 'none'
    if isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, bool):
        return repr(float(v))
    return f'{type(v).__name__}:{v}'


def snap(v, w):
    """The original value when v is that value as far as a file can hold it."""
    try:
        return w if abs(float(v) - float(w)) <= 2e-15 + 1e-13 * abs(w) else v
    except (TypeError, ValueError):
        return v


def look(name, desc, meas, summ, unit, orig=(), sorig=()):
    o = dict(name=str(name), desc=str(desc), rows=[], times=[], srows=[], stimes=[], spans=True)
    if meas is not None and 'param' in meas:
        cols = ['param', 'step #', 'device #', 'chip #', 'lot #', 'measured']
        for k, vals in enumerate(zip(*[meas[c] for c in cols])):
            if k < len(orig):
                vals = (*vals[:-1], snap(vals[-1], orig[k]))
            o['rows'].append('|'.join(norm(v) for v in vals))
        o['times'] = [decode(t, unit) for t in meas['time']]
        o['spans'] = any(isinstance(t, (timedelta, np.timedelta64)) for t in meas['time'])
    if summ is not None and 'step name' in summ:
        cols = [c for c in summ.columns if c not in TIMES]
        for k in range(len(summ)):
            was = sorig[k] if k < len(sorig) else {}
            o['srows'].append('|'.join(f'{c!r}={norm(snap(summ[c].iloc[k], was[c]) if type(was.get(c)) is float else summ[c].iloc[k])}' for c in sorted(cols, key=str)))
            o['stimes'].append([decode(summ[c].iloc[k], unit) for c in TIMES])
    return o


def make(rng):
    """A report of a real simulation."""
    prms = rng.sample(NAMES, rng.randint(1, 3))
    ident = [p for p in prms]
    conds = rng.sample(CONDS, rng.choice([1, 2, 3, 3, 8]))
    level = lambda: rng.choice([1, 2.5, 300, 398.15, 1 / 3, 273.15 + 1 / 7, 0.0123456789012, 1.5e-7, 1e6 / 3, 0, -40.000000001])
    small = rng.choice([1, 1, 1e-6, 1e3])
    P = {p: DegPrmMdl({'m': DegMechMdl(eqn(['time', 'r'], ['return r * time']), r=LatentVar(dev_vrtn_mdl=Script([rng.randint(1, 9) * small for _ in range(5)])), time_unit='hours')},
                      InitValMdl(init_val=LatentVar(dev_vrtn_mdl=Script([rng.randint(-900, 900) / 7 * small for _ in range(11)])))) for p in prms}
    steps = []
    mode = rng.random()
    scale = rng.choice([1, 1000, 10 ** 6, 3600 * 10 ** 6, 86400 * 10 ** 6, 4 * 86400 * 10 ** 6])
    room = 900 * 86400 * 10 ** 6
    big = rng.random() < .02
    for k in range(rng.randint(12, 40) if big else rng.randint(0 if mode < .1 else 1, 7)):
        if mode < .85 and rng.random() < .5 or mode < .1:
            us = max(1, min(int(scale * rng.uniform(1, 120)) // rng.choice([1, 1, 7]), room))
            room -= us
            steps.append(StrsSpec({c: level() for c in conds if rng.random() < .8}, td(span_of(us)), rng.choice(['strs', '2021-01-01', '12', 'x y'])))
        else:
            m = {p: rng.randint(9, 13) if big else rng.randint(1, 2) for p in prms if rng.random() < .8}
            cd = {c: level() for c in conds if rng.random() < .8}
            for c in cd:
                if rng.random() < .3:
                    m[c] = rng.randint(1, 2)
            if not m:
                m = {prms[0]: 1}
            steps.append(MeasSpec(m, cd, rng.choice(['meas', '2021-01-01', '12'])))
    if mode > .9 or not any(type(s) is MeasSpec for s in steps):
        state = gerabaldi.gen_init_state(DeviceMdl(P), {prms[0]: 2}, 2, 2)
    else:
        state = None
    dev = DeviceMdl(P)
    L, C = rng.randint(1, 3), rng.randint(1, 3)
    state = None
    if rng.random() < .4 or not any(type(s) is MeasSpec for s in steps):
        state = gerabaldi.gen_init_state(dev, {p: 13 if big else 2 for p in prms}, C, L, elapsed_time=td(span_of(int(scale * rng.uniform(0, 50)))))
    name = rng.choice(['unspecified', 'HTOL "test"', '2020-01-01', '123', 'ünïcode', ' padded ', 'tab\tend\n', 'None', 'C:\\tmp\\x'])
    return gerabaldi.simulate(TestSpec(steps, C, L, name=name, description=rng.choice(['none provided', 'two\nlines', '42', '', '  indented\n', 'trailing newline\n', 'Über 85 °C / 85 % RH', 'd' * 400])), dev, PhysTestEnv(), state)


def raw(rep):
    f = lambda d: None if d is None else [(c, [repr(x) for x in d[c]]) for c in d.columns]
    return (f(rep.measurements), f(rep.test_summary), rep.test_name, rep.test_description)


class Run:
    def __init__(self, rng, path):
        self.rng, self.path = rng, path
        self.slot = [os.path.join(path, *rng.choice([[], [], ['deep', 'er'], [f'd{k}'], [f'n{k}', 'a', 'b', 'c', 'dd']]), f'r{k}.json') for k in range(4)]
        self.made, self.smade, self.holds, self.ev = [], [], {}, []
        self.new('start')

    def new(self, op):
        self.rep, self.unit = make(self.rng), None
        m = self.rep.measurements
        self.made.append([float(v) for v in m['measured']] if 'measured' in m else [])
        s = self.rep.test_summary
        self.smade.append([{c: float(v) if isinstance(v, float) else None for c, v in r.items()} for r in s.to_dict('records')])
        self.n = len(self.made) - 1
        self.ev.append(dict(op=op, o=self.obs()))

    def obs(self):
        r = self.rep
        return look(r.test_name, r.test_description, r.measurements, r.test_summary, self.unit, self.made[self.n], self.smade[self.n])

    def step(self, o):
        rng = self.rng
        res = 'ok'
        if o['op'] == 'new':
            self.new('new')
        elif o['op'] == 'convert':
            u = o['u']
            try:
                if u == '':
                    self.rep.convert_report_time()
                else:
                    self.rep.convert_report_time(u)
                self.unit = CANON.get(u or 'hours')
            except Exception as ex:
                res = type(ex).__name__
            self.ev.append(dict(op='convert', u=u, res=res, o=self.obs()))
        elif o['op'] == 'export':
            u, k = o['u'], o['k']
            before = raw(self.rep)
            f = self.slot[k - 1]
            kw = {} if u == '' else dict(time_unit=u)
            e = dict(op='export', asked=u != '', u=u, k=k, unit='', f={})
            try:
                if rng.random() < .6:
                    self.rep.export_to_json(f, **kw)
                    js = json.load(open(f))
                else:
                    js = self.rep.export_to_json(**kw)
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    json.dump(js, open(f, 'w'))
                e['unit'] = js['Time Units']
                tab = lambda s: (lambda d: pd.DataFrame({c: list(v.values()) for c, v in d.items()}))(json.loads(s))
                e['f'] = look(js['Test Name'], js['Description'], tab(js['Measurements']), tab(js['Test Summary']), CANON.get(e['unit'].lower()), self.made[self.n], self.smade[self.n])
                self.holds[k] = self.n
            except Exception as ex:
                res = type(ex).__name__
            e.update(res=res, o=self.obs(), same=raw(self.rep) == before)
            self.ev.append(e)
        elif o['op'] == 'load':
            k = o['k']
            try:
                self.rep = SimReport(file=self.slot[k - 1])
                self.unit = CANON.get(self.rep.time_unit)
                self.n = self.holds.get(k, self.n)
            except Exception as ex:
                res = type(ex).__name__
            self.ev.append(dict(op='load', k=k, res=res, o=self.obs()))
            if res == 'ok' and self.ev[-1]['o']['spans']:
                self.unit = None


def run(job):
    cid, ops, path = job
    rng = rng_for('report', cid)
    d = os.path.join(path, cid)
    os.makedirs(d, exist_ok=True)
    r = None
    try:
        with limit(20):
            r = Run(rng, d)
            for o in ops:
                r.step(o)
            ev = r.ev
    except Exception as ex:
        ev = (r.ev if r else []) + [dict(op='crash', why=f'{type(ex).__name__}: {ex}'[:300])]
    shutil.rmtree(d, ignore_errors=True)
    return dict(id=cid, ev=ev, _desc=ops)


def random_ops(rng):
    ops = []
    for _ in range(rng.randint(2, 8)):
        x = rng.random()
        u = rng.choice(ALIASES + [''] * 2 + ([rng.choice(BADU)] if rng.random() < .3 else []))
        ops.append(dict(op='convert', u=u) if x < .3 else dict(op='export', u=u, k=rng.randint(1, rng.choice([1, 2, 4]))) if x < .6 else dict(op='load', k=rng.randint(1, rng.choice([1, 2, 4]))) if x < .9 else dict(op='new'))
    return ops


def check(prop, res, scratch):
    quick = TIER == 'quick'
    out, gen, distinct = run_tlc('ReportMC', scratch, env={'MAXOPS': 4})
    res.add_design('ReportMC', gen, distinct)
    rng = rng_for('reportjobs', prop)
    seqs = gen_lines(out)
    rng.shuffle(seqs)
    alias = {'days': ['days', 'd'], 'hours': ['hours', 'h'], 'seconds': ['seconds', 's', 'ms', 'us', 'milliseconds', 'microseconds']}
    jobs = []
    for k, s in enumerate(seqs[:700 if quick else 6000]):
        jobs.append((f'gen-{k}', [dict(o, u=rng.choice(alias[o['u']])) if o.get('u') in alias else o for o in s], scratch.path))
    res.extra['spec_generated_sequences'] = len(jobs)
    jobs += [(f'rnd-{k}', random_ops(rng), scratch.path) for k in range(600 if quick else 9000)]
    cases = pmap(run, jobs, timeout=3000)
    validate(res, 'ReportTrace', cases, scratch, lambda c: c == 'crash' or c.startswith(('conv.', 'exp.', 'kept.', 'file.', 'load.')), chunk=2000)
    res.assumptions += ['reports of real simulations with finite values; values compared to 12 significant digits or 15 decimals; total times below 1000 days']
