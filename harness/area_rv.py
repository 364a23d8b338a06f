"""C24: what random variables sample (spec/Rv.tla)."""
from common import *
from gb import *

PQ = [.01, .1, .25, .5, .75, .9, .99]
N = 20000
CLS = dict(det=Deterministic, norm=Normal, gam=Gamma, uni=Uniform)
FLD = dict(det=dict(a='value'), norm=dict(a='mu', b='sigma'), gam=dict(a='alpha', b='beta'), uni=dict(a='start', b='stop'))
OPS = dict(none=None, add=lambda v, c: v + c, sub=lambda v, c: v - c)


def real(kind, f, x, u, rng):
    """The parameter as the user writes it."""
    if kind == 'gam':
        r = x / 2 if f == 'a' else 1 / (x * u)
    else:
        r = x * u
    return int(r) if r == int(r) and rng.random() < .5 else r


def build(v, u, rng, **kw):
    args = {FLD[v['kind']][f]: real(v['kind'], f, v[f], u, rng) for f in FLD[v['kind']]}
    c = CLS[v['kind']]
    return c(*args.values(), **kw) if rng.random() < .5 else c(**args, **kw)


def look(var, u, rng, other):
    """Takes 20000 values in several calls."""
    asked, xs = [], []
    left = N
    while left:
        k = min(left, rng.choice([1, 2, 7, 100, 1000, 5000, 20000]))
        asked.append(k)
        left -= k
    lens, flat = [], True
    for k in asked:
        a = var.sample() if k == 1 and rng.random() < .5 else var.sample(k)
        flat &= isinstance(a, np.ndarray) and np.ndim(a) == 1
        lens.append(int(np.size(a)))
        xs.append(np.ravel(np.asarray(a, float)))
    x = np.concatenate(xs)
    if x.size < 2:
        x = np.zeros(2)
    sd = x.std()
    y = np.asarray(other.sample(x.size), float) if other is not None else np.arange(x.size)
    cor = lambda a, b: int(round(1e4 * float(np.corrcoef(a, b)[0, 1]))) if a.std() > 0 and b.std() > 0 else 0
    far = lambda z, up: milli((np.ceil(z / u * 1e6 - 1e-3) if up else np.floor(z / u * 1e6 + 1e-3)) / 1e6, 1)
    lo, hi = x.min() / u, x.max() / u
    return dict(asked=[sum(asked), len(asked)], lens=[sum(lens), len(lens)] if lens == asked else [-1, 0], flat=bool(flat), n=int(x.size), fin=bool(np.all(np.isfinite(x))),
                q=[milli(z / u, 1) for z in np.quantile(x, PQ)], lo=milli(np.floor(lo + 1e-6), 1), hi=milli(np.ceil(hi - 1e-6), 1), diff=int(len(set(x.tolist()))),
                lag=cor(x[1:], x[:-1]), cross=cor(x, y))


def run(job):
    cid, ops = job
    rng = rng_for('rv', cid)
    ev, vs = [], []
    try:
        with limit(60), fixed_generators(cid):
            u = float(f'1e{rng.randint(-9, 3)}')
            cur = None
            for o in ops:
                res, e = 'ok', dict(o)
                if o['op'] == 'new':
                    cur = dict(o['v'])
                    kw = {}
                    if rng.random() < .3:
                        kw['name'] = 'x'
                    if rng.random() < .5:
                        kw['test_seed'] = rng.choice([0, 0, 1, 2, 12345])
                    var = build(cur, u, rng, **kw)
                    vs.append(var)
                    e['res'] = 'ok'
                    ev.append(e)
                else:
                    e['k'] = len(vs)
                    var = vs[-1]
                    try:
                        if o['op'] == 'prm':
                            setattr(var, FLD[cur['kind']][o['f']], real(cur['kind'], o['f'], o['x'], u, rng))
                            cur[o['f']] = o['x']
                        else:
                            fn = {**OPS, 'dbl': lambda v, c: 2 * c + v}[o['how']]
                            x = o['x'] * u
                            var.set_centre(x) if fn is None else var.set_centre(x, fn) if rng.random() < .5 else var.set_centre(x, operation=fn)
                            cur['a'] = {'none': o['x'], 'add': o['x'] + cur['a'], 'sub': o['x'] - cur['a'], 'dbl': 2 * cur['a'] + o['x']}[o['how']]
                    except Exception as ex:
                        res = type(ex).__name__
                    e.update(res=res, centre=milli(var.get_centre() / u, 1) if cur['kind'] == 'norm' else 0)
                    ev.append(e)
                other = None
                if rng.random() < .7:
                    other = build(dict(kind='norm', a=0, b=3000), u, rng)
                s = look(var, u, rng, other)
                ev.append(dict(op='sample', k=len(vs), **s))
            # twins of the present configuration
            for _ in range(3):
                pat = [rng.choice([1, 2, 5, 40]) for _ in range(rng.randint(1, 5))]
                sa, sb = rng.choice([(0, 0), (1, 1), (7, 7), (0, 1), (3, 4), (None, None), (5, None), (0, None)])
                got = []
                for s in (sa, sb):
                    w = build(cur, u, rng, **({} if s is None else dict(test_seed=s)))
                    got.append([repr(float(z)) for k in pat for z in w.sample(k)])
                ids = Ids()
                ev.append(dict(op='twin', k=len(vs), seeda=-1 if sa is None else sa, seedb=-1 if sb is None else sb, seeded=sa is not None and sb is not None,
                               a=ids(got[0]), b=ids(got[1])))
    except Exception as ex:
        ev.append(dict(op='crash', why=f'{type(ex).__name__}: {ex}'[:300]))
    return dict(id=cid, ev=ev, _desc=ops)


def rand_var(rng):
    k = rng.choice(['norm', 'norm', 'gam', 'uni', 'det'])
    if k == 'norm':
        return dict(kind=k, a=rng.choice([0, rng.randint(-50000, 50000)]), b=rng.choice([0, rng.randint(200, 9000), rng.randint(1000, 19000)]))
    if k == 'gam':
        return dict(kind=k, a=rng.choice([1, 2, 4, 6, 10, 18]), b=rng.randint(500, 19000))
    if k == 'uni':
        a = rng.randint(-20000, 20000)
        return dict(kind=k, a=a, b=a + rng.choice([0, rng.randint(500, 19000), rng.randint(500, 19000)]))
    return dict(kind=k, a=rng.choice([0, rng.randint(-50000, 50000)]), b=0)


def random_ops(rng):
    ops = []
    for _ in range(rng.randint(1, 2)):
        v = rand_var(rng)
        ops.append(dict(op='new', v=v))
        for _ in range(rng.randint(0, 3)):
            w = rand_var(rng)
            if w['kind'] != v['kind']:
                continue
            if w['kind'] == 'norm' and rng.random() < .5:
                how = rng.choice(['none', 'add', 'sub'])
                ops.append(dict(op='centre', how=how, x=w['a'] // 4))
                v = dict(v, a={'none': 0, 'add': v['a'], 'sub': -v['a']}[how] + w['a'] // 4)
            else:
                f = 'a' if v['kind'] == 'det' or rng.random() < .5 else 'b'
                n = dict(v, **{f: w[f]})
                if n['kind'] == 'uni' and not 0 <= n['b'] - n['a'] < 20000:
                    continue
                ops.append(dict(op='prm', f=f, x=w[f]))
                v = n
    return ops


def check(prop, res, scratch):
    quick = TIER == 'quick'
    out, gen, distinct = run_tlc('RvMC', scratch, env={'MAXOPS': 2 if quick else 3})
    res.add_design('RvMC', gen, distinct)
    rng = rng_for('rv')
    seqs = gen_lines(out)
    rng.shuffle(seqs)
    jobs = [(f'gen-{k}', s) for k, s in enumerate(seqs[:250 if quick else 3000])]
    res.extra['spec_generated_sequences'] = len(jobs)
    jobs += [(f'rnd-{k}', random_ops(rng)) for k in range(250 if quick else 4000)]
    cases = pmap(run, jobs, timeout=600 if quick else 3000)
    validate(res, 'RvTrace', cases, scratch, lambda c: c == 'crash' or c.startswith('rv.'), chunk=5000)
    res.assumptions += ['distributions are judged by seven quantiles of 20000 draws, within six standard errors; unseeded generators are given fixed seeds while the check runs']
