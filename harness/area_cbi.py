"""C20: exporting latent variables for inference (spec/Cbi.tla)."""
from common import *
from gb import *
import pymc as pm, pyro, torch, pytensor
from pyro import poutine
pytensor.config.cxx = ''
pytensor.config.mode = 'FAST_COMPILE'
torch.set_num_threads(1)
for n in ('pymc', 'pytensor'):
    logging.getLogger(n).setLevel(logging.CRITICAL)


def num(x, r):
    """A parameter in thousandths; whole numbers are given as python integers at times."""
    return x // 1000 if x % 1000 == 0 and r else x / 1000


def layer(c, rng, seed):
    if not c:
        return None
    r = rng.random() < .5
    a, b = num(c['a'], r), num(c['b'], r)
    return {'normal': Normal, 'gamma': Gamma, 'uniform': Uniform}[c['kind']](a, b, test_seed=seed)


def build(cfg, key, name):
    rng = rng_for('cbi-build', key)
    sd = rng.randrange(1000)
    kw = {}
    if cfg['base']:
        kw['deter_val'] = num(cfg['base'][0], rng.random() < .5)
    for n in ('dev', 'chp', 'lot'):
        l = layer(cfg[n], rng, sd + len(n) + ord(n[0]))
        if l is not None:
            kw[n + '_vrtn_mdl'] = l
    return LatentVar(vrtn_type=cfg['type'], name=name, **kw)


def const(v):
    d = getattr(v, 'data', None)
    return float(d) if d is not None else float(v.eval())


def pymc_model(lv, context, cfg, rng, hasval):
    out = dict(sites=[], names=0, hasval=False, value=0, vals=dict(dev=0, chp=0, lot=0))
    if not context:
        lv.cbi_export('pymc')
        return out
    with pm.Model() as m:
        r = lv.cbi_export('pymc') if rng.random() < .7 else lv.cbi_export()
    for rv in m.free_RVs:
        k = rv.owner.op.name
        a, b = [const(i) for i in rv.owner.inputs[-2:]]
        out['sites'].append(dict(kind=k, a=milli(a), b=milli(1 / b if k == 'gamma' else b)))
    out['names'] = len({rv.name for rv in m.free_RVs})
    if r is None:
        out['sites'] = []
        return out
    if hasval:
        # give every layer a value of its own, by matching distributions to layers when they can be told apart
        order = match(cfg, out['sites'])
        if order is not None:
            vals = {n: rng.choice([2000, 3000, 500, -1500, 7000]) for n in ('dev', 'chp', 'lot')}
            out['vals'] = vals
            out['value'] = milli(r.eval({rv: vals[n] / 1000 for rv, n in zip(m.free_RVs, order)}))
            out['hasval'] = True
    return out


def match(cfg, sites):
    """Layer of each site; the combination is symmetric, so any assignment of same-looking ones will do."""
    left = [n for n in ('dev', 'chp', 'lot') if cfg[n]]
    if len(left) != len(sites):
        return None
    return left      # multiplication and addition do not care which layer has which value


def pyro_model(lv, cfg, rng):
    torch.manual_seed(rng.randrange(10**6))
    pyro.clear_param_store()
    got = {}

    def model():
        got['r'] = lv.cbi_export('pyro')
    tr = poutine.trace(model).get_trace()
    out = dict(sites=[], names=0, hasval=False, value=0, vals=dict(dev=0, chp=0, lot=0))
    names = []
    for n, s in tr.nodes.items():
        if s['type'] != 'sample':
            continue
        f = s['fn']
        k = type(f).__name__.lower()
        a, b = {'normal': ('loc', 'scale'), 'gamma': ('concentration', 'rate'), 'uniform': ('low', 'high')}.get(k, (None, None))
        out['sites'].append(dict(kind=k, a=milli(getattr(f, a)) if a else BIG, b=milli(getattr(f, b)) if b else BIG))
        names.append(n)
    out['names'] = len(set(names))
    order = match(cfg, out['sites'])
    if order is not None and got['r'] is not None:
        out['vals'] = vals = {n: rng.choice([2000, 3000, 500, 1500, 7000]) for n in ('dev', 'chp', 'lot')}
        cond = {n: torch.tensor(vals[o] / 1000) for n, o in zip(names, order)}
        with pyro.validation_enabled(False):
            poutine.condition(model, data=cond)()
        out['value'] = milli(float(got['r']))
        out['hasval'] = True
    return out


def run(job):
    cid, cfg, ops = job
    rng = rng_for('cbi', cid)
    ev = []
    try:
        with limit(60):
            lv, twin = build(cfg, cid, 'x'), build(cfg, cid, 'x')
            for o in ops:
                if o['op'] == 'sample':
                    sz = dict(num_devs=o['n'][0], num_chps=o['n'][1], num_lots=o['n'][2])
                    same = lv.gen_latent_vals(**sz).tolist() == twin.gen_latent_vals(**sz).tolist()
                    ev.append(dict(op='sample', same=bool(same)))
                    continue
                e = dict(op='export', fw=o['fw'], context=o['context'], res='ok', sites=[], names=0, hasval=False,
                         vals=dict(dev=0, chp=0, lot=0), value=0)
                try:
                    if o['fw'] == 'pymc':
                        e.update(pymc_model(lv, o['context'], cfg, rng, o['val']))
                    elif o['fw'] == 'pyro':
                        e.update(pyro_model(lv, cfg, rng))
                    else:
                        lv.cbi_export(o['fw'])
                except Hang:
                    raise
                except Exception as ex:
                    e['res'] = type(ex).__name__
                ev.append(e)
    except Exception as ex:
        ev.append(dict(op='crash', why=f'{type(ex).__name__}: {ex}'[:300]))
    return dict(id=cid, vcfg=cfg, ev=ev, _desc=ops)


def rnd_layer(rng, n):
    if rng.random() < (.15 if n == 'dev' else .4):
        return []
    k = rng.choice(['normal', 'normal', 'gamma', 'uniform'])
    if k == 'normal':
        return dict(kind=k, a=rng.choice([0, 1000, 3000, -2000, 1250, 40]), b=rng.choice([1000, 500, 20, 2500]))
    if k == 'gamma':
        return dict(kind=k, a=rng.choice([1000, 2000, 2500]), b=rng.choice([1000, 4000, 500]))
    a = rng.choice([0, 1000, -2500])
    return dict(kind=k, a=a, b=a + rng.choice([1000, 300, 7000]))


def rnd_cfg(rng):
    while True:
        c = dict(type=rng.choice(['scaling', 'offset']), base=rng.choice([[], [], [2000], [-3000], [1500], [250], [4000], [100], [1100], [-3300], [1000], [-1000]]),
                 **{n: rnd_layer(rng, n) for n in ('dev', 'chp', 'lot')})
        if c['base'] and c['dev'] and c['dev']['kind'] != 'normal' and rng.random() < .5:
            c['base'] = []
        if c['base'] or c['dev']:
            return c


def rnd_op(rng):
    if rng.random() < .3:
        return dict(op='sample', n=[rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3)])
    fw = rng.choice(['pymc', 'pymc', 'pyro', 'pyro', 'stan', 'PyMC'])
    return dict(op='export', fw=fw, context=rng.random() < .8, val=rng.random() < .4)


def check(prop, res, scratch):
    quick = TIER == 'quick'
    out, gen, distinct = run_tlc('CbiMC', scratch)
    res.add_design('CbiMC', gen, distinct)
    rng = rng_for('cbijobs')
    jobs = []
    # every configuration and export history of the specification up to its bound
    for k, (cfg, hist) in enumerate(gen_lines(out)):
        ops = []
        for h in hist:
            ops.append(dict(op='export', fw=h[0], context=h[1], val=False))
            ops.append(dict(op='sample', n=[2, 2, 2]))
        jobs.append((f'gen-{k}', cfg, ops))
    rng.shuffle(jobs)
    jobs = jobs[:600 if quick else 6000]
    res.extra['spec_generated_histories'] = len(jobs)
    for k in range(500 if quick else 6000):
        jobs.append((f'rnd-{k}', rnd_cfg(rng), [rnd_op(rng) for _ in range(rng.randint(2, 6))] + [dict(op='sample', n=[2, 2, 1])]))
    cases = pmap(run, jobs, timeout=3000 if not quick else 700)
    validate(res, 'CbiTrace', cases, scratch, lambda c: c == 'crash' or c.startswith('cbi.'), chunk=4000)
    res.assumptions += ['the base value is not zero when scaling and the distribution of the device layer has a centre when there is a base value',
                        'PyMC and pyro distributions mean what their names and parameters say']
