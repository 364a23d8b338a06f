"""C13: measurement instruments (spec/Instr.tla)."""
from common import *
from gb import *

NAMES = ['p', 'pa', 'pa_x', 'pap', 'x', 'xx', 'v', 'vd', 'vdd', 'vdd_n', 't', 'temp', 'temp2', 'a_p', 'P', 'PA', 'Pa', 'Vdd', 'VDD', 'T', 'X', 'Temp']
NAN, PINF, NINF = 2000000001, 2000000002, -2000000002
SPEC_V = {NAN: float('nan'), PINF: float('inf'), NINF: float('-inf')}


def num(v, k):
    return SPEC_V[v] if v in SPEC_V else float(f'{v}e{k}')


def seen(x, k):
    x = float(x)
    if x != x:
        return NAN
    if x in (float('inf'), float('-inf')):
        return PINF if x > 0 else NINF
    return milli(x / float(f'1e{k}'))


def tie(s, p):
    if not p or s == 0:
        return False
    a = abs(s)
    q = 10 ** max(len(str(a)) - p, 0)
    return q > 1 and (a % q) * 2 == q


def mk(rng, k, n, special=.1):
    """An instrument, values and errors without rounding ties."""
    ins = dict(err=rng.random() < .6, prec=rng.choice([0, 0, 1, 2, 3, 4, 5, 6]), lims=[])
    big = rng.choice([20, 500, 9999, 100000, 1400000])
    if rng.random() < .5:
        a, b = sorted(rng.randint(-big, big) for _ in range(2))
        if rng.random() < .3:
            a = 0
            b = abs(b)
        ins['lims'] = [a, b]
    ne = rng.choice([1, 3, n, 7]) if ins['err'] else 1
    errs = [rng.choice([0, rng.randint(-big // 2, big // 2), rng.randint(-9, 9), -big // 3]) for _ in range(ne)]
    if rng.random() < .2 and ins['err']:
        errs = [rng.randint(-5, 5) for _ in range(ne)]
    return ins, errs, big


def value(rng, ins, e, big, special):
    if rng.random() < special:
        return rng.choice([NAN, PINF, NINF])
    for _ in range(50):
        x = rng.random()
        v = rng.randint(-big, big)
        if x < .1:
            v = 0
        elif x < .2:
            v = rng.choice([-1, 1]) * 10 ** rng.randint(0, 6)
        elif x < .3:
            v = rng.choice([-1, 1]) * (10 ** rng.randint(1, 6) - 1)
        elif x < .35:
            v = -e
        elif x < .5 and ins['lims']:
            v = rng.choice(ins['lims']) + rng.randint(-3, 3) - e
        if abs(v) <= 1490000 and abs(v + e) <= 1490000 and not tie(v + e if ins['err'] else v, ins['prec']):
            return v
    return 0 if not tie(e if ins['err'] else 0, ins['prec']) else NAN


def build(ins, errs, k, name='generic'):
    kw = {}
    if ins['err']:
        kw['error'] = Script([num(e, k) for e in errs])
    if ins['prec']:
        kw['precision'] = ins['prec']
    if ins['lims']:
        kw['meas_lims'] = tuple(num(x, k) for x in ins['lims'])
    return MeasInstrument(name, **kw)


def direct(rng):
    ev = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice([rng.randint(-9, 5), rng.randint(-9, 5), rng.randint(-22, 14)])
        n = rng.choice([1, 1, 2, 3, 5, 17, 40] * 6 + [300])
        ins, errs, big = mk(rng, k, n)
        dev = build(ins, errs, k)
        frm = 0
        for _ in range(rng.randint(1, 3)):
            kind = rng.choice(['series', 'series', 'index', 'array', 'float', 'int'])
            m = 1 if kind in ('float', 'int') else n
            vals = [value(rng, ins, errs[(frm + j) % len(errs)] if ins['err'] else 0, big, .08) for j in range(m)]
            if kind == 'int' and -5 < k < 0 and vals[0] not in SPEC_V:
                # a whole number next to errors and figures that need not be
                vals = [int(round(vals[0], k))]
                if abs(vals[0]) > 1490000 or tie(vals[0] + (errs[frm % len(errs)] if ins['err'] else 0), ins['prec']):
                    vals = [NAN]
            if kind == 'int' and (k < -4 or k > 8 or vals[0] in SPEC_V):
                kind = 'float'
            whole = kind in ('series', 'index', 'array') and 0 <= k < 9 and not set(vals) & set(SPEC_V) and rng.random() < .4
            if kind in ('series', 'index', 'array') and -5 < k < 0 and not set(vals) & set(SPEC_V) and rng.random() < .5:
                # whole numbers, with errors that need not be
                near = [int(round(v, k)) for v in vals]
                if not any(abs(v) > 1490000 or tie(v + (errs[(frm + j) % len(errs)] if ins['err'] else 0), ins['prec']) for j, v in enumerate(near)):
                    vals, whole = near, True
            xs = [num(v, k) for v in vals]
            if kind == 'series':
                arg = pd.Series(xs)
            elif kind == 'index':
                idx = list(range(10, 10 + m))
                rng.shuffle(idx)
                if rng.random() < .3:
                    idx = [j // 2 for j in idx]           # labels may repeat
                arg = pd.Series(xs, index=idx, name='v')
            elif kind == 'array':
                arg = np.array(xs)
            elif kind == 'float':
                arg = xs[0]
            else:
                arg = int(round(xs[0]))
            if whole:
                arg = arg.round().astype(int)
            keep = arg.copy() if hasattr(arg, 'copy') else arg
            out = dev.measure(arg)
            ok = True
            if kind in ('series', 'index'):
                ok = isinstance(out, pd.Series) and list(out.index) == list(keep.index)
                got = list(out)
                kept = arg.equals(keep)
            elif kind == 'array':
                ok = isinstance(out, np.ndarray) and out.shape == keep.shape
                got = list(np.ravel(out))
                kept = np.array_equal(arg, keep, equal_nan=True)
            else:
                ok = np.ndim(out) == 0
                got = list(np.ravel(out))
                kept = True
            ev.append(dict(op='meas', ins=ins, vals=vals, errs=errs, got=[seen(x, k) for x in got], type=bool(ok), kept=bool(kept), **{'from': frm}))
            frm += m
    return ev


def fine(rng):
    """Values of up to twelve digits and instruments of about as many figures."""
    ev = []
    for _ in range(3):
        p, k = rng.randint(5, 13), rng.randint(-12, 3)
        vals = [rng.randint(10 ** (n - 1), 10 ** n - 1) for n in (rng.randint(6, 12) for _ in range(rng.randint(1, 30)))]
        vals = [v for v in vals if not tie(v, p)] or [999999999999]
        sg = [rng.choice([-1, 1]) for _ in vals]
        out = MeasInstrument(precision=p).measure(np.array([float(f'{s * v}e{k}') for s, v in zip(sg, vals)]))
        got = [s * float(x) / float(f'1e{k}') for s, x in zip(sg, out)]
        two = lambda v: dict(hi=v // 10 ** 6, lo=v % 10 ** 6)
        exact = all(abs(g - round(g)) < .01 and 0 <= g < 2e12 for g in got)
        ev.append(dict(op='fine', prec=p, vals=[two(v) for v in vals], got=[two(round(g)) if exact else two(0) for g in got], exact=exact))
    return ev


def simulated(rng):
    """Instruments of an environment, through whole simulations."""
    k = rng.choice([-6, -3, 0, 2])
    L, C = rng.randint(1, 2), rng.randint(1, 3)
    names = PA, PB, QA, CA, CB = rng.sample(NAMES, 5)
    inst = {}
    for nme in names:
        if rng.random() < .65:
            ins, errs, big = mk(rng, k, 5)
            inst[nme] = (ins, errs)
    # one instrument may serve several parameters; with a varying error the order of its draws would be left open
    share = [n for n in inst if not inst[n][0]['err'] or len(inst[n][1]) == 1]
    same = {n: n for n in names}
    if share and rng.random() < .4:
        for nme in rng.sample(names, rng.randint(1, 3)):
            if same[nme] == nme and nme not in same.values() or nme not in inst:
                same[nme] = rng.choice(share)
                inst[nme] = inst[same[nme]]
    ideal = (dict(err=False, prec=0, lims=[]), [0])
    IN = {n: inst.get(n, ideal) for n in names}
    if rng.random() < .5:
        made = {n: build(*inst[n], k) for n in inst}
        env = PhysTestEnv(meas_instms={n: made[same[n]] for n in inst})
    else:
        env = PhysTestEnv(meas_instms=[build(*inst[n], k, n) for n in inst])
    pos = {n: 0 for n in names}
    # values: parameters start at script values and stay; ties are avoided by drawing a whole pool of safe values
    D = rng.randint(1, 3)

    def pool(n, size):
        ins, errs = IN[n]
        out = []
        for _ in range(size):
            for _ in range(60):
                v = rng.randint(-90000, 90000)
                if not any(tie(v + (e if ins['err'] else 0), ins['prec']) for e in errs):
                    break
            else:
                v = None
            out.append(v)
        return out
    va, vb = pool(PA, L * C * D), pool(PB, L * C * D)
    if None in va or None in vb:
        return []
    for _ in range(40):
        off = rng.randint(-9000, 9000)
        ins, errs = IN[QA]
        if not any(tie(a + off + (e if ins['err'] else 0), ins['prec']) for a in va for e in errs):
            break
    else:
        return []
    mech = lambda: {'m': DegMechMdl()}
    var = lambda xs: InitValMdl(init_val=LatentVar(dev_vrtn_mdl=Script([num(x, k) for x in xs])))
    dev = DeviceMdl({PA: DegPrmMdl(mech(), var(va)), PB: DegPrmMdl(mech(), var(vb)),
                     QA: CircPrmMdl(eqn([PA, 'z'], [f'return {PA} + z']), z=LatentVar(deter_val=num(off, k)))})
    steps, info = [], []
    for j in range(rng.randint(1, 4)):
        if rng.random() < .2:
            steps.append(StrsSpec({CA: 1}, timedelta(hours=1)))
            info.append(None)
            continue
        tgt = {n: (pool(n, 1)[0]) for n in (CA, CB)}
        cnt = {}
        for n in rng.sample(names, len(names)):
            if rng.random() < .7 and (n not in tgt or tgt[n] is not None):
                cnt[n] = D if n in (PA, PB, QA) else rng.randint(1, 4)
        if not cnt:
            cnt = {PA: D}
        steps.append(MeasSpec(cnt, {n: num(x, k) for n, x in tgt.items() if x is not None}))
        info.append((cnt, tgt))
    # make sure that everything exists in full number
    steps.append(MeasSpec({PA: D, PB: D, QA: D}, {}))
    info.append(({PA: D, PB: D, QA: D}, {}))
    rep = gerabaldi.simulate(TestSpec(steps, C, L), dev, env)
    m = rep.measurements
    ev = []
    for j, i in enumerate(info):
        if i is None:
            continue
        cnt, tgt = i
        r = m[m['step #'] == j]
        for n in cnt:
            vals = {PA: va, PB: vb, QA: [a + off for a in va]}.get(n) or [tgt[n]] * cnt[n]
            got = [seen(x, k) for x in r[r['param'] == n]['measured']]
            ins, errs = IN[n]
            ev.append(dict(op='meas', ins=ins, vals=vals, errs=errs, got=got, type=True, kept=True, **{'from': pos[n]}))
            pos[n] += len(vals)
    return ev


def run(cid):
    rng = rng_for('instr', cid)
    ev = []
    try:
        with limit(20):
            ev = dict(dir=direct, fin=fine, sim=simulated)[cid[:3]](rng)
    except Exception as ex:
        ev = [dict(op='crash', why=f'{type(ex).__name__}: {ex}'[:300])]
    return dict(id=cid, ev=ev, _desc=cid)


def check(prop, res, scratch):
    quick = TIER == 'quick'
    out, gen, distinct = run_tlc('InstrMC', scratch)
    res.add_design('InstrMC', gen, distinct)
    jobs = [f'dir-{k}' for k in range(1500 if quick else 25000)] + [f'fin-{k}' for k in range(100 if quick else 3000)] + [f'sim-{k}' for k in range(400 if quick else 6000)]
    cases = [c for c in pmap(run, jobs, timeout=3000) if c['ev']]
    validate(res, 'InstrTrace', cases, scratch, lambda c: c == 'crash' or c.startswith('ins.'), chunk=5000)
    res.assumptions += ['values of at most seven significant digits (twelve for rounding alone), without exact rounding ties; errors are drawn in the order of the values']
