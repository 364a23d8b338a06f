"""C23: the vectorised minimiser (spec/Solver.tla)."""
from common import *
from gb import *
from gerabaldi.math import minimize

SHAPES = {
    'vee': lambda d, s: s * abs(d),
    'left': lambda d, s: np.where(d < 0, -5 * s * d, s * d),
    'right': lambda d, s: np.where(d > 0, 50 * s * d, -s * d),
    'quad': lambda d, s: s * d * d,
    'skew': lambda d, s: np.where(d < 0, s * abs(d) ** 1.5, s * abs(d) ** 3),
    'root': lambda d, s: s * np.sqrt(abs(d)),
    'mixed': lambda d, s: np.where(d < 0, s * d * d, s * abs(d)),
    'wall': lambda d, s: np.where(d < 0, -s * d, 1e6 * s * np.sqrt(abs(d))),
    'ramp': lambda d, s: s * np.log1p(abs(d) * 10),
}


def spec_of(rng):
    """A batch: bounds, kind of search, and per element its shape, minimum and scale."""
    log = rng.random() < .5
    if log:
        lo = 10.0 ** rng.randint(-4, 1)
        hi = lo * 10.0 ** rng.randint(1, 12)
        if rng.random() < .5:
            lo, hi = lo * rng.uniform(1, 9), hi * rng.uniform(1, 9)
    else:
        lo = rng.choice([0, -5.0, 1e-3, -1000.0, 3.0])
        hi = lo + rng.choice([1.0, 10.0, 250.0, 1e4])
    dims = rng.choice([(1,), (2,), (5,), (2, 3), (2, 2, 2), (1, 1, 1), (3, 1, 2), ()])
    n = int(np.prod(dims)) if dims else 1
    A, B = (np.log10(lo), np.log10(hi)) if log else (lo, hi)
    el = []
    for _ in range(n):
        f = rng.choice([0, 1, .382, .618, .5, rng.random(), rng.random(), rng.random(), rng.random() ** 4, 1 - rng.random() ** 4])
        el.append(dict(kind=rng.choice(sorted(SHAPES)), m=A + f * (B - A), s=10.0 ** rng.randint(-6, 6)))
    prec = rng.choice([1e-5, 1e-5, 1e-3, 1e-6])
    return dict(prec=prec, kw={} if prec == 1e-5 and rng.random() < .5 else dict(precision=prec), log=log, lo=lo, hi=hi, dims=list(dims), el=el, maxiter=rng.choice([400, 400, 400, 20, 5]), order=rng.random() < .5)


def solve(sp, el, dims):
    """Runs the real minimiser; returns answers, queries and values per element."""
    n = len(el)
    m = np.array([e['m'] for e in el]).reshape(dims)
    s = np.array([e['s'] for e in el]).reshape(dims)
    ks = [e['kind'] for e in el]
    ok = [True]

    def value(x, m, s):
        d = ((np.log10(x) if sp['log'] else x) - m)
        d, s = np.asarray(d, float).reshape(-1), np.asarray(s, float).reshape(-1)
        return np.array([float(SHAPES[k](d[j], s[j])) for j, k in enumerate(ks)]).reshape(dims)
    calls = []

    def func(x, first, second):
        if np.shape(x) != tuple(dims):
            ok[0] = False
        if first is not (m if sp['order'] else s) or second is not (s if sp['order'] else m):
            ok[0] = ok[0] and np.array_equal(first, m if sp['order'] else s)
        v = value(x, first, second) if sp['order'] else value(x, second, first)
        calls.append((np.array(x, float).reshape(-1).copy(), v.reshape(-1).copy()))
        return v
    args = {'first': m, 'second': s} if sp['order'] else {'first': s, 'second': m}
    r = minimize(func, args, (sp['lo'], sp['hi']), **sp['kw'], maxiter=sp['maxiter'], log_gold=sp['log'])
    if np.shape(r) != tuple(dims):
        ok[0] = False
        r = np.full(dims, r) if np.ndim(r) == 0 else np.asarray(r).reshape(dims)
    rv = value(r, m, s).reshape(-1)
    return np.array(r, float).reshape(-1), rv, calls, ok[0], len(calls)


def run(job):
    cid, sp = job
    ev = []
    try:
        with limit(60):
            r, rv, calls, ok, n = solve(sp, sp['el'], sp['dims'])
            A, B = (np.log10(sp['lo']), np.log10(sp['hi'])) if sp['log'] else (sp['lo'], sp['hi'])
            co = (lambda x: np.log10(x)) if sp['log'] else (lambda x: x)
            for j, e in enumerate(sp['el']):
                vals = sorted({float(c[1][j]) for c in calls} | {float(rv[j])})
                # values that only differ by the rounding of the transformation to logarithms and back count as the same
                tiny = 1e-14 * (1 + abs(e['m'])) if sp['log'] else 1e-15 * abs(e['m'])
                same = max(float(SHAPES[e['kind']](x, e['s'])) for x in (tiny, -tiny))
                rank, last, k = {}, None, 0
                for v in vals:
                    if last is None or v - last > 1e-9 * abs(v) + 1e-13 * e['s'] + same:
                        k += 1
                        last = v
                    rank[v] = k
                pos = lambda x: milli((co(x) - A) / (B - A), 1e9)
                q = [[pos(c[0][j]), rank[float(c[1][j])]] for c in calls]
                tol = sp['prec'] / 3 + 2.0**-26.5 * abs(e['m'])
                full = n < sp['maxiter'] + 1 or sp['maxiter'] >= 400
                a1 = 0
                if full and len(sp['el']) > 1:
                    x1 = solve(sp, [e], [1])[0][0]
                    a1 = milli(abs(co(x1) - co(r[j])) / tol)
                ev.append(dict(op='element', q=q, ret=[pos(r[j]), rank[float(rv[j])]], err=milli(abs(co(r[j]) - e['m']) / tol), full=bool(full), alone=a1,
                               shape=bool(ok), n=n))
    except Exception as ex:
        ev.append(dict(op='crash', why=f'{type(ex).__name__}: {ex}'[:300]))
    return dict(id=cid, ev=ev, _desc=sp)


def check(prop, res, scratch):
    quick = TIER == 'quick'
    out, gen, distinct = run_tlc('SolverMC', scratch, env={'GRID': 6 if quick else 8}, timeout=2500)
    res.add_design('SolverMC', gen, distinct)
    rng = rng_for('solver')
    jobs = [(f'b-{k}', spec_of(rng)) for k in range(1200 if quick else 15000)]
    cases = pmap(run, jobs, timeout=600 if quick else 3000)
    full = sum(e.get('full', False) for c in cases for e in c['ev'])
    res.extra['elements_run_to_convergence'] = full
    validate(res, 'SolverTrace', cases, scratch, lambda c: c == 'crash' or c.startswith('sol.'), chunk=1500)
    res.assumptions += ['strictly unimodal functions whose minimum can be resolved in floating point']
