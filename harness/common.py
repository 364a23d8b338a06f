"""Shared plumbing: running TLC, parsing verdicts, evidence, process pool."""
from __future__ import annotations
import json, os, re, subprocess, sys, time, shutil, tempfile, hashlib, random, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
REPO = os.environ.get('VERIF_REPO', '/repo')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
NPROC = min(8, os.cpu_count() or 1)
BIG = 2000000000  # sentinel for values that cannot be represented


class MachineryError(Exception):
    pass


class Scratch:
    """A scratch directory removed at the end of the check."""
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='gbv_')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

    def file(self, name):
        return os.path.join(self.path, name)


def run_tlc(module, scratch, env=None, workers=NPROC, timeout=800, extra=(), cfg=None, heap='6g'):
    """Run TLC on spec/<module>.tla; returns (stdout, states generated, distinct states)."""
    meta = os.path.join(scratch.path, 'meta_' + module + hashlib.md5(repr(env).encode()).hexdigest()[:6])
    tmp = os.path.join(scratch.path, 'jtmp')
    os.makedirs(tmp, exist_ok=True)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + tmp, '-cp', CP, 'tlc2.TLC',
           '-workers', str(workers), '-noGenerateSpecTE', '-metadir', meta, '-config', (cfg or module) + '.cfg',
           *extra, module + '.tla']
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError(f'TLC on {module} exceeded {timeout} s')
    m = re.findall(r'^(\d+) states generated, (\d+) distinct', r.stdout, re.M)
    if r.returncode != 0 or not m:
        raise MachineryError(f'TLC on {module} failed (rc {r.returncode}):\n{r.stdout[-6000:]}\n{r.stderr[-2000:]}')
    shutil.rmtree(meta, ignore_errors=True)
    return r.stdout, int(m[-1][0]), int(m[-1][1])


def gen_lines(out, tag='GEN'):
    """JSON values printed by the specification as "TAG|<json>"."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag + '|'):
            res.append(json.loads(json.loads(line)[len(tag) + 1:]))
    # TLC's workers print in any order
    return sorted(res, key=lambda x: json.dumps(x, sort_keys=True))


def rejects(out):
    """[(case id, event index, {clauses})] printed by a trace specification."""
    res = []
    for line in out.splitlines():
        if line.startswith('"REJECT|'):
            _, cid, ev, cl, more = (json.loads(line) + '|').split('|', 4)
            res.append((cid.strip('"'), int(ev), set(re.findall(r'"([^"]+)"', cl)), more.rstrip('|')))
    return res


def write_ndjson(path, cases):
    with open(path, 'w') as f:
        for c in cases:
            f.write(json.dumps(c, separators=(',', ':'), allow_nan=False) + '\n')


def rng_for(*parts):
    return random.Random('/'.join(str(p) for p in (SEED,) + parts))


# ---------------------------------------------------------------- pool
def _worker(conn, fn, jobs):
    out = []
    for j in jobs:
        try:
            out.append((True, fn(j)))
        except BaseException:
            out.append((False, traceback.format_exc()))
    try:
        conn.send(out)
    finally:
        conn.close()


def pmap(fn, jobs, nproc=NPROC, timeout=600):
    """fork-based map: the package under test is imported once, before forking."""
    import multiprocessing as mp
    jobs = list(jobs)
    if not jobs:
        return []
    ctx = mp.get_context('fork')
    n = min(nproc, len(jobs))
    parts = [jobs[k::n] for k in range(n)]
    procs = []
    for part in parts:
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(b, fn, part), daemon=True)
        p.start()
        b.close()
        procs.append((p, a))
    res = [None] * len(jobs)
    end = time.time() + timeout
    for k, (p, a) in enumerate(procs):
        if not a.poll(max(0.1, end - time.time())):
            for q, _ in procs:
                q.kill()
            raise HangError(f'a worker did not finish within {timeout} s')
        try:
            out = a.recv()
        except EOFError:
            raise MachineryError('a worker died')
        p.join()
        for idx, o in zip(range(k, len(jobs), n), out):
            res[idx] = o
    bad = [o[1] for o in res if not o[0]]
    if bad:
        raise MachineryError('driver failure:\n' + bad[0])
    return [o[1] for o in res]


class HangError(Exception):
    pass


# ---------------------------------------------------------------- results
class Result:
    """Accumulates what a check covered and decided."""
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.violations = []     # (case id, event, clauses, replay data)
        self.design = {}
        self.extra = {}
        self.assumptions = []

    def add_design(self, name, gen, distinct):
        self.states += distinct
        self.transitions += max(gen - 1, 0)
        self.design[name] = {'generated': gen, 'distinct': distinct}

    def finish(self):
        from findings import known
        os.makedirs(EVID, exist_ok=True)
        real, kn = [], []
        for v in self.violations:
            k = known(self.prop, v)
            (kn if k else real).append((v, k))
        for v, k in {k: (v, k) for v, k in kn}.values():
            print(f'KNOWN-FINDING: property={self.prop} {k}')
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces, 'events_validated': self.events,
                           'design_models': self.design, 'samples': self.samples[:5], **self.extra},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(real)}
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        rp = os.path.join(EVID, f'{self.prop}_replay.json')
        if os.path.exists(rp):
            os.unlink(rp)
        if real:
            with open(rp, 'w') as f:
                json.dump([{'case': v[0], 'event': v[1], 'clauses': sorted(v[2]), 'data': v[3]} for v, _ in real[:10]],
                          f, indent=1, default=str)
            cl = sorted(set().union(*[v[2] for v, _ in real]))
            print(f'{len(real)} rejected events; failing clauses: {", ".join(cl)}; first case {real[0][0][0]}')
            print(f'VIOLATION property={self.prop} replay={rp}')
            return 1
        print(f'{self.prop}: ok, {self.states} design states, {self.traces} traces / {self.events} events validated '
              f'in {time.time() - self.t0:.1f} s')
        return 0


def validate(res, module, cases, scratch, clauses, env=None, timeout=700, chunk=None, keep=None):
    """Run the trace specification over all cases, record rejections of the given clauses.

    clauses: predicate on clause names (those that decide the property of this check)."""
    byid = {}
    for k, c in enumerate(cases):
        c.setdefault('id', str(k))
        byid[str(c['id'])] = c
    if len(byid) != len(cases):
        raise MachineryError('duplicate case ids')
    chunk = chunk or len(cases) or 1
    for a in range(0, len(cases), chunk):
        part = cases[a:a + chunk]
        path = scratch.file(f'{module}_{a}.ndjson')
        write_ndjson(path, [{k: v for k, v in c.items() if not k.startswith('_')} for c in part])
        out, gen, distinct = run_tlc(module, scratch, env={'TRACE': path, **(env or {})}, timeout=timeout)
        res.states += distinct
        res.transitions += gen - len(part)
        res.traces += len(part)
        res.events += sum(len(c['ev']) for c in part)
        for cid, ev, cl, more in rejects(out):
            hit = {c for c in cl if clauses(c)}
            if hit:
                c = byid[cid]
                res.violations.append((cid, ev, hit, {'detail': more, 'desc': c.get('_desc'), 'event': c['ev'][min(ev, len(c['ev'])) - 1] if c['ev'] else None,
                                                      'cfg': c.get('cfg') if keep is None else None}))
        os.unlink(path)
    for c in cases[:2]:
        res.samples.append({'case': c['id'], 'desc': c.get('_desc'), 'events': c['ev'][:2]})
