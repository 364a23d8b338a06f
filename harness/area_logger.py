"""C19: logger configuration (spec/Logger.tla)."""
import io, logging, logging.handlers
from common import *
from gb import *
try:
    from gerabaldi import configure_logger
except ImportError:
    from gerabaldi.helpers import configure_logger

DEFAULT = list(LOG.handlers)


class MyStream(logging.StreamHandler):
    pass


class MyFile(logging.FileHandler):
    pass


class Sink(logging.Handler):
    """Neither a stream nor a file handler."""
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())


class Run:
    def __init__(self, rng, path):
        self.rng, self.path, self.n = rng, path, 0
        self.ids, self.read, self.levels, self.names, self.files = {}, {}, {}, [], []
        LOG.disabled = False
        LOG.propagate = False
        for h in list(LOG.handlers):
            LOG.removeHandler(h)
        # start from the handler that the package installs itself
        for h in DEFAULT:
            LOG.addHandler(h)
        self.buf = sys.stderr = io.StringIO()     # where the default handler writes
        for h in DEFAULT:
            self.ids[id(h)] = 100
            self.levels[100] = h.level
        self.read[100] = lambda: self.buf.getvalue()
        LOG.setLevel(logging.DEBUG)
        self.ev = []
        self.record(op='start', stream=100, file=0, other=[])

    def dress(self, h, n):
        """A level of its own, and a format that tells whose output it is."""
        self.ids[id(h)] = n
        lv = self.rng.choice([0, 0, 10, 20, 40, 50])
        h.setLevel(lv)
        h.setFormatter(logging.Formatter(f'%(message)s#{n}#'))
        self.levels[n] = lv
        return h

    def new_stream(self):
        self.n += 1
        b = io.StringIO()
        h = self.rng.choice([logging.StreamHandler, MyStream])(b)
        self.read[100 + self.n] = b.getvalue
        return self.dress(h, 100 + self.n)

    def new_file(self):
        self.n += 1
        if not self.names or self.rng.random() < .6:
            self.names.append(os.path.join(self.path, f'{self.n}.log'))
        f = self.names[-1] if self.rng.random() < .7 else self.rng.choice(self.names)
        c = self.rng.choice([logging.FileHandler, MyFile, logging.handlers.RotatingFileHandler, logging.handlers.WatchedFileHandler])
        h = c(f, delay=self.rng.random() < .3)
        self.read[200 + self.n] = lambda: open(f).read() if os.path.exists(f) else ''
        self.files.append(h)
        return self.dress(h, 200 + self.n)

    def record(self, **e):
        msg = self.rng.choice([50, 50, 40, 10])
        tok = f'token{len(self.ev)}x'
        LOG.log(msg, tok)
        recv = []
        for i, f in self.read.items():
            recv += [i] * f().count(tok if i == 100 else f'{tok}#{i}#')
        self.ev.append(dict(handlers=[self.ids.get(id(h), 999) for h in LOG.handlers], level=LOG.level, msg=msg, recv=recv, hlv=[[i, v] for i, v in self.levels.items()], **e))

    def conf(self, r):
        kw = {}
        q = dict(stream=0, file=0, haslevel=r['haslevel'], level=r['level'])
        if r['haslevel']:
            kw['logging_level'] = r['level']
        if r['stream']:
            kw['stream_handler'] = self.last_stream = self.new_stream()
            q['stream'] = self.ids[id(kw['stream_handler'])]
        if r['file']:
            kw['file_handler'] = self.new_file()
            q['file'] = self.ids[id(kw['file_handler'])]
        res = 'ok'
        try:
            configure_logger(**kw)
        except Exception as ex:
            res = type(ex).__name__
        self.record(op='conf', r=q, res=res)

    def other(self):
        self.n += 1
        h = self.dress(Sink(), 300 + self.n)
        self.read[300 + self.n] = lambda: ' '.join(f'{g}#{self.ids[id(h)]}#' for g in h.got)
        LOG.addHandler(h)
        self.record(op='other', id=300 + self.n)


def run(job):
    cid, ops, path = job
    rng = rng_for('logger', cid)
    d = os.path.join(path, cid)
    os.makedirs(d)
    r = None
    try:
        with limit(20):
            r = Run(rng, d)
            for o in ops:
                r.other() if o == 'other' else r.conf(o)
            ev = r.ev
    except Exception as ex:
        ev = (r.ev if r else []) + [dict(op='crash', why=f'{type(ex).__name__}: {ex}'[:300])]
    for h in r.files if r else []:
        h.close()
    for h in list(LOG.handlers):
        LOG.removeHandler(h)
    quiet()
    sys.stderr = sys.__stderr__
    shutil.rmtree(d, ignore_errors=True)
    return dict(id=cid, ev=ev, _desc=ops)


def check(prop, res, scratch):
    quick = TIER == 'quick'
    out, gen, distinct = run_tlc('LoggerMC', scratch, env={'MAXOPS': 3})
    res.add_design('LoggerMC', gen, distinct)
    rng = rng_for('loggerjobs')
    seqs = gen_lines(out)
    rng.shuffle(seqs)
    jobs = [(f'gen-{k}', s, scratch.path) for k, s in enumerate(seqs[:1500])]
    res.extra['spec_generated_sequences'] = len(jobs)
    req = lambda: 'other' if rng.random() < .1 else dict(stream=int(rng.random() < .5), file=int(rng.random() < .5), **(dict(haslevel=True, level=rng.choice([0, 5, 10, 20, 30, 40, 50])) if rng.random() < .5 else dict(haslevel=False, level=0)))
    jobs += [(f'rnd-{k}', [req() for _ in range(rng.randint(1, 10))], scratch.path) for k in range(500 if quick else 5000)]
    cases = pmap(run, jobs, timeout=3000)
    validate(res, 'LoggerTrace', cases, scratch, lambda c: c == 'crash' or c.startswith('log.'), chunk=4000)
    res.assumptions += ['handlers of the two kinds are only installed through configure_logger']
