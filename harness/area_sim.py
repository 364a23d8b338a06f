"""C01-C06, C08, C16-C18: the simulation itself (spec/Sim.tla)."""
from common import *
import drv_sim

CLAUSES = {
    'C01': ('sum.', 'rows.time'),
    'C02': ('rows.', 'val.init', 'val.label', 'same.meas'),
    'C03': ('val.deg',),
    'C04': ('val.deg', 'same.idle'),
    'C05': ('val.fail', 'same.idle'),
    'C06': ('same.meas', 'twin.', 'rows.time', 'sum.start'),
    'C08': ('val.', 'sum.dur', 'sum.start', 'sum.end', 'rows.time'),
    'C16': ('val.',),
    'C17': ('val.', 'rows.', 'twin.'),
    'C18': ('val.circ',),
}
ASSUME = ['mechanism laws are monotone in time; values compared within the equivalent time solver tolerance',
          'populations of at most 4 lots x 4 chips x 8 devices; plans of at most 12 steps']


def decides(prop):
    return lambda c: c == 'crash' or c.startswith(CLAUSES[prop])


def design(res, scratch, maxlen, genlen):
    out, gen, distinct = run_tlc('SimMC', scratch, env={'MAXLEN': maxlen, 'GENLEN': genlen})
    res.add_design('SimMC', gen, distinct)
    plans = gen_lines(out)
    wit = {k: sum(p[k] for p in plans) for k in ('failed', 'damaged', 'capped')}
    if not all(wit.values()):
        raise MachineryError(f'SimMC never reaches some situation: {wit}')
    res.extra['design_witnesses'] = wit
    return [p['plan'] for p in plans]


def check(prop, res, scratch):
    quick = TIER == 'quick'
    plans = design(res, scratch, 4 if quick else 6, 4 if quick else 5)
    rng = rng_for('plans', prop)
    rng.shuffle(plans)
    jobs = drv_sim.plan_jobs(prop, plans[:250 if quick else 3000])
    jobs += drv_sim.random_jobs(prop, 450 if quick else 6000)
    if prop == 'C08':
        jobs.append(drv_sim.one_mech_job())
    cases = pmap(drv_sim.run_case, jobs, timeout=500 if quick else 3000)
    res.extra['spec_generated_plans'] = sum(c['id'].startswith('gen') for c in cases)
    validate(res, 'SimTrace', cases, scratch, decides(prop), chunk=3000)
    if prop == 'C06':
        from area_session import sessions
        sessions(prop, res, scratch, 150 if quick else 1500, 250 if quick else 3000)
    res.assumptions += ASSUME
