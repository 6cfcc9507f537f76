"""What each check runs: property -> jobs."""
import vlib

LEVELS = {}
ASSUMPTIONS = [
    'the Quint specification states modular arithmetic and the group law correctly (its own tests and invariants are run)',
    'behaviours are sampled from the specification: conformance is shown for the replayed ones',
    'the driver translates specification events to API calls one to one',
]

# samples per job and steps per behaviour (quick), jobs per machine
FIELD_STEPS = {
    'F01': (500, 45), 'F02': (400, 45), 'F03': (450, 45), 'F04': (250, 40), 'F05': (180, 40), 'F06': (280, 40),
    'F07': (350, 45), 'F08': (150, 40), 'F09': (400, 45), 'F11': (300, 40), 'F12': (180, 40), 'F13': (290, 60),
}
CURVE_STEPS = {'C01': (34, 25), 'C02': (48, 30), 'C03': (48, 30), 'C04': (20, 20), 'C05': (40, 30)}


# operations judged on the toy curves, which are explored exhaustively
TOY_OPS = {'C01': ('zero', 'init'), 'C02': ('add',), 'C03': ('double', 'triple'), 'C04': ('smul',), 'C05': ()}


# size of the behaviours watched instruction by instruction
WATCHED = 8_000_000


def field_jobs(step, tier, seed, samples, steps, rounds):
    out = []
    for r in range(rounds):
        for i, m in enumerate(vlib.FIELDS):
            out.append(dict(kind='field', machine=m, step=step, seed=seed * 100003 + r * 101 + i,
                            samples=samples, steps=steps, cost=vlib.FIELDS[m][0] * samples * steps))
    return out


def curve_jobs(step, tier, seed, samples, steps, rounds):
    out = []
    for r in range(rounds):
        for i, m in enumerate(vlib.CURVES):
            n = vlib.FIELDS[vlib.CURVES[m]][0]
            out.append(dict(kind='curve', machine=m, step=step, seed=seed * 100003 + r * 101 + i,
                            samples=samples, steps=steps, cost=n * n * samples * steps))
    return out


def jobs_for(pid, tier, seed):
    deep = tier == 'thorough'
    jobs = []
    if pid in FIELD_STEPS:
        s, n = FIELD_STEPS[pid]
        jobs += field_jobs('step' + pid, tier, seed, s, n, 24 if deep else 2)
    if pid in CURVE_STEPS:
        s, n = CURVE_STEPS[pid]
        jobs += curve_jobs('step' + pid, tier, seed, s * (2 if deep else 1), n, 40 if deep else 5)
    if pid in TOY_OPS:
        for m in vlib.TOYS:
            jobs.append(dict(kind='toy', machine=m, ops=TOY_OPS[pid], aspect='consistency' if pid == 'C05' else 'result', cost=10**9))
    if pid == 'F13' and deep:
        jobs += [dict(kind='proof', machine=m, cost=10**9) for m in vlib.FIELDS]
    if pid == 'F11':
        jobs.append(dict(kind='test', spec='constants.qnt', main='constants', cost=0))
    if pid == 'F10':
        for r in range(20 if deep else 2):
            for i, m in enumerate(vlib.FIELDS):
                jobs.append(dict(kind='trace', machine=m, step='stepF10', seed=seed * 100003 + r * 101 + i, steps=600,
                                 cost=vlib.FIELDS[m][0]))
    if pid == 'C06':
        for r in range(48 if deep else 6):
            for i, m in enumerate(vlib.CURVES):
                n = vlib.FIELDS[vlib.CURVES[m]][0]
                jobs.append(dict(kind='group', machine=m, step='stepC06', seed=seed * 100003 + r * 101 + i,
                                 samples=60, steps=50, cost=n * n))
    if pid == 'T01':
        jobs += field_jobs('step', tier, seed, 180, 40, 24 if deep else 2)
        jobs += curve_jobs('step', tier, seed, 12 * (2 if deep else 1), 25, 20 if deep else 2)
    if pid == 'T02':
        for r in range(12 if deep else 1):
            for i, m in enumerate(list(vlib.FIELDS) + list(vlib.CURVES)):
                n, curve = vlib.FIELDS[vlib.CURVES.get(m, m)][0], m in vlib.CURVES
                jobs.append(dict(kind='leak', machine=m, seed=seed * 100003 + r * 101 + i, samples=30 if curve else min(100, 25000 // n),
                                 steps=25 if curve else 40, watched=(WATCHED if curve else WATCHED // 4) * (4 if deep else 1), cost=n * n * (5 if curve else 2)))
    if pid == 'T03':
        for r in range(24 if deep else 2):
            for i, m in enumerate(vlib.FIELDS):
                n = vlib.FIELDS[m][0]
                jobs.append(dict(kind='world', machine=m, seed=seed * 100003 + r * 101 + i, samples=24, steps=90, rounds=3, cost=n * n))
    if not jobs:
        raise SystemExit('unknown property ' + pid)
    return jobs
