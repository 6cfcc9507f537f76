#!/usr/bin/env python3
"""check.py <property>: decide one property against /repo's working tree.
check.py replay <file>: run the commands of a replay file again."""
import json, os, sys, time
from concurrent.futures import ProcessPoolExecutor, as_completed
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from plan import jobs_for, LEVELS, ASSUMPTIONS


def main():
    pid = sys.argv[1]
    if pid == 'replay':
        v = json.load(open(sys.argv[2]))
        if v['property'] == 'T02':
            import special
            vlib.build_leak()
            for line in special.observe(v['profile'], v['commands'])[0]:
                print(line)
            return 0
        vlib.build()
        for c, o in zip(v['commands'], vlib.drive(v['profile'], v['commands'], threads=v.get('threads', 0))):
            print(c, '->', o)
        print('expected:', v['expected'])
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    viols, errors = [], []
    agg = dict(steps=0, traces=0, states=set(), ops={}, carries={}, lazy_match=0, lazy_total=0, samples=[], extra={})
    try:
        vlib.build()
        if pid == 'T02':
            vlib.build_leak()
    except vlib.ToolError as e:
        print(str(e), file=sys.stderr)
        return 2
    jobs = jobs_for(pid, tier, seed)
    # longest first
    jobs.sort(key=lambda j: -j.get('cost', 0))
    with ProcessPoolExecutor(max_workers=int(os.environ.get('VERIF_JOBS', '8'))) as ex:
        futs = [ex.submit(vlib.run_job, j) for j in jobs]
        for f in as_completed(futs):
            if f.cancelled():
                continue
            job, st, v, err, dt = f.result()
            if os.environ.get('VERIF_TIMES'):
                print('%6.1fs %s' % (dt, {k: x for k, x in job.items() if k != 'payload'}), file=sys.stderr)
            if err:
                errors.append((job, err))
            if st:
                agg['steps'] += st.get('steps', 0)
                agg['traces'] += st.get('traces', 0)
                agg['states'] |= {(job.get('machine'), s) for s in st.get('states', ())}
                for k in ('ops', 'carries'):
                    for a, b in st.get(k, {}).items():
                        agg[k][a] = agg[k].get(a, 0) + b
                agg['lazy_match'] += st.get('lazy_match', 0)
                agg['lazy_total'] += st.get('lazy_total', 0)
                if len(agg['samples']) < 6:
                    agg['samples'] += st.get('samples', [])[:1]
                for k in ('spec_tests', 'apalache_steps', 'coincidences', 'trace_events_validated', 'windows_observed', 'public_classes', 'thread_rounds', 'simultaneous_first_uses'):
                    if k in st:
                        agg['extra'][k] = agg['extra'].get(k, 0) + st[k]
                for k, x in st.get('notes', {}).items():
                    if isinstance(x, list):
                        agg['extra'][k] = sorted(set(agg['extra'].get(k, []) + x))
                    else:
                        agg['extra'][k] = x
            if v:
                viols.append((job, v))
                if len(viols) >= 1:
                    for g in futs:
                        g.cancel()
    wall = time.time() - t0
    cov = {'states': len(agg['states']), 'transitions': agg['steps'],
           'traces_validated_against_impl': agg['traces'], 'samples': agg['samples'] or [jobs[0]],
           'operations': dict(sorted(agg['ops'].items())), 'builds_compared': list(vlib.PROFILES)}
    if agg['carries']:
        cov['pending_carry_classes'] = {str(k): x for k, x in sorted(agg['carries'].items())}
    if agg['lazy_total']:
        cov['representation_model_agreement'] = round(agg['lazy_match'] / agg['lazy_total'], 6)
    cov.update(agg['extra'])
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': LEVELS.get(pid, 'model_checking'), 'coverage': cov, 'assumptions': ASSUMPTIONS,
          'wall_s': round(wall, 1), 'violations': len(viols)}
    os.makedirs(os.path.join(vlib.ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(vlib.ROOT, 'evidence', pid + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
    for job, v in viols[:1]:
        path = vlib.write_replay(pid, v)
        print('machine %s (%s build): %s' % (v['machine'], v['profile'], v['failed_command'][:300]))
        print('  expected %s' % str(v['expected'])[:600])
        print('  got      %s' % str(v['got'])[:600])
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if viols:
        return 1
    if errors:
        for job, e in errors[:3]:
            print('ERROR in %s: %s' % (job, e), file=sys.stderr)
        return 2
    print('%s held: %d behaviours, %d transitions, %d distinct states, %.1f s'
          % (pid, agg['traces'], agg['steps'], len(agg['states']), wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
