"""Shared machinery: builds the replay driver from /repo's working tree, asks
Quint for behaviours of the specification, replays them into the real code and
compares. Only the standard library is used."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ProcessPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec')
TARGET = os.path.join(ROOT, 'target')
WORK = os.path.join(ROOT, 'work')
REPLAYS = os.path.join(ROOT, 'replays')
PROFILES = ('checked', 'unchecked')
DRIVER_TIMEOUT = 240

# name -> bits, c, packed bytes, limb width
FIELDS = {
    'e221_3': (221, 3, 28, 58), 'e222_117': (222, 117, 28, 58), 'e251_9': (251, 9, 32, 56),
    'e255_19': (255, 19, 32, 56), 'e382_105': (382, 105, 48, 56), 'e383_187': (383, 187, 48, 56),
    'e414_17': (414, 17, 52, 56), 'e511_187': (511, 187, 64, 54), 'e521_1': (521, 1, 66, 54)}
TOYS = ('t13', 't17', 't23', 't29', 't31')
CURVES = {'c_e222': 'e222_117', 'c_1174': 'e251_9', 'c_e382': 'e382_105', 'c_41417': 'e414_17', 'c_e521': 'e521_1'}


class ToolError(Exception):
    pass


def prime(machine):
    n, c = FIELDS[CURVES.get(machine, machine)][:2]
    return 2 ** n - c


# ----------------------------------------------------------------- building

def _cargo_env(profile):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('CARGO_PROFILE') or k in ('CARGO_BUILD_TARGET', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
            del env[k]
    env['HOME'] = '/root'
    env['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    env.update(RUSTFLAGS='--cfg verif_hooks -Awarnings', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0',
               RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TERM_COLOR='never',
               CARGO_TARGET_DIR=os.path.join(TARGET, profile))
    return env


def driver(profile):
    return os.path.join(TARGET, profile, profile, 'driver')


def toy(profile):
    return os.path.join(TARGET, profile, profile, 'toy')


def build():
    """Build the driver in both profiles from the current tree."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        procs = []
        for p in PROFILES:
            # cargo goes by mtime: make it look at the crate again
            for d in glob.glob(os.path.join(TARGET, p, p, '.fingerprint', 'safecurves-rust-*')):
                shutil.rmtree(d, ignore_errors=True)
            procs.append((p, subprocess.Popen(
                ['cargo', 'build', '--offline', '--profile', p], cwd=os.path.join(ROOT, 'harness'),
                env=_cargo_env(p), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for p, pr in procs:
            out, _ = pr.communicate(timeout=800)
            if pr.returncode != 0:
                raise ToolError('building the driver (%s) failed:\n%s' % (p, out[-3000:]))
        # The toy fields implement the crate's PrimeField trait, so they need
        # not compile against a tree that extends it: their jobs are left out
        # then.
        for p in PROFILES:
            if os.path.exists(toy(p)):
                os.remove(toy(p))
        procs = [subprocess.Popen(['cargo', 'build', '--offline', '--profile', p], cwd=os.path.join(ROOT, 'toy'),
                                  env=_cargo_env(p), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for p in PROFILES]
        for pr in procs:
            pr.wait(timeout=800)


TRIPLE = 'x86_64-unknown-linux-gnu'
COVERAGE = ' '.join(['-C passes=sancov-module'] + ['-C llvm-args=-sanitizer-coverage-' + x for x in
                                                   ('level=3', 'trace-pc-guard', 'trace-loads', 'trace-stores')])


def leak(observer):
    d, p = ('graph', 'plain') if observer == 'plain' else (observer, 'release')
    return os.path.join(TARGET, d, TRIPLE, p, 'leak')


def build_leak():
    """The leakage driver: under sanitizer coverage (control flow graph),
    optimized and not, and as users build it (watched by valgrind)."""
    d, env = os.path.join(ROOT, 'leak'), _cargo_env('')
    with open(os.path.join(TARGET, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = os.path.join(d, 'src')
        for cmd in (['gcc', '-O2', '-DLK_COVERAGE', '-c', src + '/mark.c', '-o', TARGET + '/mark_graph.o'],
                    ['gcc', '-O2', '-c', src + '/mark.c', '-o', TARGET + '/mark_machine.o'],
                    ['gcc', '-O2', src + '/watch.c', '-o', TARGET + '/watch']):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise ToolError('gcc: ' + r.stderr[-2000:])
        for x in glob.glob(os.path.join(TARGET, '*', TRIPLE, '*', '.fingerprint', 'safecurves-rust-*')):
            shutil.rmtree(x, ignore_errors=True)
        procs = []
        for o, extra, profiles in (('graph', ' ' + COVERAGE, ('release', 'plain')), ('machine', '', ('release',))):
            e = dict(env, CARGO_TARGET_DIR=os.path.join(TARGET, o),
                     RUSTFLAGS='-Awarnings -C link-arg=%s/mark_%s.o%s' % (TARGET, o, extra))
            cmd = ' && '.join('cargo build --offline --profile %s --target %s' % (p, TRIPLE) for p in profiles)
            procs.append(subprocess.Popen(cmd, shell=True, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for pr in procs:
            out, _ = pr.communicate(timeout=800)
            if pr.returncode != 0:
                raise ToolError('building the leakage driver failed:\n' + out[-3000:])


# ----------------------------------------------------------------- driving the code

CALLERS = ('A', 'B', 'G')     # of the composed specifications in spec/worlds


class Hang(Exception):
    pass


def drive(profile, lines, want_repr=False, threads=0):
    """Feed command lines to the driver; the answers, one per line. With
    `threads`, each caller in a thread of its own, that many times over; if
    that is negative, once and in lockstep."""
    exe = [driver(profile)] + (['repr'] if want_repr else []) + (['threads', str(threads)] if threads > 0 else ['threads', '1', 'lockstep'] if threads else [])
    try:
        r = subprocess.run(exe, input='\n'.join(lines) + '\n', capture_output=True, text=True, timeout=DRIVER_TIMEOUT)
    except subprocess.TimeoutExpired as e:
        got = (e.stdout or b'').decode(errors='replace').split('\n')
        raise Hang(len(got))
    out = r.stdout.split('\n')
    if out and out[-1] == '':
        out.pop()
    if r.returncode != 0:
        # the process died (abort, stack overflow, ...): the command after the
        # last answer is the one to blame
        out.append('PANIC process ended with status %d|' % r.returncode)
    return out


# ----------------------------------------------------------------- quint

def _hook(o):
    if len(o) == 1 and '#bigint' in o:
        return int(o['#bigint'])
    return o


def short(states):
    """Strip the module path from variable names, but for the caller's."""
    res = []
    for s in states:
        t = {}
        for k, v in s.items():
            if not k.startswith('#'):
                path = k.split('::')
                t['::'.join(path[-2:]) if len(path) > 2 and path[-2] in CALLERS else path[-1]] = v
        res.append(t)
    return res


def quint_run(spec, main, step, seed, samples, steps, inv='inv_all', init='init', timeout=700):
    """Behaviours of the specification: a list of lists of states. The
    invariant is checked by Quint in every state of every behaviour."""
    os.makedirs(WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix='itf_', dir=WORK)
    try:
        cmd = ['quint', 'run', os.path.join(SPEC, spec), '--main', main, '--init', init, '--step', step,
               '--max-samples', str(samples), '--n-traces', str(samples), '--max-steps', str(steps),
               '--out-itf', os.path.join(d, 't_{seq}.itf.json'), '--seed', str(seed), '--n-threads', '1', '--verbosity', '1']
        if inv:
            cmd += ['--invariant', inv]
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=d)
        if r.returncode != 0 or '[ok]' not in r.stdout:
            raise ToolError('quint run failed (%s %s %s): %s' % (spec, main, step, (r.stdout + r.stderr)[-2000:]))
        traces = []
        for f in sorted(glob.glob(os.path.join(d, 't_*.itf.json'))):
            with open(f) as fh:
                traces.append(short(json.load(fh, object_hook=_hook)['states']))
        if not traces:
            raise ToolError('quint run wrote no traces (%s %s %s)' % (spec, main, step))
        return traces
    finally:
        shutil.rmtree(d, ignore_errors=True)


def quint_test(spec, main, match=None, timeout=800, samples=1):
    """Run the `run ...Test` definitions of a module. -> number passed."""
    cmd = ['quint', 'test', os.path.join(SPEC, spec), '--main', main, '--max-samples', str(samples)]
    if match:
        cmd += ['--match', match]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd='/tmp')
    m = re.search(r'(\d+) passing', r.stdout)
    return r.returncode == 0 and m is not None and 'failed' not in r.stdout, int(m[1]) if m else 0, r.stdout + r.stderr


# ----------------------------------------------------------------- behaviours -> commands

def field_cmd(e):
    o = e['op']
    g = lambda *k: ' '.join(str(e[x]) for x in k)
    if o == 'load':
        return 'load %s %x' % (g('d', 'form'), e['v'])
    if o == 'const':
        return 'const %d %s' % (e['d'], e['name'])
    if o == 'rand':
        return 'rand %d %s' % (e['d'], ' '.join('%x' % w for w in e['ws']))
    if o in ('copy', 'neg', 'legendre', 'sqrtsq', 'sqsqrtsq'):
        return '%s %s' % (o, g('d', 'a'))
    if o in ('add', 'sub', 'mul', 'div', 'divmul', 'band', 'bor'):
        return '%s %s' % (o, g('form', 'd', 'a', 'b'))
    if o in ('square', 'invert', 'invmul'):
        return '%s %s' % (o, g('form', 'd', 'a'))
    if o in ('sadd', 'ssub', 'smul', 'mask'):
        return '%s %s' % (o, g('form', 'd', 'a', 'k'))
    if o in ('addv', 'subv', 'rsubv', 'mulv', 'rmulv'):
        return '%s %s %x' % (o, g('form', 'd', 'a'), e['v'])
    if o == 'legmul':
        return 'legmul ' + g('d', 'a', 'b')
    if o == 'sqrtany':
        return 'sqrtany ' + g('d', 'a', 'k')
    if o == 'eqbits':
        return 'eqbits ' + g('form', 'a')
    if o == 'debug':
        return 'debug %d' % e['a']
    if o in ('burst', 'longburst'):
        return '%s %s' % (o, g('name', 'form', 'd', 'a', 'b', 'k', 'v'))
    if o == 'mulxy':
        return 'mulxy %s %x %x' % (g('form', 'd'), e['v'], e['ws'][0])
    if o == 'squarev':
        return 'squarev %s %x' % (g('form', 'd'), e['v'])
    if o == 'smallmatrix':
        return 'smallmatrix %s' % g('name', 'd', 'a')
    if o == 'probe':
        return 'probe %s %x' % (g('form', 'a', 'b', 'k'), e['v'])
    if o == 'sweep':
        return 'sweep %s %x' % (g('form', 'd', 'a', 'b', 'k'), e['v'])
    if o == 'legsq':
        return 'legsq %s' % g('d', 'a', 'k')
    if o == 'normalize':
        return 'normalize %d' % e['a']
    if o in ('pack', 'hex', 'bits'):
        return '%s %s' % (o, g('form', 'a'))
    if o == 'unpack':
        return 'unpack %s %s' % (g('form', 'd'), ','.join(map(str, e['obs'])))
    if o == 'sizes':
        return 'sizes'
    if o == 'eq':
        return 'eq %s' % g('form', 'a', 'b')
    if o == 'bit':
        return 'bit %s' % g('form', 'a', 'k')
    if o == 'select':
        return 'select %s' % g('form', 'd', 'a', 'b', 'k')
    raise ToolError('no command for ' + o)


def field_expect(e, st, nb):
    obs = '-' if e['op'] == 'unpack' or not e['obs'] else ','.join(map(str, e['obs']))
    return obs, ' '.join('%0*x' % (2 * nb, v) for v in st['reg'])


def curve_cmd(e):
    o = e['op']
    g = lambda *k: ' '.join(str(e[x]) for x in k)
    if o == 'zero':
        return 'zero %d' % e['d']
    if o == 'init_xy':
        return 'init_xy %s %x %x' % (g('form', 'd'), e['pt']['x'], e['pt']['y'])
    if o == 'add':
        return 'add ' + g('form', 'd', 'a', 'b')
    if o in ('double', 'triple'):
        return '%s %s' % (o, g('form', 'd', 'a'))
    if o == 'smul':
        return 'smul %s %x' % (g('form', 'd', 'a'), e['k'])
    if o == 'smsweep':
        return 'smsweep %s %s %x' % (g('form', 'd', 'a'), ' '.join(map(str, e['sw'])), e['k'])
    if o == 'smloose':
        return 'smloose %s %x' % (g('form', 'a'), e['k'])
    if o == 'smprobe':
        return 'smprobe %s %s %x' % (g('form', 'a'), ' '.join(map(str, e['sw'])), e['k'])
    if o == 'copy':
        return 'copy ' + g('d', 'a')
    raise ToolError('no command for ' + o)


def curve_judge(got, st, p):
    """Projection of extended coordinates to the abstract affine point (which
    the specification holds as a fraction)."""
    for i, (w, q) in enumerate(zip(got.split(' '), st['pts'])):
        x, y, z, t = (int(v, 16) for v in w.split(','))
        if z == 0:
            return 'register %d: Z = 0' % i
        if (x * q['z'] - q['x'] * z) % p or (y * q['z'] - q['y'] * z) % p:
            zi = pow(z, -1, p)
            return 'register %d: point (%x, %x), expected (%x, %x)' % ((i, x * zi % p, y * zi % p) + affine(q, p))
        if (t * z - x * y) % p:
            return 'register %d: T*Z != X*Y' % i
    return None


def affine(q, p):
    zi = pow(q['z'], -1, p)
    return q['x'] * zi % p, q['y'] * zi % p


def lazy_value(debug, w):
    """Integer denoted by the Debug rendering of a limb array."""
    m = re.search(r'\[(.*)\]', debug)
    v = 0
    for i, h in enumerate(m[1].split(',')):
        x = int(h.strip(), 16)
        if x >= 1 << 63:
            x -= 1 << 64
        v += x << (w * i)
    return v


# ----------------------------------------------------------------- replay of one job

def replay_field(machine, traces, profiles=PROFILES, want_repr=False):
    """-> (stats, violation or None)"""
    n, c, nb, w = FIELDS[machine]
    lines, exp = [], []
    st = dict(steps=0, states=set(), ops={}, carries={}, lazy_match=0, lazy_total=0, samples=[], traces=len(traces))
    for ti, tr in enumerate(traces):
        lines.append('machine ' + machine)
        exp.append(None)
        for s in tr[1:]:
            e = s['ev']
            lines.append(field_cmd(e))
            exp.append((e, field_expect(e, s, nb), s))
            st['steps'] += 1
            st['states'].add(hash(tuple(s['reg']) + (e['op'],)))
            k = '%s/%d' % (e['op'], e['form'])
            st['ops'][k] = st['ops'].get(k, 0) + 1
            for v in s['lazy']:
                cy = v >> n
                st['carries'][cy] = st['carries'].get(cy, 0) + 1
        if len(tr) > 3 and len(st['samples']) < 2:
            st['samples'].append({'machine': machine, 'behaviour': lines[-min(len(tr) - 1, 6):]})
    viol = None
    for prof in profiles:
        rp = want_repr and prof == 'checked'
        try:
            got = drive(prof, lines, rp)
        except Hang as h:
            i = max(0, min(h.args[0] - 1, len(lines) - 1))
            return st, violation(machine, prof, lines, i, 'an answer', 'no answer within %d s' % DRIVER_TIMEOUT)
        for i, x in enumerate(exp):
            if i >= len(got):
                return st, violation(machine, prof, lines, i, 'an answer', 'none')
            if x is None:
                continue
            e, (obs, regs), s = x
            g = got[i].split('|')
            if g[0].startswith('PANIC'):
                if 'TOOL:' in g[0]:
                    raise ToolError('driver: %s on %s' % (g[0], lines[i]))
                return st, violation(machine, prof, lines, i, obs + '|' + regs, got[i])
            if g[0] != obs or g[1] != regs:
                return st, violation(machine, prof, lines, i, obs + '|' + regs, got[i])
            if rp:
                for dbg, lz in zip(g[2].split(';'), s['lazy']):
                    st['lazy_total'] += 1
                    try:
                        st['lazy_match'] += lazy_value(dbg, w) == lz
                    except Exception:
                        pass
    return st, viol


def replay_curve(machine, traces, profiles=PROFILES, want_repr=False):
    p = prime(machine)
    lines, exp = [], []
    st = dict(steps=0, states=set(), ops={}, carries={}, lazy_match=0, lazy_total=0, samples=[], traces=len(traces))
    for tr in traces:
        lines.append('machine ' + machine)
        exp.append(None)
        for s in tr[1:]:
            e = s['ev']
            lines.append(curve_cmd(e))
            exp.append((e, s))
            st['steps'] += 1
            st['states'].add(hash(tuple(affine(q, p) for q in s['pts']) + (e['op'],)))
            k = '%s/%d' % (e['op'], e['form'])
            st['ops'][k] = st['ops'].get(k, 0) + 1
        if len(tr) > 3 and len(st['samples']) < 2:
            st['samples'].append({'machine': machine, 'behaviour': lines[-min(len(tr) - 1, 5):]})
    for prof in profiles:
        try:
            got = drive(prof, lines)
        except Hang as h:
            i = max(0, min(h.args[0] - 1, len(lines) - 1))
            return st, violation(machine, prof, lines, i, 'an answer', 'no answer within %d s' % DRIVER_TIMEOUT)
        for i, x in enumerate(exp):
            if i >= len(got):
                return st, violation(machine, prof, lines, i, 'an answer', 'none')
            if x is None:
                continue
            g = got[i].split('|')
            if g[0].startswith('PANIC'):
                if 'TOOL:' in g[0]:
                    raise ToolError('driver: %s on %s' % (g[0], lines[i]))
                return st, violation(machine, prof, lines, i, 'a point', got[i])
            bad = curve_judge(g[1], x[1], p)
            if bad:
                want = ' '.join('(%x,%x)' % affine(q, p) for q in x[1]['pts'])
                return st, violation(machine, prof, lines, i, want, bad)
    return st, None


def violation(machine, prof, lines, i, want, got):
    j = max(k for k in range(i + 1) if lines[k].startswith('machine'))
    return {'machine': machine, 'profile': prof, 'commands': lines[j:i + 1], 'failed_command': lines[i],
            'expected': want, 'got': got}


def run_job(job):
    """One unit of work in the pool. Never raises: errors are returned."""
    t0 = time.time()
    try:
        kind = job['kind']
        if kind == 'field':
            tr = quint_run('fields/%s.qnt' % job['machine'], 'f_' + job['machine'], job['step'], job['seed'], job['samples'], job['steps'])
            st, v = replay_field(job['machine'], tr, want_repr=True)
        elif kind == 'curve':
            tr = quint_run('curves/%s.qnt' % job['machine'], job['machine'], job['step'], job['seed'], job['samples'], job['steps'])
            st, v = replay_curve(job['machine'], tr)
        elif kind == 'test':
            ok, n, out = quint_test(job['spec'], job['main'], job.get('match'))
            if not ok:
                raise ToolError('specification test failed: %s %s\n%s' % (job['spec'], job['main'], out[-3000:]))
            st, v = dict(spec_tests=n), None
        else:
            import special
            st, v = special.run(job)
        return job, st, v, None, time.time() - t0
    except ToolError as e:
        return job, None, None, str(e), time.time() - t0
    except subprocess.TimeoutExpired as e:
        return job, None, None, 'timeout: %s' % (e,), time.time() - t0
    except Exception as e:  # a bug of ours, not of the code under test
        import traceback
        return job, None, None, traceback.format_exc(), time.time() - t0


def write_replay(pid, v):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
    f = os.path.join(REPLAYS, '%s-%s.json' % (pid, h))
    with open(f, 'w') as o:
        json.dump(dict(v, property=pid), o, indent=1)
    return f
