"""Jobs other than plain replay: validation of recorded traces by the
specification, the abstract-group law check, exhaustive toy curves."""
import glob, json, os, re, shutil, subprocess, tempfile
import vlib
from vlib import FIELDS, CURVES, SPEC, WORK, ToolError

OPS = ["rand", "add", "sub", "neg", "mul", "square", "sadd", "ssub", "smul", "normalize", "pack", "eq", "bit",
       "load", "copy", "unpack", "hex", "bits", "band", "bor", "mask", "select", "invmul", "divmul", "legsq", "sqsqrtsq", "sizes"]


def pack_event(e, regs, obs, form=None, v=None):
    """Layout of spec/field_trace.qnt."""
    x = OPS.index(e['op'])
    for i, w in enumerate((e['form'] if form is None else form, e['d'], e['a'], e['b'])):
        x |= w << (16 * (i + 1))
    x |= (e['k'] + (1 << 63)) << 80
    x |= (e['v'] if v is None else v) << 144
    for i, r in enumerate(regs):
        x |= r << (720 + 576 * i)
    x |= len(obs) << 2448
    for i, o in enumerate(obs):
        x |= o << (2464 + 10 * i)
    return x


def trace_module(machine, packed, spec):
    n, c, nb, w = FIELDS[machine]
    m = re.search(r'import field\((.*?)\)\.\*', open(os.path.join(SPEC, 'fields', machine + '.qnt')).read(), re.S)
    out = ['module main {', '  import t_%s.* from "%s/tables/%s"' % (machine, spec, machine)]
    chunks = [packed[i:i + 50] for i in range(0, len(packed), 50)]
    for j, ch in enumerate(chunks):
        out.append('  pure val T%d: List[int] = [%s]' % (j, ',\n    '.join(hex(x) for x in ch)))
    out.append('  pure val ALL: List[int] = [%s].foldl([], (l, x) => l.concat(x))' % ', '.join('T%d' % j for j in range(len(chunks))))
    out.append('  import field_trace(%s, TRACE = ALL).* from "%s/field_trace"' % (m[1], spec))
    out.append('}')
    return '\n'.join(out)


def validate(machine, packed):
    """Let Quint walk the recorded trace. -> index of the first event the
    specification rejects, or None; or 'spread'."""
    os.makedirs(WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix='trace_', dir=WORK)
    try:
        f = os.path.join(d, 'trace.qnt')
        with open(f, 'w') as o:
            o.write(trace_module(machine, packed, os.path.relpath(SPEC, d)))
        r = subprocess.run(['quint', 'run', f, '--main', 'main', '--init', 'tinit', '--step', 'tstep', '--invariant', 'accepted',
                            '--max-samples', '1', '--max-steps', str(len(packed)), '--n-traces', '1', '--seed', '1',
                            '--out-itf', os.path.join(d, 'o_{seq}.itf.json'), '--verbosity', '1'],
                           capture_output=True, text=True, timeout=700, cwd=d)
        files = glob.glob(os.path.join(d, 'o_*.itf.json'))
        if not files:
            raise ToolError('trace validation failed to run: ' + (r.stdout + r.stderr)[-2000:])
        last = vlib.short(json.load(open(files[0]), object_hook=vlib._hook)['states'])[-1]
        pos = last['pos']
        if '[ok]' in r.stdout and r.returncode == 0:
            return None if pos == len(packed) else pos      # blocked before event pos
        if pos == len(packed) and last['seen']['samples'] >= 64:
            full = (1 << FIELDS[machine][0]) - 1
            if last['seen']['ones'] != full or last['seen']['zeros'] != full:
                return 'spread'
        return pos - 1                                      # state after event pos - 1 is wrong
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_trace(job):
    machine = job['machine']
    nb = FIELDS[machine][2]
    tr = vlib.quint_run('fields/%s.qnt' % machine, 'f_' + machine, job['step'], job['seed'], 1, job['steps'])[0]
    lines = ['machine ' + machine] + [vlib.field_cmd(s['ev']) for s in tr[1:]]
    st = dict(steps=0, states=set(), ops={}, traces=1, trace_events_validated=0,
              samples=[{'machine': machine, 'recorded': lines[:5]}])
    outs = []
    for prof in vlib.PROFILES:
        try:
            got = vlib.drive(prof, lines)
        except vlib.Hang as h:
            i = max(0, min(h.args[0] - 1, len(lines) - 1))
            return st, vlib.violation(machine, prof, lines, i, 'an answer', 'no answer within %d s' % vlib.DRIVER_TIMEOUT)
        for i, g in enumerate(got):
            if g.startswith('PANIC'):
                if 'TOOL:' in g:
                    raise ToolError('driver: %s on %s' % (g, lines[i]))
                return st, vlib.violation(machine, prof, lines, i, 'an element', g)
        if len(got) != len(lines):
            return st, vlib.violation(machine, prof, lines, len(got) - 1, 'an answer', 'none')
        outs.append(got)
    for i, (a, b) in enumerate(zip(*outs)):
        if a != b:
            return st, vlib.violation(machine, vlib.PROFILES[1], lines, i, a, b)
    packed = []
    for s, g in zip(tr[1:], outs[0][1:]):
        e = s['ev']
        obs, regs = g.split('|')[:2]
        regs = [int(x, 16) for x in regs.split(' ')]
        v = None
        if e['op'] == 'rand':
            h, same = obs.split(',')
            v, obs = int(h, 16), same
        packed.append(pack_event(e, regs, [] if obs == '-' else [int(x) for x in obs.split(',')], v=v))
        k = '%s/%d' % (e['op'], e['form'])
        st['ops'][k] = st['ops'].get(k, 0) + 1
        st['states'].add(hash(tuple(regs) + (e['op'],)))
        st['steps'] += 1
    bad = validate(machine, packed)
    if bad == 'spread':
        return st, vlib.violation(machine, vlib.PROFILES[0], lines, len(lines) - 1,
                                  'every bit sampled as one and as zero from uniform generator words', 'some bit never varies')
    if bad is not None:
        if bad >= len(packed):
            raise ToolError('trace validation: no event to blame')
        return st, vlib.violation(machine, vlib.PROFILES[0], lines, bad + 1,
                                  'an event the specification allows (sampled element canonical, repeatable; later results exact)',
                                  outs[0][bad + 1])
    st['trace_events_validated'] = len(packed)
    return st, None


def world_third(machine):
    """The third caller of spec/worlds: the curve over the field, if any."""
    return next((c for c, f in CURVES.items() if f == machine), machine)


def world_judge(m, s, who, answer):
    """-> None or (expected, got)"""
    g = answer.split('|')
    c = vlib.CALLERS[who]
    if 'TOOL:' in g[0]:
        raise ToolError('driver: ' + answer)
    if m in CURVES:
        p = vlib.prime(m)
        st = {'pts': s[c + '::pts']}
        want = ' '.join('(%x,%x)' % vlib.affine(q, p) for q in st['pts'])
        if g[0].startswith(('PANIC', 'DIFFERS')):
            return want, answer
        bad = vlib.curve_judge(g[1], st, p)
        return (want, bad) if bad else None
    obs, regs = vlib.field_expect(s[c + '::ev'], {'reg': s[c + '::reg']}, FIELDS[m][2])
    return None if g[:2] == [obs, regs] else (obs + '|' + regs, answer)


THREADS = 6      # per process; eight processes at a time


def run_world(job):
    """Behaviours of three callers composed by interleaving: replayed as
    scheduled on one thread, and each caller's part of it alone while the parts
    of other callers run in other threads. Either way every caller must see what
    its own machine says."""
    machine = job['machine']
    who = [machine, machine, world_third(machine)]
    traces = vlib.quint_run('worlds/w_%s.qnt' % machine, 'w_' + machine, 'step', job['seed'], job['samples'], job['steps'])
    st = dict(steps=0, states=set(), ops={}, traces=len(traces), samples=[])
    lines, exp, parts = [], [], []
    for tr in traces:
        own = [[], [], []]
        for k in range(3):
            lines.append('@%d machine %s' % (k, who[k]))
            exp.append(None)
            own[k].append(('machine ' + who[k], None))
        for s in tr[1:]:
            k = s['who']
            e = s[vlib.CALLERS[k] + '::ev']
            cmd = (vlib.curve_cmd if who[k] in CURVES else vlib.field_cmd)(e)
            lines.append('@%d %s' % (k, cmd))
            exp.append((k, s))
            own[k].append((cmd, (k, s)))
            st['steps'] += 1
            st['states'].add(hash(json.dumps([s[c] for c in sorted(s) if c.endswith(('reg', 'pts'))] + [e['op']])))
            op = '%s/%d' % (e['op'], e['form'])
            st['ops'][op] = st['ops'].get(op, 0) + 1
        parts += own
    st['samples'].append({'machine': machine, 'behaviour': lines[:9]})
    # each thread does whole parts one after the other
    tlines, texp = [], []
    for i, part in enumerate(parts):
        for cmd, x in part:
            tlines.append('@%d %s' % ((i // 3 + i) % THREADS, cmd))
            texp.append(x)
    runs = [(lines, exp, 0), (tlines, texp, job['rounds'])]
    # the first use of an operation, by all callers at the same moment
    first = {}
    for tr in traces:
        for s0, s in zip(tr, tr[1:]):
            k = s['who']
            e = s[vlib.CALLERS[k] + '::ev']
            op = (e['op'], e.get('name', '') if 'burst' in e['op'] else '', e['k'] if e['op'] == 'sweep' else 0)
            first.setdefault((who[k], op), []).append((k, s0, s))
    for (m, op), uses in sorted(first.items()):
        ls, xs = [], []
        for t, (k, s0, s) in enumerate(uses[:THREADS]):
            c = vlib.CALLERS[k]
            if m in CURVES:
                p = vlib.prime(m)
                setup = ['init_xy 0 %d %x %x' % ((d,) + vlib.affine(q, p)) for d, q in enumerate(s0[c + '::pts'])]
                cmd = vlib.curve_cmd(s[c + '::ev'])
            else:
                setup = ['load %d 0 %x' % (d, x) for d, x in enumerate(s0[c + '::reg'])]
                cmd = vlib.field_cmd(s[c + '::ev'])
            for line in ['machine ' + m] + setup + [cmd]:
                ls.append('@%d %s' % (t, line))
                xs.append(None)
            xs[-1] = (k, s)
        runs.append((ls, xs, -1))
    st['simultaneous_first_uses'] = (len(runs) - 2) * len(vlib.PROFILES)
    for prof in vlib.PROFILES:
        for ls, xs, threads in runs:
            def violated(i, want, got):
                j = max(k for k in range(i + 1) if ls[k].startswith('@0 machine')) if not threads else 0
                return {'machine': machine, 'profile': prof, 'commands': ls[j:] if threads else ls[j:i + 1], 'threads': threads,
                        'failed_command': ls[i], 'expected': want, 'got': got}
            try:
                got = vlib.drive(prof, ls, threads=threads)
            except vlib.Hang as h:
                return st, violated(max(0, min(h.args[0] - 1, len(ls) - 1)), 'an answer', 'no answer within %d s' % vlib.DRIVER_TIMEOUT)
            for i, x in enumerate(xs):
                if i >= len(got):
                    return st, violated(i, 'an answer', 'none')
                if x is not None:
                    bad = world_judge(who[x[0]], x[1], x[0], got[i])
                    if bad:
                        return st, violated(i, *bad)
    st['thread_rounds'] = job['rounds'] * len(vlib.PROFILES)
    return st, None


def run_group(job):
    """Behaviours of the abstract group Z/ELL x Z/H, replayed on real points:
    equal elements must be equal points and different elements different ones."""
    machine = job['machine']
    p = vlib.prime(machine)
    g = 'g_' + machine[2:]
    traces = vlib.quint_run('groups/%s.qnt' % g, g, job['step'], job['seed'], job['samples'], job['steps'])
    regs = len(traces[0][0]['els'])
    lines, exp = [], []
    st = dict(steps=0, states=set(), ops={}, traces=len(traces), coincidences=0, samples=[])
    for tr in traces:
        lines.append('machine %s %d' % (machine, regs))
        exp.append(None)
        for s in tr[1:]:
            lines.append(vlib.curve_cmd(s['ev']))
            exp.append(s)
            st['steps'] += 1
            st['states'].add(hash(tuple((q['s'], q['t']) for q in s['els']) + (s['ev']['op'],)))
            k = '%s/%d' % (s['ev']['op'], s['ev']['form'])
            st['ops'][k] = st['ops'].get(k, 0) + 1
    st['samples'].append({'machine': machine, 'behaviour': lines[:6]})
    for prof in vlib.PROFILES:
        try:
            got = vlib.drive(prof, lines)
        except vlib.Hang as h:
            i = max(0, min(h.args[0] - 1, len(lines) - 1))
            return st, vlib.violation(machine, prof, lines, i, 'an answer', 'no answer within %d s' % vlib.DRIVER_TIMEOUT)
        cache = {}
        for i, s in enumerate(exp):
            if i >= len(got):
                return st, vlib.violation(machine, prof, lines, i, 'an answer', 'none')
            if s is None:
                point, element = {(0, 0): (0, 1)}, {(0, 1): (0, 0)}
                continue
            obs, state = got[i].split('|')[:2]
            if obs.startswith('PANIC'):
                if 'TOOL:' in obs:
                    raise ToolError('driver: %s on %s' % (obs, lines[i]))
                return st, vlib.violation(machine, prof, lines, i, 'a point', got[i])
            for r, (w, q) in enumerate(zip(state.split(' '), s['els'])):
                if w not in cache:
                    x, y, z, t = (int(v, 16) for v in w.split(','))
                    if z % p == 0:
                        return st, vlib.violation(machine, prof, lines, i, 'a point', 'register %d: Z = 0' % r)
                    zi = pow(z, -1, p)
                    cache[w] = (x * zi % p, y * zi % p)
                a, e = cache[w], (q['s'], q['t'])
                if point.setdefault(e, a) != a:
                    return st, vlib.violation(machine, prof, lines, i,
                                              'register %d: (%x, %x), as computed before for %d * B + %d * T' % (r, *point[e], *e),
                                              'register %d: (%x, %x)' % (r, *a))
                if element.setdefault(a, e) != e:
                    return st, vlib.violation(machine, prof, lines, i,
                                              'register %d: %d * B + %d * T' % (r, *e),
                                              'the point computed before for %d * B + %d * T' % element[a])
            # how often an element is reached again by another computation
            if prof == vlib.PROFILES[0]:
                d = s['ev']['d']
                me = (s['els'][d]['s'], s['els'][d]['t'])
                st['coincidences'] += s['ev']['op'] != 'copy' and me != (0, 0) and any(
                    j != d and (q['s'], q['t']) == me for j, q in enumerate(s['els']))
    return st, None


def toy_tables(name):
    """The transition relation of the specification: (op, a, b) -> point."""
    tr = vlib.quint_run('toys/%s.qnt' % name, name, 'step', 1, 1, 200)[0]
    txt = lambda p: '%d,%d' % (p['x'], p['y'])
    points = [txt(s['pt']) for s in tr]
    rel = {('zero', '', ''): '0,1'}
    for s in tr:
        a = txt(s['pt'])
        rel['init', a, ''] = a
        rel['double', a, ''] = txt(s['double'])
        rel['triple', a, ''] = txt(s['triple'])
        for b, r in zip(points, s['sums']):
            rel['add', a, b] = txt(r)
        for k, r in enumerate(s['multiples']):
            rel['smul', a, str(k)] = txt(r)
    return rel


def run_toy(job):
    """The generic point code over a toy field: every transition of every
    reachable representation must be one of the specification, and every
    transition of the specification must have been seen."""
    name = job['machine']
    st = dict(steps=0, states=set(), ops={}, traces=0, samples=[])
    if not all(os.path.exists(vlib.toy(p)) for p in vlib.PROFILES):
        st['notes'] = {'toy_curves': 'left out: the toy fields do not compile against this tree'}
        return st, None
    rel = toy_tables(name)
    for prof in vlib.PROFILES:
        cmd = 'toy ' + name
        try:
            r = subprocess.run([vlib.toy(prof), name], capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return st, vlib.violation(name, prof, ['machine ' + name, cmd], 1, 'an answer', 'no answer within 300 s')
        if r.returncode != 0:
            return st, vlib.violation(name, prof, ['machine ' + name, cmd], 1, 'an exploration', 'PANIC ' + r.stderr[-500:])
        seen, head = set(), None
        for line in r.stdout.splitlines():
            if line.startswith('curve '):
                head = line.split()
                continue
            lhs, rhs = line.split(' -> ')
            op, args = lhs.split(' ', 1)
            a, b = args.split(';')
            got, flag = rhs.split(' ')
            seen.add((op, a, b))
            want = rel.get((op, a, b))
            if job['aspect'] == 'consistency':
                # Z nonzero, T Z = X Y, and the point on the curve
                if flag != 'ok' or ('init', got, '') not in rel:
                    return st, vlib.violation(name, prof, ['machine ' + name, lhs], 1, 'a consistent point of the curve', rhs)
            elif op in job['ops'] and got != want:
                return st, vlib.violation(name, prof, ['machine ' + name, lhs], 1, str(want), rhs)
        if seen != set(rel):
            x = sorted(set(rel) ^ seen)[0]
            if x in seen:
                return st, vlib.violation(name, prof, ['machine ' + name, ' '.join(x)], 1, 'a transition between points of the curve', 'an operand off the curve')
            raise ToolError('toy exploration is incomplete: %s %s' % (name, x))
        if prof == vlib.PROFILES[0]:
            st['steps'] += int(head[3])
            st['traces'] += 1
            st['states'] = set((name, i) for i in range(int(head[2])))
            st['notes'] = {'toy_curve_' + name: '%s reachable representations, %s transitions, exhaustive' % (head[2], head[3])}
    return st, None


def run_proof(job):
    """The inductive proof of the lazy representation, by Apalache."""
    machine = job['machine']
    os.makedirs(WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix='proof_', dir=WORK)
    port = 9100 + sorted(FIELDS).index(machine) * 20 + os.getpid() % 20
    try:
        r = subprocess.run(['quint', 'verify', os.path.join(SPEC, 'proofs', machine + '.qnt'), '--main', 'p_' + machine,
                            '--inductive-invariant', 'inv', '--server-endpoint', 'localhost:%d' % port],
                           capture_output=True, text=True, timeout=600, cwd=d)
    finally:
        subprocess.run(['pkill', '-f', 'server --port=%d' % port])
        shutil.rmtree(d, ignore_errors=True)
    if r.returncode != 0 or '[ok] No violation found' not in r.stdout:
        raise ToolError('proof of the representation failed for %s\n%s' % (machine, (r.stdout + r.stderr)[-1500:]))
    return dict(notes={'proved_' + machine: 'representation bounded, congruent, and normalization canonical: every value, every history (Apalache)'}), None


LEAK_OPS = ["add", "sub", "mul", "div", "neg", "sadd", "ssub", "smul", "square", "invert", "legendre", "sqrt",
            "normalize", "pack", "unpack", "eq", "bit", "bits", "band", "bor", "fill", "select",
            "init", "padd", "double", "triple", "pmul"]
# The code as written decides: 'plain' is the unoptimized build. What the
# optimizer makes of it is watched too, in the control flow graph and in the
# executed instructions, and noted in the evidence: it may turn a masked
# selection into a jump for reasons no source shows, so it is not an alarm.
OBSERVERS = ('plain', 'graph', 'machine')


def observe(observer, lines, limit=400):
    """-> for every window of observation (line, op, form, index, token); under
    the observers of the graph only the first of each kind. Ends early when the
    driver does (panic, abort): what an operation computes is not judged here."""
    text = '\n'.join(lines) + '\n'
    if observer != 'machine':
        out = subprocess.run([vlib.leak(observer), 'unique'], input=text, capture_output=True, text=True, timeout=limit).stdout
        tokens = None
    else:
        os.makedirs(WORK, exist_ok=True)
        d = tempfile.mkdtemp(prefix='watch_', dir=WORK)
        fifo = os.path.join(d, 'fifo')
        try:
            os.mkfifo(fifo)
            w = subprocess.Popen('%s < %s' % (os.path.join(vlib.TARGET, 'watch'), fifo), shell=True, stdout=subprocess.PIPE, text=True)
            try:
                r = subprocess.run(['valgrind', '--tool=lackey', '--trace-mem=yes', '--basic-counts=no', '--vgdb=no', '--log-file=' + fifo,
                                    vlib.leak('machine')], input=text, capture_output=True, text=True, timeout=limit)
                out = r.stdout
                tokens = iter(w.communicate(timeout=limit)[0].split())
            finally:
                w.kill()
        finally:
            shutil.rmtree(d, ignore_errors=True)
    got, i = [], 0
    for x in out.split('\n'):
        if x in ('.', '!'):
            i += 1
        elif x:
            op, form, k, t = x.split()
            if tokens is not None:
                t = next(tokens, None)
                if t is None:
                    raise ToolError('fewer windows seen than announced')
            got.append((i, op, int(form), int(k), int(t, 16)))
    return got, i


def leak_module(packed, spec):
    out = ['module main {']
    chunks = [packed[i:i + 50] for i in range(0, len(packed), 50)]
    for j, ch in enumerate(chunks):
        out.append('  pure val T%d: List[int] = [%s]' % (j, ',\n    '.join(hex(x) for x in ch)))
    out.append('  pure val ALL: List[int] = [%s].foldl([], (l, x) => l.concat(x))' % ', '.join('T%d' % j for j in range(len(chunks))))
    out.append('  import leak(TRACE = ALL).* from "%s/leak"' % spec)
    out.append('}')
    return '\n'.join(out)


def judge_leak(packed):
    """Let Quint walk what was observed. -> index of the first event that shows
    more than its public part, or None."""
    os.makedirs(WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix='leak_', dir=WORK)
    try:
        f = os.path.join(d, 'trace.qnt')
        with open(f, 'w') as o:
            o.write(leak_module(packed, os.path.relpath(SPEC, d)))
        r = subprocess.run(['quint', 'run', f, '--main', 'main', '--init', 'tinit', '--step', 'tstep', '--invariant', 'accepted',
                            '--max-samples', '1', '--max-steps', str(len(packed)), '--n-traces', '1', '--seed', '1', '--n-threads', '1',
                            '--out-itf', os.path.join(d, 'o_{seq}.itf.json'), '--verbosity', '1'],
                           capture_output=True, text=True, timeout=400, cwd=d)
        files = glob.glob(os.path.join(d, 'o_*.itf.json'))
        if not files:
            raise ToolError('judging the observations failed to run: ' + (r.stdout + r.stderr)[-2000:])
        pos = vlib.short(json.load(open(files[0]), object_hook=vlib._hook)['states'])[-1]['pos']
        if '[ok]' in r.stdout and r.returncode == 0:
            if pos != len(packed):
                raise ToolError('observations not consumed: %d of %d' % (pos, len(packed)))
            return None
        return pos - 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_leak(job):
    """Behaviours of the specification, performed on the real code under
    observation; what was seen is judged by spec/leak.qnt."""
    machine = job['machine']
    if machine in CURVES:
        traces = vlib.quint_run('curves/%s.qnt' % machine, machine, 'stepT02', job['seed'], job['samples'], job['steps'])
        cmd = vlib.curve_cmd
    else:
        traces = vlib.quint_run('fields/%s.qnt' % machine, 'f_' + machine, 'stepT02', job['seed'], job['samples'], job['steps'])
        cmd = vlib.field_cmd
    lines = []
    st = dict(steps=0, states=set(), ops={}, traces=len(traces), samples=[], windows_observed=0, public_classes=0, notes={})
    for tr in traces:
        lines.append('machine ' + machine)
        for s in tr[1:]:
            lines.append(cmd(s['ev']))
            st['steps'] += 1
            k = '%s/%d' % (s['ev']['op'], s['ev']['form'])
            st['ops'][k] = st['ops'].get(k, 0) + 1
            st['states'].add(hash((lines[-1],)))
    st['samples'].append({'machine': machine, 'behaviour': lines[:6]})
    for observer in OBSERVERS:
        todo = machine_lines(machine, lines, job['watched']) if observer == 'machine' else lines
        if not todo:
            continue
        try:
            got, done = observe(observer, todo)
        except subprocess.TimeoutExpired:
            if observer != 'plain':
                st['notes']['optimizer_%s_%s' % (observer, machine)] = 'not observed: no end within 400 s'
                continue
            return st, vlib.violation(machine, observer, todo, len(todo) - 1, 'an end', 'no end within 400 s')
        first, packed, who = {}, [], []
        for i, op, form, k, t in got:
            key = (op, form, k if op == 'bit' else 0)
            if (key, t) not in first:
                first[key, t] = i
                packed.append(OBSERVERS.index(observer) | LEAK_OPS.index(op) << 8 | form << 16 | key[2] << 32 | t << 48)
                who.append((i, key))
        st['windows_observed'] += len(got)
        st['public_classes'] += len(set(key for _, key in who))
        if not packed:
            raise ToolError('nothing was observed on ' + machine)
        bad = judge_leak(packed)
        if bad is not None and observer != 'plain':
            note = '%s: %s (form %d)' % (machine, who[bad][1][0], who[bad][1][1])
            st['notes'].setdefault('optimizer_%s_depends_on_values' % observer, []).append(note)
        elif bad is not None:
            i, key = who[bad]
            j = next(q for q, kk in who if kk == key)
            v = vlib.violation(machine, observer, todo, i, '', '')
            s0 = max(q for q in range(j + 1) if todo[q].startswith('machine'))
            v['commands'] = todo[s0:j + 1] + v['commands']
            v['expected'] = '%s (form %d) runs as it did in "%s"' % (key[0], key[1], todo[j][:200])
            v['got'] = 'another sequence of branches or addresses'
            return st, v
    return st, None


def machine_lines(machine, lines, budget):
    """A prefix of the behaviours that the instruction-level observer can afford."""
    cost, out = 0, []
    n = FIELDS[CURVES.get(machine, machine)][0]
    unit = (n / 56) ** 2
    for x in lines:
        op = x.split(' ', 1)[0]
        if op in ('probe', 'smprobe', 'eqbits', 'smallmatrix', 'burst'):
            continue                        # many operations in one command
        c = 200
        if op in ('invert', 'div', 'invmul', 'divmul', 'legsq', 'legmul', 'sqrtany', 'sqsqrtsq', 'sqrtsq', 'legendre'):
            c = n * 40 * unit
        elif op == 'smloose':
            c = n * 700 * unit
        elif machine in CURVES:
            c = 800 * unit
        if cost + c > budget:
            continue
        cost += c
        out.append(x)
    return out


def run(job):
    return {'proof': run_proof, 'toy': run_toy, 'trace': run_trace, 'group': run_group, 'world': run_world, 'leak': run_leak}[job['kind']](job)
