"""Driver: builds units from /repo's current sources, has CBMC discharge every
obligation, replays counterexamples natively, writes evidence, decides the verdict."""
import json, os, re, shutil, subprocess, sys, time, resource, signal, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SHIM = os.path.join(VERIF, 'shim')
HARN = os.path.join(VERIF, 'harness')
MEM = 10 * 1024 ** 3

INC = ['-I' + SHIM, '-I' + HARN, '-I{gen}', '-I' + REPO + '/src', '-I' + REPO + '/src/core',
       '-I' + REPO + '/src/util', '-I' + REPO + '/src/radarcape', '-I' + REPO + '/src/trimble',
       '-I' + REPO + '/src/dump1090']
BASEDEF = ['-DHAVE_CONFIG_H', '-D_GNU_SOURCE', '-DOPENSKY_VERIF', '-std=gnu11']
DEFAULT_CBMC = ['--no-malloc-may-fail', '--no-standard-checks', '--bounds-check', '--pointer-check',
                '--div-by-zero-check', '--signed-overflow-check', '--undefined-shift-check',
                '--unwinding-assertions']


def run(cmd, timeout, cwd=None, mem=MEM, env=None, stdin=None):
    """returns (rc, stdout, stderr, secs); rc None on timeout"""
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=pre, stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        rc = None
    return rc, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace'), time.time() - t0


class Unit:
    """One verification unit: a harness translation unit around real /repo sources.

    kind: 'proof'   every loop is unwound completely (unwinding assertions discharged) or cut by
                    an inductive invariant: holds for all inputs within the stated precondition
          'bounded' stands in where induction was not possible; the bound is stated
    """
    def __init__(self, name, src, funcs, kind='proof', bound=None, unwind=2, unwindset=None,
                 defs=None, flags=None, timeout=300, tier='quick', fallback=None, assumptions=None,
                 replay=True, sat='cadical', gen=None, nativesrc=None, mem=None, note=None,
                 replay_defs=None, optional=False, incs=None, ind=False, maxrounds=6, reach=None):
        self.__dict__.update(locals())
        self.funcs = funcs
        self.defs = defs or []
        self.flags = flags or []
        self.unwindset = unwindset or []
        self.assumptions = assumptions or []
        self.incs = incs or []
        if ind:
            self.replay = False     # starts from an assumed state: a trace is not an input of the system


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = None        # ok, fail, undecided, broken
        self.detail = ''
        self.obls = []            # (name, description, status, function, line)
        self.failed = []
        self.unwind_failed = []
        self.reach_missing = []
        self.reached = 0
        self.secs = 0.0
        self.solver = ''
        self.replay = None
        self.cmd = ''


def inc(gen, unit=None):
    return [i.format(gen=gen) for i in (unit.incs if unit else []) + INC]


def build_gb(unit, wd):
    gb = os.path.join(wd, unit.name + '.gb')
    gen = os.path.join(wd, unit.name + '.gen')
    os.makedirs(gen, exist_ok=True)
    if unit.gen:
        err = unit.gen(gen)
        if err:
            return None, 'extraction: ' + err
    src = os.path.join(HARN, unit.src)
    cmd = ['goto-cc'] + BASEDEF + unit.defs + inc(gen, unit) + [src, '-o', gb]
    rc, o, e, t = run(cmd, 120, cwd=wd)
    if rc != 0 or not os.path.exists(gb):
        return None, 'goto-cc failed: ' + (o + e)[-2000:]
    return gb, ''


def parse_json(out):
    try:
        return json.loads(out)
    except Exception:
        # truncated output (timeout): unusable
        return None


def verify(unit, wd, deadline):
    r = Result(unit)
    t0 = time.time()
    gb, err = build_gb(unit, wd)
    if gb is None:
        r.status, r.detail = 'broken', err
        r.secs = time.time() - t0
        return r
    uw = dict(x.rsplit(':', 1) for x in unit.unwindset)
    for rnd in range(unit.maxrounds):
        args = DEFAULT_CBMC + ['--unwind', str(unit.unwind)]
        if uw:
            args += ['--unwindset', ','.join('%s:%s' % kv for kv in sorted(uw.items()))]
        if unit.sat:
            args += ['--sat-solver', unit.sat]
        args += unit.flags
        r.gb, r.args = gb, args
        cmd = ['cbmc', gb] + args + ['--json-ui', '--verbosity', '8']
        r.cmd = ' '.join(cmd)
        tmo = min(unit.timeout, deadline - time.time())
        rc, o, e, t = run(cmd, tmo, cwd=wd, mem=unit.mem or MEM)
        r.secs = time.time() - t0
        if rc is None:
            if not r.obls:
                r.status = 'undecided'
            r.detail = 'timeout after %.0f s' % tmo
            return r
        js = parse_json(o)
        res = None
        if js:
            for m in js:
                if 'result' in m:
                    res = m['result']
                if 'messageText' in m:
                    mt = m['messageText']
                    mm = re.search(r'Runtime decision procedure: ([0-9.e+-]+)s', mt)
                    if mm:
                        r.solver_s = getattr(r, 'solver_s', 0) + float(mm.group(1))
                    if m.get('messageType') == 'ERROR':
                        r.detail += mt + '\n'
        if res is None:
            r.status = 'undecided'
            r.detail = 'cbmc gave no result (rc=%s): %s %s' % (rc, r.detail, e[-500:])
            return r
        r.obls, r.failed, r.unwind_failed, r.reach_missing, r.reached, r.detail = [], [], [], [], 0, ''
        classify(r, res)
        # loops whose bound was too small are unwound further
        more = [o['name'] for o in r.unwind_failed if '.unwind.' in o['name']]
        if r.failed or not more:
            break
        for n in more:
            f, k = n.split('.unwind.')
            key = f + '.' + k
            uw[key] = str(int(uw.get(key, unit.unwind)) * 2 + 2)
    if unit.sat is None:
        r.solver = 'cbmc 6.11.0 / MiniSat 2.2.1'
    else:
        r.solver = 'cbmc 6.11.0 / ' + unit.sat
    for f in unit.flags:
        if f in ('--cvc5', '--z3'):
            r.solver = 'cbmc 6.11.0 / ' + f[2:]
    return r


# obligations that are not alarms: behaviour gcc defines (documented in DESIGN.md)
IGNORE = [re.compile(r'arithmetic overflow on signed shl')]


def classify(r, res):
    for p in res:
        d = p.get('description', '')
        st = p.get('status')
        loc = p.get('sourceLocation', {})
        name = p.get('property', '')
        if d.startswith('REACH:'):
            if r.unit.reach is not None and d[7:] not in r.unit.reach:
                continue    # a guard of another operation of the same harness
            if st == 'FAILURE':
                r.reached += 1
            else:
                r.reach_missing.append(d)
            continue
        o = dict(name=name, desc=d, status=st, func=loc.get('function', ''), line=loc.get('line', ''),
                 file=os.path.basename(loc.get('file', '')))
        if any(x.search(d) for x in IGNORE):
            continue
        r.obls.append(o)
        if st == 'SUCCESS':
            continue
        if d.startswith('UNDEC:') or 'unwinding assertion' in d or '.unwind.' in name or '.recursion' in name:
            r.unwind_failed.append(o)
        elif st == 'FAILURE':
            r.failed.append(o)
        else:
            r.unwind_failed.append(o)   # UNKNOWN etc.
    if r.failed:
        r.status = 'fail'
    elif r.reach_missing:
        # a guard that the harness is not vacuous did not fire
        r.status, r.detail = 'undecided', 'vacuity guard not reached: ' + '; '.join(r.reach_missing)
    elif r.unwind_failed:
        r.status = 'undecided'
        r.detail = 'model limit or unwinding bound too small: ' + ', '.join(o['name'] for o in r.unwind_failed[:5])
    elif not r.obls:
        r.status, r.detail = 'undecided', 'no obligations generated'
    else:
        r.status = 'ok'


def trace_values(r, prop, wd, tmo=300):
    """Counterexample for one failed obligation: the nondeterministic choices, in order."""
    cmd = ['cbmc', r.gb] + r.args + ['--json-ui', '--trace', '--property', prop]
    rc, o, e, t = run(cmd, tmo, cwd=wd, mem=r.unit.mem or MEM)
    js = parse_json(o) if rc is not None else None
    if not js:
        return None, ''
    vals, tail = None, []
    for m in js:
        for p in m.get('result', []) or []:
            if p.get('property') == prop and p.get('trace'):
                vals = []
                for s in p['trace']:
                    if s.get('stepType') == 'assignment' and s.get('lhs', '') == 'vf_val' and not s.get('hidden'):
                        b = s.get('value', {}).get('binary')
                        if b is not None:
                            vals.append(int(b, 2))
                    if s.get('stepType') == 'assignment' and not s.get('hidden'):
                        l = s.get('sourceLocation', {})
                        tail.append('%s:%s %s = %s' % (os.path.basename(l.get('file', '?')), l.get('line', '?'),
                                                       s.get('lhs'), s.get('value', {}).get('data')))
                    if s.get('stepType') == 'failure':
                        l = s.get('sourceLocation', {})
                        tail.append('FAILED %s at %s:%s (%s)' % (s.get('property'), l.get('file'), l.get('line'),
                                                                 s.get('reason')))
    return vals, '\n'.join(tail[-80:])


def native_build(unit, wd):
    exe = os.path.join(wd, unit.name + '.native')
    if os.path.exists(exe):
        return exe, ''
    gen = os.path.join(wd, unit.name + '.gen')
    src = os.path.join(HARN, unit.src)
    cmd = ['gcc', '-g', '-O1', '-w', '-DVERIF_NATIVE'] + BASEDEF + unit.defs + (unit.replay_defs or []) + inc(gen, unit) + \
          ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=shift,alignment', '-fno-omit-frame-pointer',
           src, os.path.join(SHIM, 'native.c'), '-o', exe, '-lm']
    rc, o, e, t = run(cmd, 120, cwd=wd, mem=None)
    if rc != 0:
        return None, (o + e)[-3000:]
    return exe, ''


def native_run(exe, vals, wd, tag):
    vf = os.path.join(wd, tag + '.vals')
    with open(vf, 'w') as f:
        f.write('\n'.join(str(v) for v in vals) + '\n')
    env = dict(os.environ, VF_VALUES=vf, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66')
    rc, o, e, t = run([exe], 20, cwd=wd, mem=None, env=env)
    return rc, (o + e)[-4000:]


def search_build(unit, wd):
    """two native builds of the harness around the real code: plain (fast) and with sanitizers"""
    gen = os.path.join(wd, unit.name + '.gen')
    os.makedirs(gen, exist_ok=True)
    if unit.gen:
        err = unit.gen(gen)
        if err:
            return None, 'extraction: ' + err
    src = os.path.join(HARN, unit.src)
    exes = []
    for tag, fl in (('plain', ['-static', '-fsanitize=undefined', '-fno-sanitize=shift,alignment', '-fsanitize-undefined-trap-on-error']),
                    ('asan', ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                              '-fno-sanitize=shift,alignment'])):
        exe = os.path.join(wd, '%s.search.%s' % (unit.name, tag))
        cmd = ['gcc', '-g', '-O1', '-w', '-DVERIF_NATIVE'] + BASEDEF + unit.defs + (unit.replay_defs or []) + \
            inc(gen, unit) + fl + [src, os.path.join(SHIM, 'native.c'), '-o', exe, '-lm']
        rc, o, e, t = run(cmd, 120, cwd=wd, mem=None)
        if rc != 0:
            if tag == 'asan' or not unit.gen:
                return None, (o + e)[-1500:]
            continue
        exes.append(exe)
    return exes, ''


def native_search(prop, unit, wd, secs, seed):
    """random search of a concrete failing input through the harness's from-initial-state driver;
    only used to illustrate an obligation that failed, or where the prover gave no answer"""
    exes, err = search_build(unit, wd)
    if not exes:
        return None, 'search not built: ' + err
    ps = []
    for i in range(8):
        env = dict(os.environ, VF_SEARCH=str(secs), VF_SEED=str(seed + i * 10 ** 7), ASAN_OPTIONS='detect_leaks=0:exitcode=66')
        ps.append((exes[i % len(exes)], subprocess.Popen([exes[i % len(exes)]], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                                         stdin=subprocess.DEVNULL, env=env, cwd=wd, start_new_session=True)))
    found, runs = None, 0
    end = time.time() + secs + 20
    live = list(ps)
    while live and not found and time.time() < end:
        for x in list(live):
            if x[1].poll() is None:
                continue
            live.remove(x)
            o = x[1].stdout.read().decode().split('\n')
            m = re.match(r'(FOUND|NONE) runs=(\d+)', o[0])
            runs += int(m.group(2)) if m else 0
            if m and m.group(1) == 'FOUND':
                found = [int(v) for v in o[1:] if v]
                break
        time.sleep(0.05)
    for x in live:
        try:
            os.killpg(x[1].pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        x[1].wait()
    if found is None:
        return None, 'no failing input among %d random runs' % runs
    rc, out = native_run(exes[-1], found, wd, unit.name + '.found')
    return dict(values=found, rc=rc, output=out), 'found'


CONFIRM = (1, 66)   # CHECK failed / sanitizer report


def confirm(r, wd, outdir, prop):
    """Replay the counterexamples of the failed obligations against the natively compiled real code."""
    tried = []
    order = sorted(r.failed, key=lambda o: (0 if o['desc'].startswith('P: ') else 1))
    first = None
    exe, nerr = (None, 'replay not available for this unit')
    if r.unit.replay:
        exe, nerr = native_build(r.unit, wd)
    for o in order[:4 if r.unit.replay else 1]:
        vals, tail = trace_values(r, o['name'], wd)
        if first is None:
            first = (o, vals, tail)
        if vals is None or exe is None:
            tried.append((o['name'], 'no trace' if vals is None else 'no native build: ' + nerr[-800:]))
            continue
        rc, out = native_run(exe, vals, wd, r.unit.name)
        tried.append((o['name'], 'native rc=%s' % rc))
        if rc in CONFIRM or (rc is not None and rc < 0):
            return dict(confirmed=True, obligation=o, values=vals, tail=tail, output=out, tried=tried)
        if rc is None:
            tried.append((o['name'], 'native replay hung'))
    o, vals, tail = first if first else (r.failed[0], None, '')
    return dict(confirmed=False, obligation=o, values=vals, tail=tail, output='', tried=tried)


def write_replay(prop, r, c):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.txt' % (prop, r.unit.name))
    o = c['obligation']
    with open(p, 'w') as f:
        f.write('property: %s\nunit: %s (harness/%s)\nfailed obligation: %s\n  %s\n  at %s:%s in %s\n' % (
            prop, r.unit.name, r.unit.src, o['name'], o['desc'], o['file'], o['line'], o['func']))
        f.write('checker: %s\n' % r.cmd)
        f.write('all failed obligations of the unit:\n')
        for x in r.failed:
            f.write('  %s: %s (%s:%s)\n' % (x['name'], x['desc'], x['file'], x['line']))
        f.write('replay attempts: %s\n' % c['tried'])
        if c['confirmed']:
            f.write('harness of the failing run: harness/%s %s\n' % (c.get('harness', r.unit.src), ' '.join(c.get('defs', r.unit.defs))))
            f.write('\nREPLAYED on the natively compiled real code (gcc, ASan, UBSan): the harness reads these\n'
                    'choices in order; the failure reproduces.\nvalues: %s\n\nnative output:\n%s\n' % (
                        ' '.join(map(str, c['values'])), c['output']))
        else:
            f.write('\nno failing input was replayed; the verifier output follows\nvalues: %s\n' % (
                ' '.join(map(str, c['values'])) if c['values'] is not None else 'none'))
        f.write('\nverifier trace (tail):\n%s\n' % c['tail'])
    return p


def known_findings(prop):
    """entries of known_findings.txt: 'finding: property=<id> match=<regex on unit:obligation description> | text'"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) unit=(\S+) match=/(.*?)/ (.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def check(prop, title, units, level, tier, seed, notes=(), extra=None, searches=()):
    t0 = time.time()
    budget = 840 if tier == 'quick' else 6 * 3600
    deadline = t0 + budget
    wd = os.path.join(VERIF, '.work', '%s.%d' % (prop, os.getpid()))
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    rc = 0
    try:
        todo = [u for u in units if tier == 'thorough' or u.tier == 'quick']
        with ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(lambda u: verify(u, wd, deadline), todo))
        kf = known_findings(prop)
        violations, found = [], []
        for r in res:
            for (un, rx, txt) in kf:
                if un == r.unit.name:
                    hit = [o for o in r.failed if rx.search(o['desc'])]
                    if hit:
                        found.append(txt)
                        r.failed = [o for o in r.failed if o not in hit]
                        r.known = hit
            if r.status == 'fail' and not r.failed:
                r.status = 'ok'
        for txt in sorted(set(found)):
            print('KNOWN-FINDING: property=%s %s' % (prop, txt))
        bad = [r for r in res if r.status == 'fail']
        unsure = [r for r in res if r.status in ('undecided', 'broken') and not r.unit.optional]
        reports = []
        for r in bad:
            c = confirm(r, wd, None, prop)
            reports.append((c['confirmed'], r, c))
        srch = []
        if (bad and not any(x[0] for x in reports)) or (unsure and not bad):
            for u in searches:
                left = deadline - time.time()
                if left < 15:
                    break
                got, msg = native_search(prop, u, wd, int(min(30 if tier == 'quick' else 300, left - 10)), seed)
                srch.append((u.name, msg))
                if got and got['rc'] not in CONFIRM and not (got['rc'] is not None and got['rc'] < 0):
                    srch[-1] = (u.name, 'found but not reproduced (rc=%s)' % got['rc'])
                elif got:
                    msg = (re.findall(r'REPLAY: obligation violated: (.*)', got['output']) or
                           re.findall(r'(runtime error: .*|AddressSanitizer: \S+)', got['output']) or ['crash'])[0]
                    if any(un == u.name and rx.search(msg) for (un, rx, txt) in kf):
                        continue
                    c = dict(confirmed=True, values=got['values'], tail='', output=got['output'], tried=srch, harness=u.src, defs=u.defs)
                    if bad:
                        r, c0 = reports[0][1], reports[0][2]
                        c['obligation'], c['tail'] = c0['obligation'], c0['tail']
                        reports[0] = (True, r, c)
                    else:
                        r = unsure[0]
                        o = dict(name='bounded search (prover undecided)', desc=msg, status='FAILURE', func='', line='', file=u.src)
                        c['obligation'] = o
                        r.failed = [o]
                        reports.append((True, r, c))
                    break
        for r in bad:
            for x in reports:
                if x[1] is r and srch:
                    x[2]['tried'] = list(x[2]['tried']) + (srch if x[2]['tried'] is not srch else [])
        reports = [(c, r, write_replay(prop, r, d)) for (c, r, d) in reports]
        if reports:
            reports.sort(key=lambda x: not x[0])
            (c, r, p) = reports[0]
            print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if c else ' no-failing-input-found'))
            for (c, r, p) in reports:
                print('  unit %s: %d obligation(s) failed, first: %s (%s:%s) [%s]' % (
                    r.unit.name, len(r.failed), r.failed[0]['desc'], r.failed[0]['file'], r.failed[0]['line'],
                    'failing input replayed on the real code' if c else 'not replayed'))
            rc = 1
        for x in srch:
            print('  search %s: %s' % x)
        for r in res:
            if r.status in ('undecided', 'broken'):
                print('  unit %s: %s: %s' % (r.unit.name, r.status, r.detail[:1500]))
            else:
                print('  unit %s: %s, %d obligations, %.1f s' % (r.unit.name, r.status, len(r.obls), r.secs))
        decided = [r for r in res if r.status in ('ok', 'fail')]
        if rc == 0 and not decided and any('no failing input among' in x[1] for x in srch):
            print('  no unit was decided; the bounded random search found no failing input')
        elif rc == 0 and not decided:
            print('ERROR: no unit of %s gave an answer' % prop)
            rc = 2
        write_evidence(prop, tier, seed, level, res, len(reports), time.time() - t0, notes, found, extra)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return rc


def write_evidence(prop, tier, seed, level, res, nviol, wall, notes, found, extra):
    proof = [r for r in res if r.unit.kind == 'proof']
    bnd = [r for r in res if r.unit.kind != 'proof']

    def ok(r):
        return sum(1 for o in r.obls if o['status'] == 'SUCCESS')
    asm = []
    for r in res:
        for a in r.unit.assumptions:
            if a not in asm:
                asm.append(a)
    cov = dict(
        obligations=sum(len(r.obls) for r in proof),
        discharged=sum(ok(r) for r in proof),
        checker_cmd='cd /verif && ./check %s %s' % (prop, tier),
        trusted_base=['CBMC 6.11.0 (goto-cc front end, symbolic execution, VC generation)',
                      'SAT solver CaDiCaL / MiniSat inside CBMC', 'gcc 13.3 ABI (LP64) and machine integers as CBMC models them',
                      'the assumed contracts listed under assumptions'],
        functions_under_contract=sorted({f for r in proof if r.status in ('ok', 'fail') for f in r.unit.funcs}),
        functions_bounded_only=sorted({f for r in bnd for f in r.unit.funcs} -
                                      {f for r in proof if r.status in ('ok', 'fail') for f in r.unit.funcs}),
        bounded_obligations=sum(len(r.obls) for r in bnd),
        bounded_discharged=sum(ok(r) for r in bnd),
        vacuity_guards_reached=sum(r.reached for r in res),
        units=[dict(unit=r.unit.name, harness='harness/' + r.unit.src, kind=r.unit.kind, bound=r.unit.bound,
                    functions=r.unit.funcs, status=r.status, detail=r.detail[:600], obligations=len(r.obls),
                    discharged=ok(r), vacuity_guards_reached=r.reached, backend=r.solver,
                    solver_s=round(getattr(r, 'solver_s', 0.0), 3), wall_s=round(r.secs, 2),
                    sample_obligations=[o['desc'] for o in r.obls if o['desc'].startswith('P: ')][:12])
               for r in res],
        known_findings=sorted(set(found)),
        notes=list(notes),
    )
    if extra:
        cov.update(extra)
    if level != 'proof':
        cov['explanation'] = cov.get('explanation') or '; '.join(notes) or 'bounded deductive check, see units'
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=asm,
              wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
