import argparse, concurrent.futures as cf, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from plans import FLAVOURS, PLANS, SOURCE
from rules import RULES

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
JOBS = min(8, os.cpu_count() or 1)
CASE_TIMEOUT = 120     # one case normally takes milliseconds; a case that does not end in this time, twice, hangs


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ build
def lib_sources():
    """The sources of the library as its own build lists them."""
    out = []
    try:
        for line in open(os.path.join(REPO, 'sources.mk')):
            m = re.match(r'\s*UTREEXO_LIB_SOURCES_INT\s*\+?=\s*(.*)', line)
            if m:
                out += [w.replace('%reldir%/', '') for w in m.group(1).split()]
    except OSError:
        pass
    out = [s for s in out if os.path.exists(os.path.join(REPO, s))]
    if not out:
        for d in ('src', 'src/crypto'):
            out += [f'{d}/{f}' for f in sorted(os.listdir(os.path.join(REPO, d))) if f.endswith('.cpp') and f != 'utreexo.cpp']
    return [os.path.join(REPO, s) for s in out]


# monitors which also look at internal interfaces, and the properties built without them because those changed
INTERNAL = ('props_pos.cpp', 'props_sha.cpp')
REDUCED = set()


def can_fall_back(cmd):
    return cmd[0] == 'clang++' or any(a.startswith('-DHAVE_') for a in cmd)


def other_compiler(spec):
    """The flavour for g++ and without a configuration header, for trees that only compile that way."""
    flags = spec['flags'].replace('trace-pc-guard', 'trace-pc').replace(' -fsanitize-address-use-after-return=always', '')
    flags = ' '.join(f for f in flags.split() if not f.startswith('-DHAVE_'))
    return dict(spec, cxx='g++', flags=flags)


def build(prop, flavours, work):
    """Compile each flavour's monitors and the library from the working tree, all translation units in parallel."""
    jobs, links = [], {}
    broken = set()

    def plan(fl, spec):
        d = os.path.join(work, 'bin', fl)
        os.makedirs(d, exist_ok=True)
        srcs = lib_sources()
        srcs += [os.path.join(HARNESS, s) for s in ('main.cpp', 'world.cpp', 'refsha.cpp')]
        srcs += sorted({os.path.join(HARNESS, SOURCE[w]) for w in flavours[fl]})
        objs = []
        for s in srcs:
            o = os.path.join(d, os.path.relpath(s, '/').replace('/', '_') + '.o')
            objs.append(o)
            tool = [spec['cxx'], *spec['flags'].replace('@HARNESS@', HARNESS).split()]
            if 'harness' in spec and s.startswith(HARNESS):
                tool = ['g++', '-std=c++17', '-w', '-g', '-O2', *spec['harness'].split()]
            jobs.append((os.path.getsize(s), fl, [*tool, f'-I{REPO}', f'-I{REPO}/include', f'-I{REPO}/src', f'-I{HARNESS}', '-c', s, '-o', o]))
        links[fl] = [spec['cxx'], *spec['flags'].replace('@HARNESS@', HARNESS).split(), *objs, '-o', os.path.join(d, 'mon'), '-lpthread']

    def cc(job):
        fl, cmd = job
        if fl in broken:
            return
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=work)
        if r.returncode and any(a.endswith(INTERNAL) for a in cmd) and '-DPUBLIC_API_ONLY' not in cmd:
            # the internal interface these monitors look at is no longer what it was: judge by the public one
            REDUCED.add(prop)
            return cc((fl, cmd[:-4] + ['-DPUBLIC_API_ONLY'] + cmd[-4:]))
        if r.returncode and can_fall_back(cmd):
            broken.add(fl)      # what the project's own compiler accepts is enough
            return
        if r.returncode:
            raise CheckError('build failed: ' + ' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[-4000:])

    def make():
        jobs.sort(key=lambda j: -j[0])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(cc, [j[1:] for j in jobs]))
            list(ex.map(cc, [l for l in links.items() if l[0] not in broken]))

    for fl in flavours:
        plan(fl, FLAVOURS[fl])
    make()
    if broken:
        again = sorted(broken)
        jobs.clear()
        links.clear()
        broken.clear()
        for fl in again:
            plan(fl, other_compiler(FLAVOURS[fl]))
            print(f'note: {fl} does not build as configured, built with g++ and the default configuration instead')
        make()
    return {fl: os.path.join(work, 'bin', fl, 'mon') for fl in flavours}


# ------------------------------------------------------------------ run
def environment(flavour, extra):
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'TMPDIR')}
    env['LC_ALL'] = 'C'
    env['ASAN_OPTIONS'] = 'abort_on_error=1:detect_leaks=0:strict_string_checks=1:detect_stack_use_after_return=1:check_initialization_order=1:hard_rss_limit_mb=3500:allocator_may_return_null=0:max_allocation_size_mb=4096:quarantine_size_mb=64'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:abort_on_error=1:halt_on_error=1'
    env['TSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4'
    env.update(extra or {})
    return env


def command(mon, spec, part, seed, first, count, out, extra):
    cmd = []
    if spec.get('valgrind'):
        cmd = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no', '--track-origins=no', '--undef-value-errors=yes', '--max-stackframe=8000000']
    if spec.get('tsan'):
        cmd = ['setarch', '-R'] if _setarch_works() else []
    cmd += [mon, '--prop', part['workload'], '--seed', str(seed), '--from', str(first), '--count', str(count)]
    if out:
        cmd += ['--out', out]
    if part.get('memory_only'):
        cmd.append('--memory-only')
    if part.get('leak'):
        cmd.append('--leak')
    if part.get('weight'):
        cmd += ['--weight', str(part['weight'])]
    if 'heavy' in part:
        cmd += ['--heavy', str(part['heavy'])]
    if not spec.get('san') and not spec.get('valgrind'):
        cmd += ['--max-as-mb', '6000']    # running away ends in bad_alloc, not in the machine's memory
    return cmd + extra


_sa = None
def _setarch_works():
    global _sa
    if _sa is None:
        try:
            _sa = subprocess.run(['setarch', '-R', 'true'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        except OSError:
            _sa = False
    return _sa


stop = threading.Event()
_live = set()
_lock = threading.Lock()


def execute(cmd, env, cwd, timeout):
    """-> (returncode or None on timeout, stderr tail)"""
    with tempfile.TemporaryFile(dir=cwd) as err:
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
        with _lock:
            _live.add(p)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            with _lock:
                _live.discard(p)
        err.seek(0, 2)
        n = err.tell()
        err.seek(max(0, n - 20000))
        return rc, err.read().decode(errors='replace')


def kill_all():
    stop.set()
    with _lock:
        for p in list(_live):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def progress_case(path):
    try:
        b = open(path, 'rb').read(16)
        k, st = struct.unpack('<QQ', b)
        return k if st == 1 else None
    except Exception:
        return None


def describe_crash(rc, err):
    for pat, kind in ((r'ERROR: AddressSanitizer:? ?([\w-]+)', 'asan'), (r'WARNING: ThreadSanitizer: ([\w -]+)', 'tsan'), (r'runtime error: (.*)', 'ubsan'),
                      (r"Assertion `(.*)' failed", 'assert'), (r'Assertion (.*) failed', 'assert'), (r'==\d+== ((?:Invalid|Conditional|Use of|Syscall|Mismatched|Argument).*)', 'valgrind'),
                      (r'(terminate called.*)', 'terminate'), (r'Error: (attempt to .*)', 'debug-container')):
        m = re.search(pat, err)
        if m:
            return f'{kind}: {m.group(1).strip()[:160]}'
    if rc < 0:
        try:
            return 'crash: ' + signal.Signals(-rc).name
        except ValueError:
            return f'crash: signal {-rc}'
    return f'exit: {rc}'


class Chunk:
    def __init__(self, part, first, count):
        self.part, self.first, self.count = part, first, count


class Run:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.bins = {}
        self.cases = self.functional = 0
        self.counters, self.per_part, self.samples = {}, {}, []
        self.sigs, self.states = set(), set()
        self.violation = None
        self.known_hit = []
        self.known = load_known(prop)
        self.crashes_not_repeated = 0
        self.seq = 0

    # run cases [first, first+count); returns list of (case, key, message, trace) violations met (stops at the first unknown)
    def chunk(self, ch):
        if stop.is_set():
            return
        part, spec = ch.part, FLAVOURS[ch.part['flavour']]
        with _lock:
            self.seq += 1
            d = os.path.join(self.work, 'run', f'{self.seq}')
        os.makedirs(d)
        first, end = ch.first, ch.first + ch.count
        env = environment(part['flavour'], part.get('env'))
        try:
            while first < end and not stop.is_set():
                out = os.path.join(d, 'out.json')
                prog = os.path.join(d, 'progress')
                extra = ['--progress', prog, '--scratch', d]
                if self.tier == 'thorough':
                    extra.append('--thorough')
                if part.get('digests'):
                    extra += ['--digests', os.path.join(self.work, 'digests', f"{part_name(part)}.{first}")]
                t0 = time.time()
                rc, err = execute(command(self.bins[part['flavour']], spec, part, self.seed, first, end - first, out, extra), env, d, self.chunk_timeout)
                with _lock:
                    pp = self.per_part.setdefault(part_name(part), dict(cases=0, nontrivial=0, process_s=0))
                    pp['process_s'] = round(pp['process_s'] + time.time() - t0, 1)
                if stop.is_set():
                    return
                if rc == 0 or rc == 10:
                    try:
                        res = json.load(open(out))
                    except (OSError, ValueError) as e:
                        raise CheckError(f'no report from {part_name(part)}: {e} {err[-500:]}')
                    self.merge(part, res, out + '.sets')
                    if rc == 0:
                        return
                    v = res['violation']
                    if self.judge(part, v['case'], v['kind'], v['msg'], v.get('trace', ''), ''):
                        return
                    first = v['case'] + 1
                    continue
                if rc == 3:
                    raise CheckError(f'{part_name(part)}: harness error: {err[-2000:]}')
                case = progress_case(prog)
                if case is None:
                    # before the first case or after the last one: retry once, then it is an error of the check unless a sanitizer spoke
                    if rc is not None and rc != -9 and re.search(r'Sanitizer|runtime error', err):
                        self.judge(part, first, describe_crash(rc, err), 'report outside of a case', '', err)
                        return
                    raise CheckError(f'{part_name(part)}: ended with {rc} outside of a case: {err[-1500:]}')
                # once more, alone, writing the trace through
                tr = os.path.join(d, 'trace.txt')
                rc2, err2 = execute(command(self.bins[part['flavour']], spec, part, self.seed, case, 1, None,
                                            ['--progress', prog, '--scratch', d, '--trace', tr] + (['--thorough'] if self.tier == 'thorough' else [])), env, d, CASE_TIMEOUT)
                if stop.is_set():
                    return
                trace = open(tr, errors='replace').read()[-20000:] if os.path.exists(tr) else ''
                if rc is None:
                    if rc2 is None:
                        kind, msg = 'hang', f'the case does not end within {CASE_TIMEOUT} s'
                    elif rc2 == 0:
                        # only slow; go on behind it
                        self.counters['slow-chunks'] = self.counters.get('slow-chunks', 0) + 1
                        if self.counters['slow-chunks'] > 8:
                            raise CheckError(f'{part_name(part)}: too slow on this machine')
                        first = case if case > first else case + 1
                        continue
                    else:
                        kind, msg = describe_crash(rc2, err2), 'the process died'
                elif rc == -9:
                    if rc2 == 0:
                        raise CheckError(f'{part_name(part)}: killed (out of memory?) at case {case}; alone the case passes')
                    if rc2 == -9:
                        kind, msg = 'killed', 'the process was killed twice in the same case (memory exhausted?)'
                    else:
                        kind, msg = (describe_crash(rc2, err2) if rc2 is not None else 'hang'), 'the process died'
                else:
                    kind, msg = describe_crash(rc, err), 'the process died'
                    if rc2 == 0:
                        self.crashes_not_repeated += 1
                        msg += ' (depends on the cases before it; alone the case passes)'
                if self.judge(part, case, kind, msg, trace, err):
                    return
                first = case + 1
        except CheckError:
            kill_all()
            raise
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def judge(self, part, case, kind, msg, trace, err):
        """True if the run has to stop."""
        key = f"{part['workload']} {kind}: {msg}"
        for k in self.known:
            if re.search(k['match'], key):
                with _lock:
                    self.known_hit.append((k, f'case {case}'))
                return False
        with _lock:
            if self.violation is None:
                self.violation = dict(property=self.prop, workload=part['workload'], flavour=part['flavour'], part={k: v for k, v in part.items() if k != 'count'},
                                      seed=self.seed, tier=self.tier, case=case, kind=kind, message=msg, trace=trace, stderr=err[-6000:])
        kill_all()
        return True

    def merge(self, part, res, sets):
        with _lock:
            self.cases += res['cases']
            self.functional += res['functional']
            for k, v in res['counters'].items():
                self.counters[k] = self.counters.get(k, 0) + v
            pp = self.per_part[part_name(part)]
            pp['cases'] += res['cases']
            pp['nontrivial'] += res['nontrivial']
            for s in res['samples']:
                if len(self.samples) < 4:
                    self.samples.append(dict(workload=part['workload'], flavour=part['flavour'], case=s['case'], operations=s['trace'].strip().split('\n')[:24]))
        try:
            b = open(sets, 'rb').read()
            n, = struct.unpack_from('<Q', b, 0)
            sg = struct.unpack_from(f'<{n}Q', b, 8)
            m, = struct.unpack_from('<Q', b, 8 + 8 * n)
            st = struct.unpack_from(f'<{m}Q', b, 16 + 8 * n)
            with _lock:
                # the same case under another build is not another case
                self.sigs.update((part['workload'], x) for x in sg)
                if len(self.states) < 3000000:
                    self.states.update(st)
        except (OSError, struct.error) as e:
            raise CheckError(f'sets of {part_name(part)}: {e}')


def part_name(part):
    e = part.get('env') or {}
    return f"{part['workload']}@{part['flavour']}" + ''.join(f'+{k}{v}' for k, v in e.items()) + ('+leak' if part.get('leak') else '')


def load_known(prop):
    out = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)', line)
            if m and m.group(1) == prop:
                out.append(dict(match=m.group(2), what=m.group(3)))
    return out


def compare_digests(run, parts):
    """C16: every build must have produced the same outputs for every case."""
    d = os.path.join(run.work, 'digests')
    tables = {}
    for f in os.listdir(d):
        name = f.rsplit('.', 1)[0]
        t = tables.setdefault(name, {})
        for line in open(os.path.join(d, f)):
            k, h = line.split()
            t[int(k)] = h
    base_part = parts[0]
    base = tables.get(part_name(base_part), {})
    compared = 0
    for p in parts[1:]:
        t = tables.get(part_name(p), {})
        for k in sorted(t):
            if k not in base:
                continue
            compared += 1
            if t[k] != base[k]:
                run.judge(p, k, 'builds-differ', f'{part_name(p)} and {part_name(base_part)} give different outputs for case {k}', '', '')
                return compared
    return compared


def explore(run, parts):
    tier = run.tier
    flavours = {}
    for p in parts:
        flavours.setdefault(p['flavour'], set()).add(p['workload'])
    t0 = time.time()
    run.bins = build(run.prop, flavours, run.work)
    run.build_s = time.time() - t0
    os.makedirs(os.path.join(run.work, 'digests'), exist_ok=True)
    run.chunk_timeout = 300 if tier == 'quick' else 1800
    chunks = []
    for p in parts:
        total = p['count'][tier]
        per = -(-total // (24 if tier == 'quick' else 96))
        # the first cases of a workload are the largest ones: small chunks there
        pos = 0
        while pos < total:
            n = min(1 if pos < 16 and total > 64 else max(1, per // 8) if pos < per else per, total - pos)
            chunks.append((pos > 0, pos, Chunk(p, pos, n)))
            pos += n
    chunks.sort(key=lambda c: c[0])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(run.chunk, c[2]) for c in chunks]
        err = None
        for f in cf.as_completed(futs):
            try:
                f.result()
            except CheckError as e:
                err = err or e
                kill_all()
        if err and run.violation is None:
            raise err


def write_evidence(run, level, wall, extra=None):
    rule, assumptions = RULES[run.prop]
    hits = {k: v for k, v in sorted(run.counters.items())}
    cov = dict(evaluations=run.cases, distinct_nontrivial=len(run.sigs), rule=rule, samples=run.samples,
               distinct_states_judged=len(run.states),
               oracle_evaluations={k[7:]: v for k, v in hits.items() if k.startswith('oracle:')},
               observed={k: v for k, v in hits.items() if not k.startswith('oracle:')},
               per_build=run.per_part, build_s=round(run.build_s, 1))
    if run.functional:
        cov['cases_ended_early_by_a_functional_monitor'] = run.functional
    if run.prop in REDUCED:
        cov['internal_interfaces_changed'] = 'monitors of internal functions were left out'
    cov.update(extra or {})
    ev = dict(property=run.prop, tier=run.tier, seed=run.seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(wall, 2), violations=1 if run.violation else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', f'.{run.prop}.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', f'{run.prop}.json'))


def replay(prop, path, work):
    v = json.load(open(path))
    part = dict(v['part'], count={})
    run = Run(prop, v['tier'], v['seed'], work)
    if v['kind'] == 'builds-differ':
        p0 = PLANS['C16'][0]
        parts = [p0, part]
        run.bins = build(prop, {p['flavour']: {p['workload']} for p in parts}, work)
        sigs = []
        for i, p in enumerate(parts):
            d = os.path.join(work, f'd{i}')
            os.makedirs(d)
            rc, err = execute(command(run.bins[p['flavour']], FLAVOURS[p['flavour']], p, v['seed'], v['case'], 1, None, ['--scratch', d, '--digests', d + '/dg', '--trace', d + '/tr'] + (['--thorough'] if v['tier'] == 'thorough' else [])), environment(p['flavour'], p.get('env')), d, CASE_TIMEOUT)
            sigs.append(open(d + '/dg').read())
            log(part_name(p), rc, sigs[-1].strip())
        return 1 if sigs[0] != sigs[1] else 0
    run.bins = build(prop, {part['flavour']: {part['workload']}}, work)
    d = os.path.join(work, 'one')
    os.makedirs(d)
    tr = os.path.join(d, 'trace.txt')
    rc, err = execute(command(run.bins[part['flavour']], FLAVOURS[part['flavour']], part, v['seed'], v['case'], 1, None,
                              ['--scratch', d, '--trace', tr] + (['--thorough'] if v['tier'] == 'thorough' else [])), environment(part['flavour'], part.get('env')), d, 600)
    if os.path.exists(tr):
        log(open(tr, errors='replace').read()[-30000:])
    log(err[-6000:])
    log('exit', rc)
    return 0 if rc == 0 else 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=lambda s: int(s, 0), default=int(os.environ.get('VERIF_SEED') or '1', 0))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0, help='multiply the number of cases')
    a = ap.parse_args()
    prop = a.property
    if prop not in PLANS:
        log(f'no such property: {prop}')
        return 2
    t0 = time.time()
    base = os.path.join(VERIF, 'build')
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f'{prop}-', dir=base)
    try:
        if a.replay:
            return replay(prop, a.replay, work)
        ev = os.path.join(VERIF, 'evidence', f'{prop}.json')
        if os.path.exists(ev):
            os.remove(ev)
        run = Run(prop, a.tier, a.seed & 0xffffffffffffffff, work)
        parts = [dict(p, count={t: max(1, int(n * a.scale)) for t, n in p['count'].items()}) for p in PLANS[prop]]
        extra = {}
        explore(run, parts)
        if run.violation is None and any(p.get('digests') for p in parts):
            extra['outputs_compared_between_builds'] = compare_digests(run, parts)
        wall = time.time() - t0
        level = 'fault_enumeration' if prop == 'C09' else 'exploration'
        write_evidence(run, level, wall, extra)
        for k, where in {id(k): (k, w) for k, w in run.known_hit}.values():
            log(f"KNOWN-FINDING: property={prop} {k['what']} ({where})")
        if run.violation:
            v = run.violation
            rd = os.path.join(base, 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{prop}-{v['workload']}-{v['flavour']}-{v['seed']}-{v['case']}.json")
            json.dump(v, open(path, 'w'), indent=1)
            log(f"{prop}: {v['workload']}@{v['flavour']} case {v['case']}: {v['kind']}: {v['message']}")
            if v['trace']:
                log('\n'.join(v['trace'].strip().split('\n')[-12:]))
            if v['stderr']:
                log(v['stderr'][-2500:])
            log(f'VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}')
            return 1
        missing = [p for p in parts if not run.per_part.get(part_name(p), {}).get('cases')]
        if missing or not run.sigs:
            log('INCONCLUSIVE: nothing observed by ' + ', '.join(part_name(p) for p in missing))
            return 2
        need = RULES_NEED.get(prop, [])
        if prop in REDUCED:
            log(f'{prop}: internal interfaces have changed, judged through the public interface only')
            need = dict(C14=['sparse:verified', 'public-api-only'], C15=['parents', 'public-api-only']).get(prop, need)
        silent = [k for k in need if not run.counters.get(k)]
        if silent:
            log('INCONCLUSIVE: these monitors never observed an event: ' + ', '.join(silent))
            return 2
        log(f"{prop}: held on {run.cases} cases ({len(run.sigs)} distinct, {len(run.states)} distinct states judged, {sum(v for k, v in run.counters.items() if k.startswith('oracle:'))} oracle evaluations), build {run.build_s:.1f} s, total {wall:.1f} s")
        return 0
    except CheckError as e:
        log(f'CHECK ERROR: {e}')
        return 2
    finally:
        kill_all()
        shutil.rmtree(work, ignore_errors=True)


from rules import NEED as RULES_NEED  # noqa: E402
