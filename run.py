#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from /repo's working tree in
several instrumented variants, drives the workload in parallel shards, attributes
crashes and hangs to cases, and reports violations, known findings and evidence.

  run.py <id> [--tier quick|thorough] [--seed N] [--repo DIR] [--keep]
  run.py --replay <file>
"""
import sys, os, json, subprocess, tempfile, shutil, time, re, struct, threading, queue, signal, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS
H = os.path.join(HERE, 'harness')
JOBS = 8
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
VARIANTS = {
    # name: compiler, flags, layout, tool, share of the cases
    'asan-row':   dict(cxx='clang++', flags=['-O0', '-g1'] + SAN, layout='row'),
    'asan-col':   dict(cxx='clang++', flags=['-O0', '-g1'] + SAN, layout='col'),
    'gcc-san-row': dict(cxx='g++', flags=['-O1', '-g1'] + SAN, layout='row'),
    'gcc-san-col': dict(cxx='g++', flags=['-O1', '-g1'] + SAN, layout='col'),
    # The sanitizers with assertions disabled: what a release build does, watched.
    'asan-nd-row': dict(cxx='clang++', flags=['-O1', '-g1', '-DNDEBUG'] + SAN, layout='row'),
    'asan-nd-col': dict(cxx='clang++', flags=['-O1', '-g1', '-DNDEBUG'] + SAN, layout='col'),
    'ndebug-row': dict(cxx='clang++', flags=['-O2', '-DNDEBUG'], layout='row'),
    'ndebug-col': dict(cxx='clang++', flags=['-O2', '-DNDEBUG'], layout='col'),
    'tsan-row':   dict(cxx='clang++', flags=['-O1', '-g1', '-fsanitize=thread'], layout='row'),
    'tsan-col':   dict(cxx='clang++', flags=['-O1', '-g1', '-fsanitize=thread'], layout='col'),
    'valgrind-row': dict(cxx='g++', flags=['-O1', '-g1'], layout='row', tool=['valgrind', '-q', '--error-exitcode=97', '--exit-on-first-error=yes', '--leak-check=no', '--track-origins=no'], env={'VF_NOFILL': '1'}),
    'plain-row':  dict(cxx='g++', flags=['-O0', '-g1'], layout='row'),
    'plain-col':  dict(cxx='g++', flags=['-O0', '-g1'], layout='col'),
}
ENV = dict(
    ASAN_OPTIONS='abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=256:detect_stack_use_after_return=1:strict_string_checks=1:quarantine_size_mb=64:max_malloc_fill_size=1048576:disable_coredump=1',
    UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1',
    TSAN_OPTIONS='halt_on_error=1:exitcode=66:history_size=4',
    MALLOC_PERTURB_='165')


def env_of(cfg):
    e = dict(os.environ, **ENV)
    for k, v in cfg.get('env', {}).items():
        e[k] = (e[k] + ':' + v) if k.endswith('_OPTIONS') and k in ENV else v
    return e


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def prepare_includes(work, repo):
    inc = {'row': os.path.join(repo, 'include')}
    dst = os.path.join(work, 'inc_col')
    shutil.copytree(inc['row'], dst)
    n = 0
    for base, _, files in os.walk(dst):
        for f in files:
            if f.endswith(('.hpp', '.h')):
                p = os.path.join(base, f)
                s = open(p, encoding='utf-8', errors='surrogateescape').read()
                t, k = re.subn(r'(?m)^([ \t]*)#[ \t]*define[ \t]+ROW_MAJOR\b.*$', r'\1//#define ROW_MAJOR', s)
                if k:
                    n += k
                    open(p, 'w', encoding='utf-8', errors='surrogateescape').write(t)
    if n:
        inc['col'] = dst
    return inc


def compile_variant(prop, cfg, name, inc, work):
    v = VARIANTS[name]
    exe = os.path.join(work, f'{prop}-{name}')
    cmd = [v['cxx'], '-std=c++17', '-w'] + v['flags'] + cfg.get('flags', [])
    cmd += ['-I' + H, '-I' + inc[v['layout']], os.path.join(H, cfg['src']), '-o', exe, '-pthread']
    if cfg.get('ledger'):
        cmd += ['-DVF_LEDGER', '-fno-builtin', '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600, errors='replace')
    if r.returncode != 0:
        if r.returncode < 0 or 'internal compiler error' in r.stderr or 'Killed' in r.stderr:
            raise HarnessError('compiler died: ' + r.stderr[-500:])
        return None, r.stderr, cmd
    return exe, '', cmd


def toolchain_ok(work, cxx, flags):
    src = os.path.join(work, 'sane.cpp')
    with open(src, 'w') as f:
        f.write('#include <vector>\nint main(){std::vector<int> v(3);return v[0];}\n')
    r = subprocess.run([cxx, '-std=c++17'] + flags + [src, '-o', src + '.x'], capture_output=True, text=True)
    return r.returncode == 0


STATUS_FMT = 'QQ96s160s'


def read_status(path):
    try:
        b = open(path, 'rb').read(struct.calcsize(STATUS_FMT))
        cur, done, sc, op = struct.unpack(STATUS_FMT, b)
        z = lambda x: x.split(b'\0')[0].decode('ascii', 'replace')
        return cur, done, z(sc), z(op)
    except Exception:
        return 0, 0, '?', '?'


def classify(rc, err):
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        return 'asan-' + m.group(1)
    m = re.search(r'runtime error: ([^\n]{0,120})', err)
    if m:
        t = re.sub(r'0x[0-9a-f]+', 'ADDR', m.group(1))
        t = re.sub(r'-?\d[\d.e+]*', 'N', t)
        return 'ubsan-' + re.sub(r'[^A-Za-z]+', '-', t)[:70].strip('-')
    m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', err)
    if m:
        return 'tsan-' + m.group(1).strip().replace(' ', '-')
    m = re.search(r"Assertion [`'](.{0,80}?)' failed", err)
    if m:
        return 'assert-' + re.sub(r'[^A-Za-z0-9]+', '-', m.group(1)).strip('-')
    if 'LeakSanitizer' in err:
        return 'lsan-leak'
    if rc == 97:
        m = re.search(r'==\d+== ([A-Z][^\n]{0,60})', err)
        return 'valgrind-' + (re.sub(r'[^A-Za-z]+', '-', m.group(1)).strip('-') if m else 'error')
    if rc < 0:
        return 'signal-%d' % -rc
    return 'exit-%d' % rc


class Runner:
    def __init__(self, prop, cfg, tier, seed, work):
        self.prop, self.cfg, self.tier, self.seed, self.work = prop, cfg, tier, seed, work
        self.viol = {}      # key -> dict
        self.summ = {}      # variant -> aggregated
        self.hashes = set()
        self.samples = []
        self.problems = []
        self.lock = threading.Lock()
        self.case_timeout = cfg.get('case_timeout', 90)

    def add_violation(self, key, variant, case, scenario, detail):
        with self.lock:
            if key not in self.viol:
                self.viol[key] = dict(key=key, variant=variant, case=case, scenario=scenario, detail=detail, count=1)
            else:
                self.viol[key]['count'] += 1

    def cmd(self, variant, exe, extra):
        tool = VARIANTS[variant].get('tool', [])
        return tool + [exe, '--seed', str(self.seed), '--tier', '1' if self.tier == 'thorough' else '0'] + extra

    def run_proc(self, cmd, status, err_path, variant=None):
        """Returns (rc, hung). A hang is no completed case for case_timeout seconds."""
        env = env_of(self.cfg)
        env.update(VARIANTS.get(variant, {}).get('env', {}))
        with open(err_path, 'wb') as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=self.work, start_new_session=True)
            last, t0 = -1, time.time()
            while True:
                try:
                    rc = p.wait(timeout=1.0)
                    return rc, False
                except subprocess.TimeoutExpired:
                    pass
                done = read_status(status)[1] if status else 0
                if done != last:
                    last, t0 = done, time.time()
                if time.time() - t0 > self.case_timeout:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    return -9, True

    def shard(self, variant, exe, sid, count):
        start = sid
        restarts = 0
        out = os.path.join(self.work, f'{variant}.{sid}.jsonl')
        errp = os.path.join(self.work, f'{variant}.{sid}.err')
        dig = os.path.join(self.work, f'{variant}.{sid}.dig')
        while start < count:
            status = os.path.join(self.work, f'{variant}.{sid}.{restarts}.status')
            extra = ['--from', str(start), '--step', str(JOBS), '--count', str(count), '--out', out, '--status', status]
            if self.cfg.get('digest'):
                extra += ['--digest', dig]
            rc, hung = self.run_proc(self.cmd(variant, exe, extra), status, errp, variant)
            if rc == 0:
                break
            err = open(errp, errors='replace').read()
            cur, done, sc, op = read_status(status)
            if rc == 3 and not hung:
                self.problems.append(f'{variant}/{sid}: harness error: {err[-400:]}')
                break
            # Confirm on the single case.
            st2 = status + '.only'
            rc2, hung2 = self.run_proc(self.cmd(variant, exe, ['--only', str(cur), '--status', st2]), st2, errp + '.only', variant)
            err2 = open(errp + '.only', errors='replace').read()
            if hung or hung2:
                if hung and hung2:
                    self.add_violation(f'{sc}:hang', variant, cur, sc, f'no progress for {self.case_timeout}s, twice, at op {op}')
                else:
                    log(f'note: inconclusive timeout in {variant} case {cur} ({sc})')
            elif rc == -9 and rc2 == 0:
                log(f'note: {variant} shard {sid} was killed from outside at case {cur}; continuing')
            elif rc == -9:
                self.problems.append(f'{variant}/{sid}: killed (memory?) at case {cur} {sc}')
            else:
                if rc2 not in (0, -9):
                    err, rc = err2, rc2
                key = f'{sc}:crash:{classify(rc, err)}'
                self.add_violation(key, variant, cur, sc, f'op={op} rc={rc} reproduced={rc2 != 0} ' + err[:3000])
            restarts += 1
            if restarts > 6:
                break
            start = cur + JOBS
        # Collect.
        agg = dict(cases=0, checks=0, nontrivial=0, counters={})
        if os.path.exists(out):
            for line in open(out, errors='replace'):
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                if o['kind'] == 'violation':
                    self.add_violation(o['key'], variant, o['case'], o['scenario'], o['detail'])
                else:
                    for k in ('cases', 'checks', 'nontrivial'):
                        agg[k] += o[k]
                    for k, n in o['counters'].items():
                        agg['counters'][k] = agg['counters'].get(k, 0) + n
                    with self.lock:
                        self.samples += o['samples'][:2]
        hs = set()
        if os.path.exists(out + '.hash'):
            b = open(out + '.hash', 'rb').read()
            hs = set(struct.unpack('<%dQ' % (len(b) // 8), b[:len(b) // 8 * 8]))
        with self.lock:
            self.hashes |= hs
            a = self.summ.setdefault(variant, dict(cases=0, checks=0, nontrivial=0, counters={}))
            for k in ('cases', 'checks', 'nontrivial'):
                a[k] += agg[k]
            for k, n in agg['counters'].items():
                a['counters'][k] = a['counters'].get(k, 0) + n


def load_known():
    known = {}
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) key=(.+?) \|\| (.*)', line.strip())
        if m:
            known[(m.group(1), m.group(2))] = m.group(3)
    return known


def check(prop, tier, seed, repo='/repo', keep=False, evdir_arg=None):
    t0 = time.time()
    cfg = PROPS[prop]
    work = tempfile.mkdtemp(prefix=f'vf-{prop}-')
    try:
        return _check(prop, cfg, tier, seed, repo, work, t0, evdir_arg)
    finally:
        if keep:
            log('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def build_all(prop, cfg, names, inc, work, R):
    exes, errs = {}, {}

    def one(n):
        try:
            exes[n] = compile_variant(prop, cfg, n, inc, work)
        except Exception as e:
            errs[n] = e
    ts = [threading.Thread(target=one, args=(n,)) for n in names]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise HarnessError('; '.join(f'{n}: {e}' for n, e in errs.items()))
    ok = {}
    for n in names:
        exe, err, cmd = exes[n]
        if exe:
            ok[n] = exe
            continue
        v = VARIANTS[n]
        if not toolchain_ok(work, v['cxx'], v['flags']):
            raise HarnessError(f'the toolchain cannot build variant {n}')
        m = re.search(r'[^\n]*error:[^\n]*', err)
        first = m.group(0) if m else err[:300]
        msg = re.sub(r'^\S+?:\d+:\d+: ', '', first)[:160]
        # The harness only uses the public interface: a program that uses it no longer builds.
        R.add_violation('build:' + msg, n, -1, 'build', err[:3000])
    return ok


def _check(prop, cfg, tier, seed, repo, work, t0, evdir_arg=None):
    inc = prepare_includes(work, repo)
    plan = cfg['thorough' if tier == 'thorough' else 'quick']
    names = [n for n in plan if VARIANTS[n]['layout'] in inc]
    skipped = [n for n in plan if n not in names]
    R = Runner(prop, cfg, tier, seed, work)
    exes = build_all(prop, cfg, names, inc, work, R)
    t_build = time.time() - t0
    q = queue.Queue()
    for n, e in exes.items():
        for s in range(JOBS):
            q.put((n, e, s, plan[n]))

    def worker():
        while True:
            try:
                n, e, s, c = q.get_nowait()
            except queue.Empty:
                return
            try:
                R.shard(n, e, s, c)
            except Exception as ex:
                R.problems.append(f'{n}/{s}: {ex!r}')
    ts = [threading.Thread(target=worker) for _ in range(JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    extra = {}
    if exes and 'post' in cfg:
        extra = cfg['post'](R, exes, inc, work, tier) or {}
    # Verdict.
    known = load_known()
    viol, kf = [], []
    for k in sorted(R.viol):
        v = R.viol[k]
        if (prop, k) in known:
            kf.append((k, known[(prop, k)]))
        else:
            viol.append(v)
    evdir = evdir_arg or os.path.join(HERE, 'evidence')
    rep = os.path.join(evdir, 'replay')
    os.makedirs(rep, exist_ok=True)
    cases = sum(a['cases'] for a in R.summ.values())
    checks = sum(a['checks'] for a in R.summ.values())
    counters = {}
    for a in R.summ.values():
        for k, n in a['counters'].items():
            counters[k] = counters.get(k, 0) + n
    cov = dict(evaluations=cases, distinct_nontrivial=len(R.hashes), rule=cfg['rule'], samples=R.samples[:8] or ['none'],
               oracle_evaluations=checks, per_variant={n: dict(cases=a['cases'], checks=a['checks']) for n, a in R.summ.items()},
               observed=counters, build_s=round(t_build, 1), skipped_variants=skipped, **extra)
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get('level', 'exploration'), coverage=cov,
              assumptions=cfg.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    log(f'{prop} {tier} seed={seed}: {cases} cases, {checks} oracle evaluations, {len(R.hashes)} distinct non-trivial, '
        f'{len(viol)} violations, {len(kf)} known, build {t_build:.1f}s, wall {time.time()-t0:.1f}s')
    for k, what in kf:
        log(f'KNOWN-FINDING: property={prop} {what}')
    for i, v in enumerate(viol[:25]):
        path = os.path.join(rep, f'{prop}-{hashlib.sha1(v["key"].encode()).hexdigest()[:10]}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, **v, how=f'python3 {HERE}/run.py --replay {path}'), f, indent=1)
        log(f'  {v["key"]} [{v["variant"]} case {v["case"]}] x{v["count"]}: {v["detail"][:400]}')
        log(f'VIOLATION property={prop} replay={path}')
    if viol:
        return 1
    if R.problems:
        log('INCONCLUSIVE: ' + ' | '.join(R.problems[:5]))
        return 2
    expect = sum(plan[n] for n in names)
    if cases < expect or checks == 0 or not R.hashes:
        log(f'INCONCLUSIVE: only {cases} of {expect} cases ran')
        return 2
    return 0


def replay(path, repo='/repo'):
    v = json.load(open(path))
    prop, cfg = v['property'], PROPS[v['property']]
    work = tempfile.mkdtemp(prefix='vf-replay-')
    try:
        inc = prepare_includes(work, repo)
        n = v['variant']
        if n not in VARIANTS:
            log(v['detail'])
            return 1
        exe, err, cmd = compile_variant(prop, cfg, n, inc, work)
        if not exe:
            log('does not build:\n' + err[:4000])
            return 1
        c = VARIANTS[n].get('tool', []) + [exe, '--seed', str(v['seed']), '--only', str(v['case']), '--verbose',
                                           '--tier', '1' if v['tier'] == 'thorough' else '0', '--out', os.path.join(work, 'o')]
        bad = False
        for _ in range(cfg.get('replay_tries', 1)):  # schedules are not replayed exactly
            r = subprocess.run(c, env=env_of(cfg), cwd=work, timeout=900)
            bad = r.returncode != 0 or any(json.loads(l)['kind'] == 'violation' for l in open(os.path.join(work, 'o')))
            if bad:
                break
        log('reproduced' if bad else 'not reproduced')
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    repo = opt('--repo', '/repo')
    if '--replay' in a:
        sys.exit(replay(opt('--replay', None), repo))
    tier = opt('--tier', os.environ.get('VERIF_TIER', 'quick'))
    seed = int(opt('--seed', os.environ.get('VERIF_SEED', '1')))
    try:
        sys.exit(check(a[0], tier, seed, repo, '--keep' in a, opt('--evidence', None)))
    except HarnessError as e:
        log('HARNESS ERROR:', e)
        sys.exit(2)


if __name__ == '__main__':
    main()
