#!/usr/bin/env python3
"""Mutation sweep: applies small token-level changes to the headers one by one, in scratch
copies, and runs an eighth of the quick cases of the checks in charge of the function.
  mutate.py OUT.jsonl [--files linalg.hpp,...] [--workers 8] [--sample N] [--seed S]
Survivors are listed for triage (equivalent, outside the specification, or missed)."""
import sys, os, re, json, random, shutil, tempfile, argparse, threading, queue, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run
from props import PROPS
INC = '/repo/include/malg'
# (file, function) -> checks, first match wins
MAP = [
 ('vector.hpp', None, 'C02 C01 C32 C08'), ('matrix.hpp', None, 'C02 C01 C06 C03 C32'), ('matrix_base.hpp', None, 'C02 C03 C01'),
 ('view.hpp', None, 'C03 C06 C04'), ('feq.hpp', None, 'C07 C14 C15'), ('complex_math.hpp', None, 'C29'), ('type_traits.hpp', None, 'C04 C12'),
 ('io.hpp', r'get_longhest|dump_|to_matlab|to_cpp|StateSpace|Range', 'C28'), ('io.hpp', 'ifstream', 'C26 C27'), ('io.hpp', 'ofstream', 'C26'), ('io.hpp', None, 'C28 C26'),
 ('eigen.hpp', None, 'C30'),
 ('control.hpp', r'\bc2d', 'C21'), ('control.hpp', 'simulate|DiscreteStateSpace', 'C22 C21'), ('control.hpp', 'ctrb|obsv', 'C23 C06'), ('control.hpp', 'poly', 'C24 C06'),
 ('control.hpp', 'acker', 'C25'), ('control.hpp', 'generate', 'C34'), ('control.hpp', None, 'C28 C21 C22'),
 ('linalg.hpp', r'\btranspose|hermitian|conjugate', 'C14'), ('linalg.hpp', r'\bfactorial', 'C34'), ('linalg.hpp', r'\bpowm', 'C05'), ('linalg.hpp', 'cofactor|adjoint|inverse|div', 'C16 C06'),
 ('linalg.hpp', 'determinant', 'C15 C06'), ('linalg.hpp', 'qr_', 'C18'), ('linalg.hpp', 'lu_', 'C17 C06'), ('linalg.hpp', r'\bsolve', 'C19'), ('linalg.hpp', r'\bexpm', 'C20'), ('linalg.hpp', r'\bexp\b', 'C13'),
 ('math.hpp', r'operator(==|!=|<|>|<=|>=)\(|\ball\b|\bany\b', 'C07 C06'), ('math.hpp', r'operator\*=?\(|\bdot\b', 'C05 C04 C06'), ('math.hpp', r'operator', 'C04 C06'),
 ('math.hpp', r'element_wise|\breal\b|\bimag\b|\babs\b|\bsign\b|linear_comb', 'C13 C06'), ('math.hpp', None, 'C12 C06'),
 ('utility.hpp', r'linspace|logspace', 'C09'), ('utility.hpp', 'rand_', 'C10'), ('utility.hpp', r'\bfind|flatnonzero', 'C11'), ('utility.hpp', r'\bbasis', 'C34'),
 ('utility.hpp', r'is_|', 'C14 C08 C06 C07 C12 C03 C02'),
]
def checks_for(f, sig):
    for ff, rx, cs in MAP:
        if ff == f and (rx is None or re.search(rx, sig)):
            return cs.split()
    return ['C02']
SIG = re.compile(r'^\s*(?:\[\[nodiscard\]\] )?(?:inline |static |virtual |explicit |template.*> ?)*[\w:<>,&\* ]*?(operator\s*\S{1,3}|~?\w+)\s*\(.*$')
def mutants_of_line(line):
    out = []
    def sub(rx, rep, tag):
        for m in re.finditer(rx, line):
            new = line[:m.start()] + (rep(m) if callable(rep) else m.expand(rep)) + line[m.end():]
            if new != line:
                out.append((tag, new))
    tmpl = 'template' in line or 'typename' in line or 'using ' in line or '<<' in line and False
    if not tmpl:
        sub(r'(?<=\s)<(?=\s)', '<=', '<:<='); sub(r'(?<=\s)<=(?=\s)', '<', '<=:<')
        sub(r'(?<=\s)>(?=\s)', '>=', '>:>='); sub(r'(?<=\s)>=(?=\s)', '>', '>=:>')
        sub(r'(?<=\s)==(?=\s)', '!=', '==:!='); sub(r'(?<=\s)!=(?=\s)', '==', '!=:==')
        sub(r'(?<=\s)\+(?=\s)', '-', '+:-'); sub(r'(?<=\s)-(?=\s)', '+', '-:+')
        sub(r'(?<=[\w\)\]]\s)\*(?=\s)', '/', '*:/'); sub(r'(?<=\s)/(?=\s)', '*', '/:*')
        sub(r'\+=', '-=', '+=:-='); sub(r'-=', '+=', '-=:+='); sub(r'(?<=[^+])\+=', '=', '+=:=')
        sub(r'&&', '||', '&&:||'); sub(r'\|\|', '&&', '||:&&')
        sub(r'(?<=[\(\s=])!(?=[\w\(])', '', '!:')
        sub(r'(?<![\w.])0(?![\w.])', '1', '0:1'); sub(r'(?<![\w.])1(?![\w.])', '0', '1:0'); sub(r'(?<![\w.])1(?![\w.])', '2', '1:2'); sub(r'(?<![\w.])2(?![\w.])', '3', '2:3')
        sub(r'(?<![\w.])0\.5(?!\w)', '0.25', '.5:.25'); sub(r'(?<![\w.])([124])\.0?(?![\w.])', lambda m: str(int(m.group(1)) + 1) + '.', 'k.:k+1.')
        sub(r'std::min\b', 'std::max', 'min:max'); sub(r'std::max\b', 'std::min', 'max:min')
        sub(r'\brows\(\)', 'cols()', 'rows:cols'); sub(r'\bcols\(\)', 'rows()', 'cols:rows')
        sub(r'\b_rows\b', '_cols', '_rows:_cols'); sub(r'\b_cols\b', '_rows', '_cols:_rows')
        sub(r'\((\w+), (\w+)\)', lambda m: f'({m.group(2)}, {m.group(1)})', 'swap-args')
        sub(r'\btrue\b', 'false', 'true:false'); sub(r'\bfalse\b', 'true', 'false:true')
        sub(r'\b([AB])\(', lambda m: ('B' if m.group(1) == 'A' else 'A') + '(', 'A:B'); sub(r'\b([AB])\[', lambda m: ('B' if m.group(1) == 'A' else 'A') + '[', 'A:B')
        sub(r'\b(std::abs|std::conj|std::sqrt|std::norm)\(', '(', 'drop-fn')
        sub(r'\.(real|imag)\(\)', lambda m: '.' + ('imag' if m.group(1) == 'real' else 'real') + '()', 're:im'); sub(r'std::(real|imag)\(', lambda m: 'std::' + ('imag' if m.group(1) == 'real' else 'real') + '(', 're:im')
        sub(r'\breturn false;', 'return true;', 'ret'); sub(r'\bbreak;', ';', 'break:'); sub(r'\bcontinue;', ';', 'continue:')
        m = re.match(r'^(\s*)(if|while) \((.*)\) \{\s*$', line)
        if m:
            out.append(('if-false', f'{m.group(1)}{m.group(2)} (false && ({m.group(3)})) {{\n'))
            if m.group(2) == 'if': out.append(('if-true', f'{m.group(1)}if (true || ({m.group(3)})) {{\n'))
    if re.match(r'^\s*[\w\*][^{}]*;\s*$', line) and not re.match(r'^\s*(return|using|auto|const|static|typedef|namespace|struct|class|public|inline|T |break|continue|for|#|Matrix<|Vector<|std::(size_t|vector|string|complex|mt19937|remove|random)|malg::|double|int|bool|char|unsigned|View|CofactorView|distribution)', line):
        out.append(('delete', '    ;\n'))
    sub(r'\bdata_type_t\b', 'float', 'type:float'); sub(r'\bdouble\b', 'float', 'double:float') if 'template' not in line else None
    sub(r'\bdata_type_t\(', 'int(', 'cast:int') ; sub(r'static_cast<(T|double)>\(', 'static_cast<int>(', 'cast:int')
    if re.search(r'\bstd::size_t\b', line): sub(r'\bstd::size_t\b', 'std::uint8_t', 'size_t:u8')
    return out
def all_mutants(files):
    res = []
    for f in files:
        path = os.path.join(INC, f)
        lines = open(path).readlines()
        sig = ''
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith(('//', '#', '/*', '*')) or not s:
                continue
            m = SIG.match(l)
            if m and not s.endswith(';') and not re.match(r'\s*(if|for|while|switch|else|return|throw|static auto|assert)\b', l) and len(l) - len(l.lstrip()) <= 4:
                sig = l.strip()
            code = l.split('//')[0].rstrip() + '\n'
            if 'throw std' in code or 'std::cerr' in code:
                continue
            for tag, new in mutants_of_line(code):
                res.append(dict(file=f, line=i + 1, tag=tag, old=l.rstrip('\n'), new=new.rstrip('\n'), sig=sig[:120]))
    return res
def evaluate(m, wid):
    work = tempfile.mkdtemp(prefix=f'vfmut{wid}-', dir='/tmp/mut')
    try:
        tree = os.path.join(work, 'repo')
        shutil.copytree('/repo/include', os.path.join(tree, 'include'))
        p = os.path.join(tree, 'include/malg', m['file'])
        lines = open(p).readlines()
        lines[m['line'] - 1] = m['new'] + '\n'
        open(p, 'w').writelines(lines)
        inc = {'row': os.path.join(tree, 'include')}
        built = False
        for prop in checks_for(os.path.basename(m['file']), m['sig']):
            cfg = dict(PROPS[prop], case_timeout=12)
            variant = 'asan-row' if 'asan-row' in cfg['quick'] else 'tsan-row'
            try:
                exe, err, cmd = run.compile_variant(prop, cfg, variant, inc, work)
            except Exception as e:
                return dict(m, status='compiler-died')
            if not exe:
                e = re.search(r'error:[^\n]*', err)
                # The harnesses use every function: what they cannot build the tests may not either.
                return dict(m, status='nocompile', by=prop, key=(e.group(0) if e else '')[:120])
            R = run.Runner(prop, cfg, 'quick', 1, work)
            R.shard(variant, exe, 0, cfg['quick'][variant])
            if R.viol:
                return dict(m, status='killed', by=prop, key=sorted(R.viol)[0][:120])
            if R.problems:
                return dict(m, status='problem', by=prop, key=R.problems[0][-150:])
            os.unlink(exe)
        return dict(m, status='SURVIVED', checks=checks_for(os.path.basename(m['file']), m['sig']))
    finally:
        shutil.rmtree(work, ignore_errors=True)
if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('--files'); ap.add_argument('--workers', type=int, default=8); ap.add_argument('--sample', type=int, default=0); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    os.makedirs('/tmp/mut', exist_ok=True)
    run.ENV['ASAN_OPTIONS'] += ':hard_rss_limit_mb=3000'
    run.JOBS = 11  # visits all the scenarios, see the rotation in vf.hpp
    files = a.files.split(',') if a.files else ['vector.hpp', 'matrix.hpp', 'view.hpp', 'feq.hpp', 'complex_math.hpp', 'math.hpp', 'linalg.hpp', 'utility.hpp', 'io.hpp', 'eigen.hpp', 'control/control.hpp']
    ms = all_mutants(files)
    if a.list:
        from collections import Counter
        print(len(ms), Counter(m['file'] for m in ms)); print(Counter(m['tag'] for m in ms)); sys.exit()
    done = set()
    if os.path.exists(a.out):
        done = {(d['file'], d['line'], d['new']) for d in map(json.loads, open(a.out))}
    ms = [m for m in ms if (m['file'], m['line'], m['new']) not in done]
    random.Random(a.seed).shuffle(ms)
    if a.sample: ms = ms[:a.sample]
    q = queue.Queue(); [q.put(m) for m in ms]
    lock = threading.Lock()
    def worker(w):
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            try: r = evaluate(m, w)
            except Exception as e: r = dict(m, status='error', key=repr(e)[:200])
            with lock, open(a.out, 'a') as f: f.write(json.dumps(r) + '\n')
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(a.workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
