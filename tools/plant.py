#!/usr/bin/env python3
"""Validates planted bugs and stores them in /verif/seeded.

  plant.py SPEC.py [only-id ...]     SPEC.py defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo='C++ body')]
  plant.py --recheck [id ...]        re-validates /verif/seeded against /repo's HEAD and runs the checks

A bug is kept when its patch applies, every header still compiles, the existing tests
pass with it, and its demonstration fails with it and passes without it.  All the work
is done in a scratch copy of /repo, removed afterwards.
"""
import sys, os, json, subprocess, shutil, tempfile, glob, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = '/repo'
PRE = '''// Exits with 0 when the property holds.
#include "malg/vector.hpp"
#include "malg/matrix.hpp"
#include "malg/view.hpp"
#include "malg/math.hpp"
#include "malg/utility.hpp"
#include "malg/linalg.hpp"
#include "malg/feq.hpp"
#include "malg/io.hpp"
#include "malg/eigen.hpp"
#include "malg/complex_math.hpp"
#include "malg/control/control.hpp"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <thread>
#include <unistd.h>
using namespace malg;
using cd = std::complex<double>;
using cf = std::complex<float>;
#define NEED(c) do { if (!(c)) { std::fprintf(stderr, "broken: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
'''
DEMO = '''#!/bin/bash
# Exit 0 when the property holds on the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
FLAGS
g++ -std=c++17 $flags -I include "$here/demo.cpp" -o "$work/demo" -pthread || exit 1
cd "$work" && timeout 60 ./demo
'''


def sh(cmd, cwd=None, timeout=600):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def tests_pass(d, work):
    os.makedirs(work, exist_ok=True)
    for t in sorted(glob.glob(d + '/tests/*.cpp')):
        exe = os.path.join(work, os.path.basename(t)[:-4])
        rc, o = sh(f'g++ -std=c++17 -g0 -I{d}/include {t} -o {exe}')
        if rc: return False, os.path.basename(t) + ' does not compile: ' + o[:600]
        rc, o = sh(f'timeout 60 {exe}', cwd=work)
        if rc: return False, os.path.basename(t) + ' fails: ' + o[-300:]
    for h in glob.glob(d + '/include/**/*.hpp', recursive=True):
        rc, o = sh(f'echo \'#include "{h}"\' | g++ -std=c++17 -I{d}/include -I{d} -fsyntax-only -x c++ -')
        if rc: return False, 'header: ' + o[:400]
    return True, ''


BASE = json.load(open('/verif/tools/base.json'))['commit']


def not_original(patch):
    """Removed lines that do not belong to the original repository."""
    bad, n, f, ln = [], 0, None, 0
    for l in open(patch):
        if l.startswith('--- a/'): f = l[6:].strip(); blame = sh(f'git -C {REPO} blame -s --abbrev=40 {BASE}.. -- {f}')[1].splitlines()
        elif l.startswith('@@'): ln = int(l.split('-')[1].split(',')[0].split(' ')[0])
        elif l.startswith('+++') or l.startswith('diff') or l.startswith('index'): pass
        elif l.startswith('-'):
            n += 1
            if not blame[ln - 1].startswith('^'): bad.append(l.strip())
            ln += 1
        elif l.startswith(' '): ln += 1
    return bad if n else ['no removed line']


def validate(bug_dir, meta, run_check=True):
    work = tempfile.mkdtemp(prefix='plant-')
    try:
        d = work + '/repo'
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('_build', '.git'))
        sh('git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', cwd=d)
        # The patch as it stands against the current tree (the lines move).
        rc, o = sh(f'git apply {bug_dir}/patch.diff', cwd=d)
        if rc: return dict(ok=False, why='patch does not apply: ' + o[-500:])
        now = sh('git diff', cwd=d)[1]
        if now != open(bug_dir + '/patch.diff').read(): open(bug_dir + '/patch.diff', 'w').write(now)
        sh('git checkout -q -- .', cwd=d)
        bad = not_original(bug_dir + '/patch.diff')
        if bad: return dict(ok=False, why='changes lines of ours: ' + '; '.join(bad)[:400])
        rc, o = sh(f'bash {bug_dir}/demo.sh', cwd=d)
        if rc: return dict(ok=False, why='demo fails on the unchanged tree: ' + o[-800:])
        rc, o = sh(f'git apply {bug_dir}/patch.diff', cwd=d)
        if rc: return dict(ok=False, why='patch does not apply: ' + o[-500:])
        rc, o = sh(f'bash {bug_dir}/demo.sh', cwd=d)
        if rc == 0: return dict(ok=False, why='demo passes with the patch')
        demo_out = o[-200:]
        ok, why = tests_pass(d, work + '/t')
        if not ok: return dict(ok=False, why='existing tests: ' + why)
        res = dict(ok=True, demo=demo_out)
        if run_check:
            rc, o = sh(f'python3 {VERIF}/run.py {meta["property"]} --repo {d} --evidence {work}/ev', cwd=VERIF, timeout=1000)
            vio = [l for l in o.splitlines() if l.startswith('VIOLATION')]
            res['caught'] = rc == 1 and bool(vio)
            res['out'] = '\n'.join(l[:300] for l in o.splitlines()[:6])
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def write_bug(b, out):
    os.makedirs(out, exist_ok=True)
    work = tempfile.mkdtemp(prefix='plantw-')
    try:
        d = work + '/repo'
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('_build', '.git'))
        sh('git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', cwd=d)
        for e in b['edits']:
            f, old, new = e[0], e[-2], e[-1]
            p = d + '/include/malg/' + f
            s = open(p).read()
            at = 0
            if len(e) == 4:  # an anchor: the first match after it
                if s.count(e[1]) != 1: return f'{b["id"]}: {f}: {s.count(e[1])} matches of anchor {e[1][:70]!r}'
                at = s.index(e[1])
                if s.find(old, at) < 0: return f'{b["id"]}: {f}: nothing after the anchor like {old[:70]!r}'
            elif s.count(old) != 1: return f'{b["id"]}: {f}: {s.count(old)} matches of {old[:70]!r}'
            open(p, 'w').write(s[:at] + s[at:].replace(old, new, 1))
        rc, o = sh('git diff', cwd=d)
        open(out + '/patch.diff', 'w').write(o)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # Some changed line must come from the original repository.
    fl = b.get('flags', '')
    open(out + '/demo.sh', 'w').write(DEMO.replace('FLAGS', f'flags="{fl}"' + ('\n' + b['sh'] if b.get('sh') else '')))
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo.cpp', 'w').write(PRE + b.get('pre', '') + 'int main()\n{\n' + b['demo'].strip('\n') + '\n    return 0;\n}\n')
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
    return None


def main():
    a = sys.argv[1:]
    jobs = []
    if a[0] == '--recheck':
        ids = a[1:] or sorted(os.listdir(VERIF + '/seeded'))
        for i in ids: jobs.append((i, VERIF + '/seeded/' + i))
    else:
        ns = {}
        exec(open(a[0]).read(), ns)
        stage = tempfile.mkdtemp(prefix='stage-')
        for b in ns['BUGS']:
            if a[1:] and b['id'] not in a[1:]: continue
            e = write_bug(b, stage + '/' + b['id'])
            if e: print('SPEC', e); continue
            jobs.append((b['id'], stage + '/' + b['id']))
    def one(j):
        i, d = j
        return i, d, validate(d, json.load(open(d + '/meta.json')))
    with cf.ThreadPoolExecutor(3) as ex:
        for i, d, r in ex.map(one, jobs):
            if not r['ok']: print(f'{i}: REJECTED {r["why"]}', flush=True); continue
            print(f'{i}: {"caught" if r["caught"] else "MISSED"} {json.load(open(d + "/meta.json"))["property"]} | {r["demo"].strip()[:150]}', flush=True)
            if not r['caught']: print('   ' + r['out'].replace('\n', '\n   '), flush=True)
            t = VERIF + '/seeded/' + i
            if d != t:
                shutil.rmtree(t, ignore_errors=True)
                shutil.copytree(d, t)


if __name__ == '__main__':
    main()
