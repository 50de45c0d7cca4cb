#!/usr/bin/env python3
"""Build and run the check of one property:  check.py ID [--tier quick|thorough] [--replay FILE]

The harness of the property is rebuilt from /repo's working tree (builds are cached by the
content of everything that goes in), then run; it prints a VIOLATION line and exits 1 when the
property is broken, and writes evidence/<ID>.json.
"""
import argparse, concurrent.futures as cf, glob, hashlib, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
OUT = os.environ.get('VERIF_OUT', V)     # where evidence and replays go
JOBS = int(os.environ.get('VERIF_JOBS', 0)) or min(8, os.cpu_count() or 4)
sys.path.insert(0, os.path.join(V, 'tools'))
import genmsgs
from harnesses import HARNESSES, PYTHON, THOROUGH_LIMIT, QUICK_LIMIT, QUICK_SCALE, THOROUGH_SCALE

PKGS = ['hardware_interface', 'controller_interface', 'controller_manager', 'combined_robot_hw', 'transmission_interface', 'joint_limits_interface']
CXX = 'g++'
FLAGS = ['-std=gnu++17', '-O1', '-g1', '-pipe', '-ftrivial-auto-var-init=pattern', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-w',
         '-include', V + '/shim/prelude.h']

def files_under(*dirs):
    out = []
    for d in dirs:
        for r, _, fs in os.walk(d):
            out += [os.path.join(r, f) for f in fs]
    return sorted(out)

def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def build(name, mode='asan'):
    h = HARNESSES[name]
    inputs = files_under(V + '/shim', V + '/harness', REPO + '/controller_manager_msgs/msg', REPO + '/controller_manager_msgs/srv',
                         *[REPO + '/' + p + '/include' for p in PKGS])
    srcs = [os.path.join(V, 'harness', s) for s in h['sources']] + [os.path.join(V, 'harness', 'pbt.cpp')] + [os.path.join(V, 'harness', s) for s in h.get('user', [])] + [f for s in h.get('repo', []) for f in sorted(glob.glob(os.path.join(REPO, s)))]
    inputs += files_under(*[os.path.dirname(os.path.join(REPO, s)) for s in h.get('repo', [])])
    cxx, flags = h.get('cxx', CXX), list(FLAGS)
    if cxx != CXX: flags.remove('-pipe')
    if mode == 'fuzz':
        cxx = 'clang++'; flags = [f for f in FLAGS if f != '-pipe'] + ['-fsanitize=fuzzer', '-DPBT_LIBFUZZER']
    if mode == 'asan' and 'VERIF_FAST' in os.environ: flags = [f for f in FLAGS if 'sanitize' not in f and f not in ('-O1', '-g1')] + ['-O0']   # for tools/mutate.py only
    repo_flags, link = h.get('repo_flags', []), []
    if h.get('tsan'):   # instead of the other sanitizers, and for the code under test alone
        flags = [f for f in flags if 'sanitize' not in f]; repo_flags = link = ['-fsanitize=thread']
    flags += h.get('flags', [])
    own = len(h['sources']) + 1     # the rest of srcs is the repository's
    key = digest(inputs, repr((cxx, flags, repo_flags, srcs)))
    exe = os.path.join(BUILD, '%s-%s-%s' % (name, mode, key))
    if os.path.exists(exe): return exe
    os.makedirs(BUILD, exist_ok=True)
    gen = os.path.join(BUILD, 'gen-' + key); genmsgs.generate(REPO + '/controller_manager_msgs', gen)
    inc = ['-I' + V + '/shim/include', '-I' + gen] + ['-I%s/%s/include' % (REPO, p) for p in PKGS] + ['-I' + V + '/harness']
    tmp = '%s.%d' % (exe, os.getpid())
    def comp(i_s):
        i, s = i_s; o = '%s.%d.o' % (tmp, i)
        r = subprocess.run([cxx] + flags + (repo_flags if i >= own else []) + inc + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return o, s, r
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(comp, enumerate(srcs)))
        bad = [(s, r) for _, s, r in res if r.returncode]
        if bad:
            for s, r in bad: print('cannot compile %s\n%s' % (s, r.stdout[-4000:]), file=sys.stderr)
            sys.exit(2)
        r = subprocess.run([cxx] + flags + link + [o for o, _, _ in (reversed(res) if link else res)] + ['-o', tmp] + h.get('libs', []) + ['-ldl', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: print('cannot link %s\n%s' % (name, r.stdout[-4000:]), file=sys.stderr); sys.exit(2)
        os.rename(tmp, exe)
    finally:
        for i in range(len(srcs)):
            if os.path.exists('%s.%d.o' % (tmp, i)): os.unlink('%s.%d.o' % (tmp, i))
        subprocess.run(['rm', '-rf', gen])
    return exe

def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:die_after_fork=0:history_size=4'
    e['VERIF_REPO'] = REPO
    e['VERIF_KNOWN'] = V + '/known_findings.txt'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    return e

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay')
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1')); ap.add_argument('--build-only', action='store_true')
    ap.add_argument('--scale', default='1')
    a = ap.parse_args()
    os.makedirs(OUT + '/evidence', exist_ok=True); os.makedirs(OUT + '/replays', exist_ok=True)
    evid = os.path.join(OUT, 'evidence', a.id + '.json')
    limit = str(THOROUGH_LIMIT if a.tier == 'thorough' else QUICK_LIMIT)
    if 'VERIF_FAST' not in os.environ: a.scale = str(float(a.scale) * (QUICK_SCALE[a.id] if a.tier == 'quick' else THOROUGH_SCALE.get(a.id, 1)))
    if a.id in PYTHON:
        if a.build_only: return 0
        cmd = ['/opt/veriftools/pyvenv/bin/python3', '-B', os.path.join(V, 'py', PYTHON[a.id]), a.id, '--tier', a.tier, '--seed', a.seed, '--evidence', evid, '--replay-dir', OUT + '/replays', '--time-limit', limit, '--scale', a.scale]
        if 'VERIF_JOBS' in os.environ: cmd += ['--workers', str(JOBS)]
        if a.replay: cmd += ['--replay', a.replay]
        return subprocess.run(cmd, env=env()).returncode
    name = next(n for n, h in HARNESSES.items() if a.id in h['properties'])
    exe = build(name)
    if a.build_only: return 0
    if a.replay: return subprocess.run([exe, '--replay', a.replay], env=env()).returncode
    cmd = [exe, '--property', a.id, '--tier', a.tier, '--seed', a.seed, '--evidence', evid, '--replay-dir', OUT + '/replays', '--time-limit', limit, '--workers', str(JOBS), '--scale', a.scale]
    rc = subprocess.run(cmd, env=env()).returncode
    if rc == 0 and a.tier == 'thorough':
        import fuzz
        for part in HARNESSES[name].get('fuzz', {}).get(a.id, []):
            rc = fuzz.campaign(a.id, part, build(name, 'fuzz'), exe, a.seed, evid, OUT, env())
            if rc: break
    return rc if rc in (0, 1) else 2

if __name__ == '__main__':
    sys.exit(main())
