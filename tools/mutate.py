#!/usr/bin/env python3
"""Measures how sensitive the checks are: applies small changes to /repo's sources, one at a time, in
scratch copies, and lists those no check notices (many change no behaviour; the list is for reading).

  mutate.py FILES... [--out FILE] [--workers N] [--scale S] [--only REGEX]
"""
import argparse, ast, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def span(a, b): return ['C%02d' % i for i in range(a, b + 1)]
CM, HW, CI, CRH, TR, TL, JL = span(1, 11), span(14, 17), ['C12', 'C13'], ['C18', 'C19'], span(20, 24), span(25, 27), span(28, 33)
def props(f):
    if f.startswith('controller_manager_msgs'): return span(35, 41) + ['C42', 'C43']
    if f.startswith('rqt'): return ['C42', 'C43']
    if f.startswith('controller_manager/') and not f.endswith(('.h', '.cpp')): return span(35, 41) + ['C42', 'C43']
    if f.startswith('controller_manager/'): return ['C02', 'C01', 'C04', 'C06', 'C07', 'C03', 'C05', 'C10', 'C11', 'C08', 'C09']
    if f.startswith('combined'): return CRH
    if f.startswith('joint_limits'): return JL
    if f.startswith('controller_interface'): return CI + ['C02', 'C05', 'C04']
    if f.startswith('transmission_interface/src') or 'loader' in f or 'parser' in f or 'provider' in f or 'robot_transmissions' in f: return TL
    if f.startswith('transmission_interface'): return TR + TL
    if f.startswith('hardware_interface'): return HW + CI + CRH + ['C27', 'C24', 'C31'] + ['C02', 'C01']
    raise SystemExit(f)

def strip_comments(t):
    return re.sub(r'//[^\n]*|/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), t, flags=re.S)

SUBS = [(r'==', '!='), (r'!=', '=='), (r'<=', '<'), (r'>=', '>'), (r'(?<=[\w\)\] ])<(?=[\s\w\(-])(?!<)', '<='), (r'(?<=[\w\)\] ])>(?=[\s\w\(-])(?!>)', '>='), (r'&&', '||'), (r'\|\|', '&&'),
        (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r'(?<=[\w\)\]] )\+(?= )', '-'), (r'(?<=[\w\)\]] )-(?= )', '+'), (r'(?<=[\w\)\]] )\*(?= )', '/'), (r'(?<=[\w\)\]] )/(?= )', '*'),
        (r'(?<=[\w\)\]])\s*\+=', ' -='), (r'(?<=[\w\)\]])\s*-=', ' +='), (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'std::min', 'std::max'), (r'std::max', 'std::min'), (r'\bcontinue\b', 'break'), (r'\bbreak\b', ';'), (r'!(?=[\w(])', ''), (r'\bnot ', ''), (r'\band\b', 'or'), (r'\bor\b', 'and'),
        (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\.0\b', '2.0'), (r'\b0\.0\b', '1.0'), (r'pos', 'vel'), (r'vel_', 'eff_'), (r'\bjoint(?=_)', 'actuator'), (r'actuator(?=_)', 'joint'), (r'actuatorTo', 'jointTo'), (r'Position', 'Velocity'), (r'Velocity', 'Effort'), (r'\bmin_', 'max_'), (r'\bmax_', 'min_'), (r'\bstart_', 'stop_'), (r'\bstop_', 'start_'), (r' in ', ' not in ')]

def mutants(f, text):
    out = []; c = strip_comments(text) if f.endswith(('.h', '.cpp')) else re.sub(r'(?m)#[^\n]*', lambda m: ' ' * len(m.group(0)), text)
    lines = c.split('\n'); start = 0; py = not f.endswith(('.h', '.cpp'))
    for i, l in enumerate(lines):
        off = start; start += len(l) + 1
        s = l.strip()
        if not s or s.startswith(('#', 'using', 'namespace', 'template', 'typedef', 'public', 'private', 'protected', 'import', 'from', 'ROS_DEBUG', 'ROS_INFO', 'ROS_WARN', 'ROS_ERROR', 'rospy.log', 'print')): continue
        q = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + '_' * (len(m.group(0)) - 2) + '"', l) if not py else re.sub(r"'[^']*'|\"[^\"]*\"", lambda m: '_' * len(m.group(0)), l)
        for pat, rep in SUBS:
            for m in re.finditer(pat, q):
                if '#include' in q or (rep in ('<=', '>=') and re.search(r'std::\w+<|vector<|template|_cast<|shared_ptr|map<|->', q[max(0, m.start() - 30):m.end() + 10])): continue
                out.append((i + 1, text[:off + m.start()] + rep + text[off + m.end():], '%s -> %s' % (m.group(0), rep)))
        m = re.search(r'\b(else )?if\s*\((.*)\)\s*(\{|\w.*;)?\s*$', q)
        if m and not py:
            out.append((i + 1, text[:off + m.start(2)] + '!(' + text[off + m.start(2):off + m.end(2)] + ')' + text[off + m.end(2):], 'negate'))
        if not py and re.match(r'^[\w\.\->\[\]\(\)\*:&]+.*;\s*$', s) and not re.match(r'^(return|const|class|struct|virtual|static|inline|double|int|bool|size_t|std::\w+<|friend|enum)', s) and not s.startswith('}'):
            out.append((i + 1, text[:off] + ';' + text[off + len(l):], 'delete'))
        if not py and re.match(r'^return (?!false|true).*;', s) and 'bool' in '\n'.join(lines[max(0, i - 12):i]): out.append((i + 1, text[:off] + 'return false;' + text[off + len(l):], 'return false'))
        if py and re.match(r'^\s*[\w\.\[\]]+(\(.*\)| [+-]?= .*)$', l) and not l.rstrip().endswith(('(', ',', '\\')): out.append((i + 1, text[:off + len(l) - len(l.lstrip())] + 'pass' + text[off + len(l):], 'delete'))
        if py and re.match(r'^\s*return .+$', l) and not l.rstrip().endswith(('(', ',', '\\', '[', '{')): out.append((i + 1, text[:off + len(l) - len(l.lstrip())] + 'return None' + text[off + len(l):], 'return None'))
        if py and re.match(r'^\s*(el)?if .*:', l): m = re.search(r'if (.*):', l); out.append((i + 1, text[:off + m.start(1)] + 'not (' + text[off + m.start(1):off + m.end(1)] + ')' + text[off + m.end(1):], 'negate'))
        if py and re.match(r'^\s*except [\w\.]+', l): out.append((i + 1, text[:off] + re.sub(r'except [\w\.\(\), ]+( as \w+)?:', 'except ZeroDivisionError:', text[off:off + len(l)]) + text[off + len(l):], 'except'))
    seen, res = set(), []
    for ln, t, d in out:
        if t != text and t not in seen: seen.add(t); res.append((ln, t, d))
    return res

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('files', nargs='+'); ap.add_argument('--out', default='/tmp/mutants.json'); ap.add_argument('--workers', type=int, default=4); ap.add_argument('--jobs', default='2')
    ap.add_argument('--scale', default='0.5'); ap.add_argument('--only'); ap.add_argument('--list', action='store_true'); a = ap.parse_args()
    jobs = [(f, *m) for f in a.files for m in mutants(f, open('/repo/' + f).read())]
    if a.only: jobs = [j for j in jobs if re.search(a.only, str(j[1]) + ' ' + j[3])]
    print(len(jobs), 'mutants'); sys.stdout.flush()
    if a.list: return
    base = tempfile.mkdtemp(prefix='mut.', dir='/tmp'); free = list(range(a.workers)); lock = threading.Lock(); res = []
    for w in free: subprocess.run('mkdir -p %s/w%d && cd /repo && git archive HEAD | tar x -C %s/w%d' % (base, w, base, w), shell=True, check=True)
    def run(j):
        f, ln, text, d = j
        with lock: w = free.pop()
        repo = '%s/w%d' % (base, w); orig = open('/repo/' + f).read(); r = None
        try:
            open(repo + '/' + f, 'w').write(text)
            e = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=repo + '.build', VERIF_OUT=repo + '.out', VERIF_FAST='1', VERIF_JOBS=a.jobs)
            status, built = 'SURVIVED', {}
            for p in props(f):
                try: r = subprocess.run([sys.executable, V + '/check.py', p, '--scale', a.scale, '--tier', 'quick'], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=400)
                except subprocess.TimeoutExpired: status = 'timeout ' + p; break
                if r.returncode == 2 and 'cannot' in r.stderr: status = 'nocompile'; break
                if r.returncode == 1: status = 'killed ' + p; break
                if r.returncode: status = 'error %d %s: %s' % (r.returncode, p, r.stderr[-300:] + r.stdout[-300:]); break
            src = orig.split('\n')[ln - 1].strip(); new = text.split('\n')[ln - 1].strip()
            with lock:
                res.append(dict(file=f, line=ln, status=status, src=src, new=new))
                if not status.startswith(('killed', 'nocompile')): print('%s %s:%d\n   %s\n   %s' % (status, f, ln, src, new)); sys.stdout.flush()
        finally:
            open(repo + '/' + f, 'w').write(orig); shutil.rmtree(repo + '.build', ignore_errors=True)
            with lock: free.append(w)
    try:
        with cf.ThreadPoolExecutor(a.workers) as ex: list(ex.map(run, jobs))
    finally:
        shutil.rmtree(base, ignore_errors=True); json.dump(sorted(res, key=lambda r: (r['file'], r['line'])), open(a.out, 'w'), indent=0)
    from collections import Counter; print(Counter(r['status'].split()[0] for r in res), Counter(r['status'] for r in res if r['status'].startswith('killed')))

if __name__ == '__main__': main()
