"""Coverage-guided campaigns for the thorough tier: libFuzzer drives the draws of one part of a check."""
import glob, json, os, re, shutil, subprocess, sys, tempfile

def decode(b):
    """the encoding of draws in pbt.cpp"""
    v, i = [], 0
    while i < len(b):
        x = b[i]; i += 1
        if x < 248: v.append(x)
        else: k = x - 247; v.append(int.from_bytes(b[i:i + k], 'big')); i += k
    return v

def campaign(pid, part, fuzz_exe, exe, seed, evid, V, env, seconds=75, jobs=8):
    tmp = tempfile.mkdtemp(prefix='fuzz.')
    try:
        seeds = os.path.join(tmp, 'seeds'); os.mkdir(seeds)
        subprocess.run([exe, '--property', pid, '--part', part, '--corpus', seeds, '--seed', str(seed)], env=env, check=True)
        ps = []
        for j in range(min(jobs, os.cpu_count() or 4)):
            d = os.path.join(tmp, 'w%d' % j); os.mkdir(d); os.mkdir(d + '/corpus'); os.mkdir(d + '/art')
            e = dict(env, PBT_FUZZ_PART='%s.%s' % (pid, part), PBT_FUZZ_STATS=d + '/stats')
            cmd = [fuzz_exe, '-max_total_time=%d' % seconds, '-seed=%d' % (int(seed) * 64 + j + 1), '-max_len=4096', '-timeout=60', '-rss_limit_mb=3000', '-print_final_stats=1', '-artifact_prefix=' + d + '/art/', d + '/corpus'] + ([seeds] if j % 4 else [])
            ps.append((d, subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=open(d + '/log', 'w'))))
        runs = nt = cov = 0; bad = None
        for d, p in ps:
            p.wait(); log = open(d + '/log', errors='replace').read()
            if os.path.exists(d + '/stats'): x = json.load(open(d + '/stats')); runs += x['runs']; nt += x['nontrivial']
            c = re.findall(r'cov: (\d+)', log); cov = max([cov] + [int(y) for y in c[-1:]])
            arts = [a for a in glob.glob(d + '/art/*') if not os.path.basename(a).startswith('slow')]
            if arts and bad is None: bad = (arts[0], log)
        ev = json.load(open(evid))
        ev['coverage'].setdefault('coverage_guided', {})[part] = dict(runs=runs, nontrivial=nt, edges=cov, seconds=seconds)
        ev['coverage']['evaluations'] += runs; ev['coverage']['distinct_nontrivial'] += nt
        rc = 0
        if bad:
            rep = os.path.join(V, 'replays', '%s-%s-fuzz.replay' % (pid, part)); v = decode(open(bad[0], 'rb').read())
            open(rep, 'w').write('property %s\npart %s\nmode draws\ndraws %d\n%s\n' % (pid, part, len(v), ' '.join(map(str, v))))
            r = subprocess.run([exe, '--shrink', rep], env=env, stdout=subprocess.PIPE, text=True)
            sys.stdout.write(r.stdout)
            if r.returncode == 0: print('(found by the fuzzer\'s build only)\n' + '\n'.join(bad[1].splitlines()[-60:]))
            print('VIOLATION property=%s replay=%s' % (pid, rep)); ev['violations'] = ev.get('violations', 0) + 1; rc = 1
        json.dump(ev, open(evid, 'w'), indent=1)
        print('%s %s: coverage-guided, %d runs, %d distinct non-trivial, %d edges' % (pid, part, runs, nt, cov)); sys.stdout.flush()
        return rc
    finally: shutil.rmtree(tmp, ignore_errors=True)
