"""Property-based testing of the Python parts with Hypothesis.

A part is a strategy for a case (plain JSON data) and a check of one case. Every random choice is
made by Hypothesis; the last case it reports after shrinking is the replay file. Cases are spread
over worker processes with seeds derived from the given one.
"""
import argparse, json, multiprocessing, os, sys, tempfile, time, traceback
from collections import Counter
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

class Violation(AssertionError):
    pass

def fail(msg): raise Violation(msg)
def check(cond, msg):
    if not cond: fail(msg)

class Ctx:
    """Given to the check of a case."""
    def __init__(self, prop): self.prop, self.is_nontrivial, self.labels, self.notes = prop, False, [], []
    def nontrivial(self): self.is_nontrivial = True
    def label(self, l): self.labels.append(l)
    def note(self, s): self.notes.append(str(s))
    def known(self, key, what):
        if key not in known_findings(self.prop): fail(what)
        self.labels.append('KNOWN ' + key)

PARTS = []
class Part:
    def __init__(self, prop, name, rule, strategy, fn, quick, thorough): self.__dict__.update(locals())

def part(prop, name, rule, strategy, quick, thorough):
    def deco(fn): PARTS.append(Part(prop, name, rule, strategy, fn, quick, thorough)); return fn
    return deco

_known = None
def known_findings(prop):
    global _known
    if _known is None:
        _known = {}
        p = os.environ.get('VERIF_KNOWN', '')
        for l in open(p) if os.path.exists(p) else []:
            w = l.split(None, 3)
            if len(w) >= 3 and w[0] == 'known:' and w[2].startswith('key='): _known[(w[1][len('property='):], w[2][4:])] = w[3].strip() if len(w) > 3 else ''
    return {k: t for (p, k), t in _known.items() if p == prop}

def run_case(p, case):
    """-> (ctx, None or message)"""
    c = Ctx(p.prop)
    try: p.fn(c, json.loads(json.dumps(case)))
    except Violation as e: return c, str(e)
    except hypothesis.errors.UnsatisfiedAssumption: raise
    except (KeyboardInterrupt, MemoryError): raise
    except BaseException: return c, 'unexpected exception\n' + ''.join(traceback.format_exc()[-3000:])
    return c, None

def worker(p, seed, count, deadline, out):
    st = dict(n=0, distinct=set(), labels=Counter(), samples=[], fail=None, truncated=False)
    @hypothesis.seed(seed)
    @settings(max_examples=count, database=None, deadline=None, derandomize=False, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, verbosity=hypothesis.Verbosity.quiet, print_blob=False)
    @given(p.strategy)
    def run(case):
        if time.time() > deadline and st['fail'] is None: st['truncated'] = True; return
        c, msg = run_case(p, case)
        if st['fail'] is None: st['n'] += 1
        if msg is not None: st['fail'] = (case, msg, c.notes); raise Violation(msg)
        if st['fail'] is not None: return
        for l in c.labels: st['labels'][l] += 1
        if c.is_nontrivial:
            key = json.dumps(case, sort_keys=True)
            if hash(key) not in st['distinct']:
                st['distinct'].add(hash(key))
                if len(st['samples']) < 2: st['samples'].append(key[:1500])
    try: run()
    except Violation: pass
    except BaseException:
        if st['fail'] is None: st['error'] = traceback.format_exc()
    with open(out, 'w') as f:
        json.dump(dict(n=st['n'], distinct=len(st['distinct']), hashes=sorted(st['distinct']), labels=st['labels'], samples=st['samples'], fail=st['fail'], truncated=st['truncated'], error=st.get('error')), f)

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('id'); ap.add_argument('--tier', default='quick'); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--evidence'); ap.add_argument('--replay-dir', default='.'); ap.add_argument('--replay'); ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument('--scale', type=float, default=1); ap.add_argument('--time-limit', type=float, default=150)
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay)); p = next(p for p in PARTS if p.prop == r['property'] and p.name == r['part'])
        c, msg = run_case(p, r['case'])
        for n in c.notes: print(n)
        if msg is None: print('the property held'); return 0
        print(msg); print('VIOLATION property=%s replay=%s' % (a.id, a.replay)); return 1
    t0 = time.time(); parts = [p for p in PARTS if p.prop == a.id]; assert parts, a.id
    tot = dict(evaluations=0, distinct_nontrivial=0, rule=' || '.join('%s: %s' % (p.name, p.rule) for p in parts), discarded=0, stopped_by_time_limit=False, cases_per_part={}, labels=Counter(), samples=[])
    viol = 0
    for i, p in enumerate(parts):
        total = max(1, int((p.thorough if a.tier == 'thorough' else p.quick) * a.scale))
        deadline = time.time() + (t0 + a.time_limit - time.time()) / (len(parts) - i)
        W = max(1, min(a.workers, total)); res = []
        with tempfile.TemporaryDirectory() as tmp:
            ps = []
            for w in range(W):
                n = total // W + (1 if w < total % W else 0); out = os.path.join(tmp, str(w))
                pr = multiprocessing.get_context('fork').Process(target=worker, args=(p, a.seed * 100003 + i * 1009 + w, n, deadline, out)); pr.start(); ps.append((pr, out))
            for pr, out in ps:
                pr.join()
                if not os.path.exists(out): print('worker died', file=sys.stderr); return 2
                res.append(json.load(open(out)))
        err = [r['error'] for r in res if r.get('error')]
        if err: print(err[0], file=sys.stderr); return 2
        tot['evaluations'] += sum(r['n'] for r in res); tot['distinct_nontrivial'] += len(set().union(*[set(r['hashes']) for r in res])); tot['cases_per_part'][p.name] = sum(r['n'] for r in res)
        tot['stopped_by_time_limit'] |= any(r['truncated'] for r in res)
        for r in res: tot['labels'].update(r['labels'])
        tot['samples'] += ['%s: %s' % (p.name, s) for r in res for s in r['samples']][:2]
        bad = [r['fail'] for r in res if r['fail']]
        if bad:
            viol += 1; case, msg, notes = min(bad, key=lambda b: len(json.dumps(b[0])))
            path = os.path.join(a.replay_dir, '%s-%s.replay' % (a.id, p.name))
            json.dump(dict(property=a.id, part=p.name, case=case, message=msg), open(path, 'w'), indent=1)
            for n in notes: print(n)
            print('case: ' + json.dumps(case)); print(msg); print('VIOLATION property=%s replay=%s' % (a.id, path))
    seen = {l[6:] for l in tot['labels'] if l.startswith('KNOWN ')}
    for k, t in sorted(known_findings(a.id).items()):
        if k in seen: print('KNOWN-FINDING: property=%s %s' % (a.id, t))
    tot['labels'] = dict(tot['labels'])
    ev = dict(property=a.id, tier=a.tier, seed=a.seed, level='exploration', coverage=tot, violations=viol, wall_s=round(time.time() - t0, 3))
    if a.evidence: json.dump(ev, open(a.evidence, 'w'), indent=1)
    print('%s: %d cases, %d distinct non-trivial, %.1f s' % (a.id, tot['evaluations'], tot['distinct_nontrivial'], time.time() - t0))
    for l, n in sorted(tot['labels'].items()): print('  %-60s %d' % (l, n))
    return 1 if viol else 0
