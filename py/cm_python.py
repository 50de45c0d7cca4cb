"""Properties of the Python API and tools around the controller manager."""
import json, os, re, sys, tempfile
from hypothesis import strategies as st
from engine import part, check, fail, main
from rosstub import *

NAMES = ['c0', 'c1', 'c2', 'c3', 'arm_controller', 'arm', 'Arm', 'left/arm']
name = st.sampled_from(NAMES)
def lists(s, n=4, m=0): return st.lists(s, min_size=m, max_size=n)
def obj(**k): return st.fixed_dictionaries(k)
CM = 'controller_manager/scripts/'

def utils(w):
    import controller_manager_msgs.utils as u
    return u

# ---- C35 discovery -------------------------------------------------------------------------
SERV = [('list_controllers', 'ListControllers'), ('list_controller_types', 'ListControllerTypes'), ('load_controller', 'LoadController'), ('unload_controller', 'UnloadController'), ('switch_controller', 'SwitchController'), ('reload_controller_libraries', 'ReloadControllerLibraries')]
SPACES = ['', '/cm', '/a', '/a/cm', '/ab/cm', '/a/list_controllers', '/a/list_controllers_b', '/a/b/cm', '/list_controllers/cm', '/cm/list_controllers/x']
manager = obj(ns=st.sampled_from(SPACES), missing=st.one_of(st.just([]), st.just([]), lists(st.integers(0, 5), 2, 1)), wrong=st.one_of(st.just([]), st.just([]), st.just([]), lists(st.integers(0, 5), 1, 1)), stale=st.one_of(st.just(False), st.just(False), st.just(False), st.booleans()))
other = obj(ns=st.sampled_from(SPACES), srv=st.sampled_from(['list_controllers_old', 'list_controllers2', 'my_list_controllers', 'list_controllers/get_loggers', 'set_parameters', 'list_controllersx/list', 'get_loggers']), type=st.sampled_from(['controller_manager_msgs/ListControllers', 'x/Y']), stale=st.one_of(st.just(False), st.just(False), st.booleans()))
graph = obj(managers=lists(manager, 4), others=lists(other, 4), order=st.integers(0, 1 << 30), down=st.one_of(st.just(False), st.just(False), st.just(False), st.just(False), st.booleans()))
def apply_graph(w, g):
    w.services, w.stale, w.master_down = {}, set(), g['down']; s = []
    for m in g['managers']:
        for i, (n, t) in enumerate(SERV):
            if i in m['missing']: continue
            s.append((m['ns'] + '/' + n, 'x/' + t if i in m['wrong'] else 'controller_manager_msgs/' + t, m['stale']))
    s += [(o['ns'] + '/' + o['srv'], o['type'], o['stale']) for o in g['others']]
    r = g['order']
    while s:
        n, t, stale = s.pop(r % len(s)); r = r * 31 + 7 & 0xffffffff
        if n in w.services: continue
        w.services[n] = (t, None)
        if stale: w.stale.add(n)
def find_managers(w, ns):
    if w.master_down: return [], []
    here = [n[:-len('/list_controllers')] for n in w.services if n.endswith('/list_controllers') and (not ns or n.startswith(global_ns(ns)))]
    full = [n for n in here if all(w.services.get(n + '/' + s, (None,))[0] == 'controller_manager_msgs/' + t and n + '/' + s not in w.stale for s, t in SERV)]
    return sorted(n or '/' for n in full), sorted(n or '/' for n in here)

search = st.sampled_from(['/', '', '/a', 'a', '/a/', '/a/b', '/cm', '/zzz'])
@part('C35', 'search', 'a complete manager exists next to another service or manager', obj(graph=graph, ns=search, guess=st.one_of(st.none(), st.lists(st.sampled_from([s or '/' for s in SPACES] + ['/zzz']), max_size=3, unique=True))), 6000, 60000)
def _(c, k):
    w = World(); apply_graph(w, k['graph'])
    with installed(w):
        u = utils(w); guess = None if k['guess'] is None else list(k['guess'])
        got = u.get_controller_managers(k['ns'], guess) if k['guess'] is not None else u.get_controller_managers(k['ns'])
        full, here = find_managers(w, k['ns'])
        check(guess == k['guess'], 'the initial guess was changed to %r' % (guess,))
        check(list(got) == sorted(got), 'not sorted: %r' % (got,)); check(len(set(got)) == len(got), 'a manager is listed twice: %r' % (got,))
        want = set(full); lazy = set(here) & set(k['guess'] or [])        # members of the guess go through a lazy check
        check(want <= set(got), 'managers %r not found: %r' % (sorted(want - set(got)), got)); check(set(got) <= want | lazy, '%r are not controller managers: %r' % (sorted(set(got) - want - lazy), got))
        for n in [x or '/' for x in SPACES]:
            if w.master_down: break
            check(u.is_controller_manager(n) == (n in find_managers(w, '/')[0]), 'is_controller_manager(%r) is wrong' % n)
            if n != '/': check(u.is_controller_manager(n + '/') == (n in find_managers(w, '/')[0]), 'is_controller_manager(%r) is wrong' % (n + '/'))
        if full and len(w.services) > 6: c.nontrivial()
        if lazy - want: c.label('guess lists an incomplete manager')
        if w.stale: c.label('stale registrations')

@part('C35', 'follow', 'the set of managers changed between two calls', obj(ns=search, steps=lists(graph, 5, 2)), 2500, 25000)
def _(c, k):
    w = World(); prev = set(); wants = []
    with installed(w):
        l = utils(w).ControllerManagerLister(k['ns']) if k['ns'] != '/' else utils(w).ControllerManagerLister()
        for g in k['steps']:
            apply_graph(w, g); got = l(); full, here = find_managers(w, k['ns']); lazy = prev & set(here)
            check(list(got) == sorted(set(got)), 'not sorted or listed twice: %r' % (got,))
            check(set(full) <= set(got) <= set(full) | lazy, 'managers %r, found %r, known before %r' % (full, got, sorted(prev)))
            prev = set(got); wants.append(full)
    if any(a != b for a, b in zip(wants, wants[1:])): c.nontrivial()

# ---- C36 filters ---------------------------------------------------------------------------
RES = ['j1', 'j2', 'j3', 'j']
HW = ['hw::Foo', 'hw::Bar', 'hw::FooBar', '']
ctrl = obj(name=st.sampled_from(NAMES + ['']), state=st.sampled_from(['running', 'stopped', 'initialized', 'waiting', 'aborted', 'run']), type=st.sampled_from(['foo/Foo', 'foo/FooBar', 'bar/Bar', '']), claims=lists(obj(hw=st.sampled_from(HW), res=lists(st.sampled_from(RES), 3)), 3))
def mk(cs): return [MSG.ControllerState(name=x['name'], state=x['state'], type=x['type'], claimed_resources=[MSG.HardwareInterfaceResources(hardware_interface=r['hw'], resources=list(r['res'])) for r in x['claims']]) for x in cs]
@part('C36', 'filters', 'some controllers match and some do not', obj(ctrls=lists(ctrl, 5), attr=st.sampled_from(NAMES + ['running', 'stopped', 'run', 'foo/Foo', 'oo', 'Bar', 'c', '']), sub=st.sampled_from([None, False, True]), hw=st.sampled_from(HW + ['Foo', 'hw']), res=lists(st.sampled_from(RES + ['zz']), 3), reshw=st.one_of(st.none(), st.sampled_from(HW + ['zz'])), any=st.sampled_from([None, False, True])), 8000, 80000)
def _(c, k):
    w = World(); cs = mk(k['ctrls']); before = repr(cs); kw = {} if k['sub'] is None else dict(match_substring=k['sub']); mixed = False
    def same(what, got, want):
        nonlocal mixed
        check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), '%s selects %r instead of %r' % (what, [x.name for x in got], [x.name for x in want])); check(repr(cs) == before, '%s changed its input' % what)
        mixed |= 0 < len(want) < len(cs)
    def match(a, b): return a in b if k['sub'] else a == b
    with installed(w):
        u = utils(w)
        for n in ('name', 'type', 'state'): same('filter_by_' + n, getattr(u, 'filter_by_' + n)(cs, k['attr'], **kw), [x for x in cs if match(k['attr'], getattr(x, n))])
        same('filter_by_hardware_interface', u.filter_by_hardware_interface(cs, k['hw'], **kw), [x for x in cs if any(match(k['hw'], r.hardware_interface) for r in x.claimed_resources)])
        f = any if k['any'] else all; kw2 = {} if k['any'] is None else dict(match_any=k['any'])
        same('filter_by_resources', u.filter_by_resources(cs, k['res'], hardware_interface=k['reshw'], **kw2), [x for x in cs if any((k['reshw'] is None or k['reshw'] == r.hardware_interface) and f(i in r.resources for i in k['res']) for r in x.claimed_resources)])
    if mixed: c.nontrivial()
    if not k['res']: c.label('no resources asked for')

@part('C36', 'lister', 'the manager went away and came back', obj(steps=lists(st.sampled_from(['call', 'call', 'kill', 'start', 'restart', 'load', 'run']), 12, 2)), 3000, 20000)
def _(c, k):
    w = World(); m = Manager(w, '/m'); srv = w.services.pop('/m/list_controllers'); up = False; went = came = False; n = 0
    with installed(w):
        l = utils(w).ControllerLister('/m')
        for s in k['steps']:
            if s in ('kill', 'restart') and up: del w.services['/m/list_controllers']; up = False; went = True; m.controllers[:] = []
            if s in ('start', 'restart') and not up: w.services['/m/list_controllers'] = srv; w.incarnation['/m/list_controllers'] = w.incarnation.get('/m/list_controllers', 0) + 1; up = True; came |= went
            if s == 'load' and up: m.do_load('x%d' % n); n += 1
            if s == 'run' and up and m.controllers: m.do_switch([m.names()[-1]], [], False)
            if s == 'call':
                got = l(); want = m.list(None).controller if up else []
                check(list(got) == want, 'listed %r, the manager has %r' % (got, want))
    if came: c.nontrivial()

# ---- C37 parameters ------------------------------------------------------------------------
key = st.sampled_from(['a', 'b', 'ns', 'type', 'c0', 'joint', 'types', 'typ'])
tree = st.recursive(st.one_of(st.just('x/Y'), st.integers(0, 3), st.just([1])), lambda ch: st.dictionaries(key, ch, max_size=4), max_leaves=14)
@part('C37', 'names', 'some entries of the namespace have a type and some do not', obj(tree=st.dictionaries(key, tree, max_size=5), ns=st.sampled_from(['/', '', '/a', 'a', '/a/', '/ns', 'ns/a', '/a/ns', '/ns/a/', '/type', None])), 6000, 60000)
def _(c, k):
    w = World(); w.params = k['tree']; d = k['tree']
    for x in [p for p in (k['ns'] or '').split('/') if p]: d = d.get(x, {}) if isinstance(d, dict) else {}
    d = d if isinstance(d, dict) else {}
    want = sorted(n for n, v in d.items() if isinstance(v, dict) and 'type' in v and not isinstance(v['type'], dict))
    with installed(w): got = utils(w).get_rosparam_controller_names(*([] if k['ns'] is None else [k['ns']]))
    check(list(got) == want, 'found %r, configured are %r' % (got, want))
    if want and len(want) < len(d): c.nontrivial()

# ---- C38 command line tool -----------------------------------------------------------------
start_state = lists(obj(name=name, state=st.sampled_from(['initialized', 'running', 'stopped', 'waiting', 'aborted']), claims=lists(st.tuples(st.sampled_from(['hw::A', 'hw::B']), lists(st.sampled_from(RES), 2)), 2)), 4)
def fill(m, ss):
    for x in ss:
        if not m.get(x['name']): m.controllers.append(dict(name=x['name'], state=x['state'], type='t/T', res=[], claims=x.get('claims', [])))
COMMANDS = ['load', 'unload', 'start', 'stop', 'spawn', 'sp', 'kill', 'kl', 'list', 'lc', 'list-types', 'lt', 'reload-libraries', 'reload-libraries --restore']
setup = dict(state=start_state, faults=st.one_of(st.just([]), lists(st.integers(0, 5), 3)), ns=st.sampled_from(['/', '/robot']), appears=st.integers(0, 3))
def world(k, argv):
    """a manager in the namespace of the tool, another elsewhere; the first comes up a while after the tool"""
    w = World(ns=k['ns'], argv=argv); m = Manager(w, k['ns'].rstrip('/') + '/controller_manager', k['faults']); o = Manager(w, '/other/controller_manager' if k['ns'] == '/' else '/controller_manager'); fill(m, k['state']); fill(o, k['state'])
    mine = {n: v for n, v in w.services.items() if n.startswith(m.ns + '/')}
    if k['appears']:
        for n in mine: del w.services[n]
        up = w.clock + k['appears'] * 7.0
        def appear(w, where):
            if w.clock >= up: w.services.update(mine)
        w.on_tick = appear
    return w, m, o
def mutating(log): return [x for x in log if not (x[0] == 'switch' and not x[1] and not x[2])]
def model_command(t, cmd, names, lines):
    """performs the operation on the twin manager t and collects the lines to be printed"""
    def load(n): ok = t.load(SRV.LoadControllerRequest(n)).ok; lines.append(("Loaded '%s'" if ok else "Error when loading '%s'") % n)
    def unload(n): ok = t.unload(SRV.UnloadControllerRequest(n)).ok; lines.append(("Unloaded '%s' successfully" if ok else "Error when unloading '%s'") % n)
    def switch(a, b):
        ok = t.switch(SRV.SwitchControllerRequest(a, b, 2, False, 0.0)).ok
        if not ok: lines.append('Error when starting %s and stopping %s' % (a, b))
        else:
            if a: lines.append('Started %s successfully' % (a,))
            if b: lines.append('Stopped %s successfully' % (b,))
    if cmd in ('load', 'spawn', 'sp'): [load(n) for n in names]
    if cmd in ('start', 'spawn', 'sp'): [switch([n], []) for n in names]
    if cmd in ('stop', 'kill', 'kl'): [switch([], [n]) for n in names]
    if cmd in ('unload', 'kill', 'kl'): [unload(n) for n in names]
@part('C38', 'command', 'a request was refused and another granted', obj(cmd=st.sampled_from(COMMANDS[:8]), names=lists(name, 4, 1), remap=st.booleans(), **setup), 4000, 40000)
def _(c, k):
    w, m, o = world(k, ['/opt/ros/lib/controller_manager/controller_manager', k['cmd']] + k['names'] + (['__name:=x'] if k['remap'] else []))
    t = Manager(World(), faults=k['faults']); fill(t, k['state']); lines = []; model_command(t, k['cmd'], k['names'], lines)
    rc, out = run_script(w, CM + 'controller_manager')
    check(w.error is None, 'the tool raised %r' % w.error); check(rc == 0, 'exit status %r' % rc)
    check(mutating(m.log) == t.log, 'requests %r instead of %r' % (m.log, t.log)); check(not o.log, 'the other manager got %r' % o.log)
    check(out.splitlines() == lines, 'printed %r instead of %r' % (out.splitlines(), lines))
    check(m.controllers == t.controllers, 'the manager has %r instead of %r' % (m.controllers, t.controllers))
    if len({l.startswith('Error') for l in lines}) == 2: c.nontrivial()
    if k['appears']: c.label('manager comes up late')

@part('C38', 'queries', 'there are controllers to list', obj(cmd=st.sampled_from(['list', 'lc', 'list-types', 'lt']), **setup), 1500, 15000)
def _(c, k):
    w, m, o = world(k, ['controller_manager', k['cmd']]); rc, out = run_script(w, CM + 'controller_manager')
    check(w.error is None, 'the tool raised %r' % w.error); check(rc == 0, 'exit status %r' % rc); check(not mutating(m.log) and not o.log, 'requests %r' % m.log)
    if k['cmd'] in ('lt', 'list-types'): check(out.splitlines() == m.list_types, 'printed %r' % out); return
    lines = out.splitlines()
    if not m.controllers: check(len(lines) == 1 and 'No controllers' in lines[0], 'printed %r' % out); return
    check(len(lines) == len(m.controllers), 'printed %r for %r' % (lines, m.controllers))
    for l, x in zip(lines, m.controllers):
        g = re.match(r"^'(.*)' - '(.*)' \( (.*) \)$", l); check(g, 'printed %r' % l)
        check(g.group(1) == x['name'] and g.group(3) == x['state'] and sorted(g.group(2).split('+') if g.group(2) else []) == sorted({h for h, _ in x.get('claims', [])}), 'printed %r for %r' % (l, x))
    c.nontrivial()

@part('C38', 'usage', 'an unknown command or none', obj(args=st.sampled_from([[], ['foo'], ['Load', 'c0'], ['loadx', 'c0'], ['-h'], ['star', 'c0']]), **setup), 200, 1000)
def _(c, k):
    w, m, o = world(k, ['controller_manager'] + k['args']); rc, out = run_script(w, CM + 'controller_manager')
    check(w.error is None, 'raised %r' % w.error); check(not mutating(m.log), 'requests %r' % m.log); check((rc != 0) == bool(k['args']), 'exit status %r' % rc)
    for n in ('load', 'unload', 'start', 'stop', 'spawn', 'kill', 'list', 'list-types', 'reload-libraries'): check(n in out, 'usage does not mention %s' % n)
    c.nontrivial()

@part('C38', 'reload', 'controllers were running', obj(restore=st.booleans(), force=st.booleans(), libs=st.sampled_from([True, True, False]), gone=lists(name, 2), partial=st.one_of(st.none(), st.none(), st.integers(0, 3)), api=st.booleans(), **setup), 3000, 30000)
def _(c, k):
    k['faults'] = []
    if not k['api']: k['force'] = True
    w, m, o = world(k, ['controller_manager', 'reload-libraries'] + (['--restore'] if k['restore'] else [])); m.libs_ok = k['libs']; m.known = [n for n in NAMES if n not in k['gone']]; m.partial = k['partial']
    before = [dict(x) for x in m.controllers]; part = k['partial'] is not None and k['partial'] < len(before) and k['libs'] and k['force']; ok = k['libs'] and (k['force'] or not before) and not part; run = m.running(); res = None
    if k['api']:
        with installed(w), contextlib.redirect_stdout(io.StringIO()) as out:
            from controller_manager import controller_manager_interface as i
            res = i.reload_libraries(k['force'], restore=k['restore']) if k['restore'] else i.reload_libraries(k['force'])
        out = out.getvalue(); check(bool(res) == ok, 'reload_libraries returned %r' % res)
    else:
        rc, out = run_script(w, CM + 'controller_manager'); check(w.error is None and rc == 0, 'the tool raised %r' % w.error)
    check([x for x in m.log if x[0] == 'reload'] == [('reload', bool(k['force']), ok)], 'requests %r' % m.log); check(not o.log, 'the other manager got %r' % o.log)
    check(('Successfully reloaded' in out) == ok and ('Failed to reload' in out) == (not ok), 'printed %r' % out)
    if ok and not k['restore']: check(m.controllers == [] and len(mutating(m.log)) == 1, 'requests %r' % m.log)
    if k['restore']:
        kept = [x['name'] for x in before] if not ok and not part else [x['name'] for x in before[k['partial']:]] if part else []
        want = kept + [x['name'] for x in before if x['name'] not in kept and x['name'] in m.known]
        check(m.names() == want, 'restored %r instead of %r' % (m.names(), want)); check(m.running() == [n for n in want if n in run], 'running after the restoration %r, before %r' % (m.running(), run))
        check(all(x['state'] == 'running' or x['name'] in kept or x['state'] == 'initialized' for x in m.controllers), 'states %r' % m.controllers)
        if part: c.label('reload failed half way')
        check({x[3] for x in mutating(m.log) if x[0] == 'switch'} <= {1}, 'requests %r' % m.log)
    if run: c.nontrivial()
    if k['restore'] and set(run) & set(k['gone']): c.label('a running controller cannot be restored')

@part('C38', 'api', 'controllers are started and stopped at once', obj(ops=lists(obj(op=st.sampled_from(['load', 'unload', 'start', 'starts', 'stop', 'stops', 'both']), a=lists(name, 3, 1), b=lists(name, 3)), 5, 1), **setup), 3000, 30000)
def _(c, k):
    w, m, o = world(k, ['x']); t = Manager(World(), faults=k['faults']); fill(t, k['state'])
    with installed(w), contextlib.redirect_stdout(io.StringIO()):
        from controller_manager import controller_manager_interface as i
        for p in k['ops']:
            a, b = p['a'], p['b']
            if p['op'] == 'load': got = i.load_controller(a[0]); want = t.load(SRV.LoadControllerRequest(a[0])).ok
            elif p['op'] == 'unload': got = i.unload_controller(a[0]); want = t.unload(SRV.UnloadControllerRequest(a[0])).ok
            else:
                s, z = {'start': ([a[0]], []), 'starts': (a, []), 'stop': ([], [a[0]]), 'stops': ([], a), 'both': (a, b)}[p['op']]
                got = {'start': lambda: i.start_controller(a[0]), 'starts': lambda: i.start_controllers(list(a)), 'stop': lambda: i.stop_controller(a[0]), 'stops': lambda: i.stop_controllers(list(a)), 'both': lambda: i.start_stop_controllers(list(a), list(b))}[p['op']]()
                want = t.switch(SRV.SwitchControllerRequest(s, z, 2, False, 0.0)).ok
                if s and z: c.nontrivial()
            check(bool(got) == want and got is not None, '%s %r %r returned %r' % (p['op'], a, b, got)); check(m.log == t.log, 'requests %r instead of %r' % (m.log, t.log)); check(not o.log, 'the other manager got %r' % o.log)


# ---- C39 spawner ---------------------------------------------------------------------------
third = obj(at=st.integers(0, 24), op=st.sampled_from(['load', 'unload', 'start', 'stop']), name=name)
def somebody(m, e): {'load': lambda: m.do_load(e['name']), 'unload': lambda: m.do_unload(e['name']), 'start': lambda: m.do_switch([e['name']], [], False), 'stop': lambda: m.do_switch([], [e['name']], False)}[e['op']]()
@part('C39', 'spawner', 'controllers were loaded and brought down although a request failed, somebody interfered or the end came early', obj(
    controllers=lists(st.one_of(name, name, obj(yaml=st.lists(name, min_size=1, max_size=3, unique=True))), 4, 1), stopped=st.booleans(), wait=st.sampled_from([None, None, [], [False], [True], [False, False]]), delay=st.sampled_from([0.0, 1.0, 50.0]), ns=st.sampled_from([None, None, 'robot', '/robot', 'robot/', '/robot/']),
    timeout=st.sampled_from([None, None, '0', '-1', '5', '60', 'no', '0.5']), old=st.booleans(), state=lists(obj(name=name, state=st.sampled_from(['initialized', 'running', 'stopped'])), 2), gone=lists(name, 2), faults=st.one_of(st.just([]), lists(st.integers(0, 10), 3)), up=st.sampled_from([0.0, 0.0, 3.0, 20.0, 100.0]), sim=st.sampled_from([0.0, 0.0, 0.0, 10.0, 90.0]),
    lag=st.one_of(st.none(), st.none(), st.none(), st.tuples(st.sampled_from(['load_controller', 'switch_controller', 'unload_controller']), st.sampled_from([4.0, 4.0, 1e9]))),
    third=lists(third, 4), end=st.one_of(st.none(), st.integers(0, 40)), spin=st.integers(1, 8)), 8000, 80000)
def _(c, k):
    args, files, expect = [], {}, []
    with tempfile.TemporaryDirectory() as tmp:
        for i, x in enumerate(k['controllers']):
            if isinstance(x, dict):
                f = os.path.join(tmp, 'c%d.yaml' % i); files[f] = x['yaml']; args.append(f); expect += x['yaml']
                json.dump({n: dict(type='t/%s%d' % (n, i), joints=['a', 'b']) for n in x['yaml']}, open(f, 'w'))
            else: args.append(x); expect.append(x)
        opts = (['--stopped'] if k['stopped'] else []) + (['--wait-for', 'go'] if k['wait'] is not None else []) + (['--namespace', k['ns']] if k['ns'] else []) + (['--no-timeout'] if k['timeout'] == 'no' else ['--timeout=' + k['timeout']] if k['timeout'] else []) + (['--shutdown-timeout', '3'] if k['old'] else [])
        w = World(argv=['/opt/ros/lib/controller_manager/spawner'] + (opts + args if k['stopped'] else args + opts) + ['__name:=x']); m = Manager(w, ('/robot' if k['ns'] else '') + '/controller_manager', k['faults']); o = Manager(w, '/other/controller_manager'); fill(m, k['state']); m.known = [n for n in NAMES if n not in k['gone']]
        mine = {n: w.services.pop(n) for n in list(w.services) if n.startswith(m.ns + '/')}; t0 = w.clock; lag = k['lag'][1] if k['lag'] else 0; msgs = list(k['wait'] or []) + [True]; s = dict(sub=None, spins=0, waits=0, where=None, mark=None, after=None, third=[], heard=False)
        if k['sim']: w.params['use_sim_time'] = True; w.sim_zero = True
        timeout = None if k['timeout'] in ('no', '0', '-1') else float(k['timeout'] or 30)
        def end(where):
            if s['mark'] is None and not w.in_shutdown: s['where'], s['mark'], s['hooked'] = where, len(m.log), bool(w.hooks); w.signal(); s['after'] = len(m.log)
        def tick(w, where):
            # its services come up together, or one of them later than the others
            if w.clock - t0 >= k['up']: w.services.update({n: f for n, f in mine.items() if not lag or not n.endswith('/' + k['lag'][0]) or w.clock - t0 >= k['up'] + lag})
            if w.clock - t0 >= k['sim']: w.sim_zero = False
            if w.in_shutdown: return
            for e in k['third']:
                if e['at'] == w.ticks and all(n in w.services for n in mine): s['third'].append((e['op'], e['name'])); somebody(m, e)
            sub = w.subs.get('/go')
            if sub:
                if s['sub'] is None: s['sub'] = w.clock
                while msgs and w.clock >= s['sub'] + k['delay']:
                    b = msgs.pop(0); s['heard'] |= b; s['sub'] = w.clock; sub[0].cb(sys.modules['std_msgs.msg'].Bool(data=b))
                    if k['delay']: break
            if where == 'spin':
                s['spins'] += 1
                if s['spins'] >= k['spin']: end(where); return
            if where == 'wait':
                s['waits'] += 1
                if s['waits'] > 2000: end(where); return
            if k['end'] is not None and w.ticks >= k['end']: end(where)
        w.on_tick = tick; w.max_ticks = 40000; cwd = os.getcwd(); os.chdir(tmp)
        try: rc, out = run_script(w, CM + 'spawner')
        except Livelock: fail('the spawner does not end: waits without end although shut down' if w.shutdown else 'the spawner does not end')
        finally: os.chdir(cwd)
    log, mark = m.log, len(m.log) if s['mark'] is None else s['mark']
    early = s['mark'] is not None and s['where'] != 'spin'
    c.note('requests %r, ended at %s %s' % (log, s['where'], s['mark']))
    # what was done before the end
    loads = [x[1] for x in log if x[0] == 'load']; ok = [x[1] for x in log if x[0] == 'load' and x[2]]
    check(loads == expect[:len(loads)], 'loads %r, asked for were %r' % (loads, expect)); check(not o.log, 'another manager got %r' % o.log)
    gave_up = timeout is not None and max(k['up'], lag) > (6 if k['sim'] else 3) * timeout + 2 + k['sim']
    if not early and s['mark'] is not None: check(loads == expect, 'loads %r, asked for were %r' % (loads, expect)); check(w.error is None, 'the spawner raised %r' % w.error)
    if s['mark'] is None:      # it went by itself
        check(w.error is None, 'the spawner raised %r' % w.error); check(not log, 'the spawner ended after %r' % log); check(timeout is not None and k['up'] + lag + k['sim'] >= timeout - 0.5, 'the spawner did not wait for the manager'); check(not w.sim_zero, 'the spawner gave up although simulated time had not begun'); c.label('gave up waiting')
    if gave_up: check(not log, 'the spawner did not give up')
    if k['wait'] is not None and loads: check(s['heard'], 'the spawner did not wait for the topic')
    if early and w.error is not None:
        check(isinstance(w.error, (ServiceException, ROSException)) and s['where'].split()[0] in ('call', 'answer', 'wait') or isinstance(w.error, (TypeError, ServiceException)) and not s.get('hooked'), 'the spawner raised %r when ended at %s' % (w.error, s['where']))
    for f in files:
        for n in files[f]:
            if n in loads and sum(n in x for x in files.values()) == 1: check(w.get_param('/%s/type' % n, None) == 't/%s%d' % (n, int(os.path.basename(f)[1:-5])), 'parameters of %s are not set' % n)
    interrupted = None
    if early and s['where'].endswith('load_controller') and 'unload' not in s['where'] and s['where'].split()[0] in ('call', 'answer'):
        x = ([y for y in log[:mark] if y[0] == 'load'][-1:] if s['where'].startswith('answer') else [y for y in log[s['after']:] if y[0] == 'load'][:1])
        interrupted = x[0][1] if x and x[0][2] else None
    starts = [x for x in log[:mark] if x[0] == 'switch']
    if not early and s['mark'] is not None:
        if k['stopped'] or not ok: check(not mutating(starts), 'starts %r' % starts)
        else: check(len(starts) == 1 and set(starts[0][1]) == set(ok) and starts[0][2] == [] and starts[0][3] == 2, 'starts with %r what it loaded, %r' % (starts, ok))
        check(log[:mark][-1:] == starts[-1:] or not starts, 'starts before everything is loaded')
    for x in starts: check(not x[2] and set(x[1]) <= set(ok), 'switches %r although it loaded %r' % (x, ok))
    # the end
    if s['mark'] is None: return
    late = [x[1] for x in log[mark:] if x[0] == 'load']; check(not late or late == [interrupted] or s['where'].startswith('call'), 'loads %r after the end' % late)
    rest = [x for x in log[mark:] if x[0] != 'load' and not (s['where'] == 'call ' + m.ns + '/switch_controller' and x[0] == 'switch' and x[1])]
    if not s.get('hooked'): check(not mutating(rest), 'requests %r at the end without having loaded anything' % rest)
    mineloaded = [n for n in ok if n != interrupted]; stops = [x for x in rest if x[0] == 'switch']; unl = [x[1] for x in rest if x[0] == 'unload']
    check(all(not x[1] for x in stops), 'starts %r at the end' % stops)
    check(set(n for x in stops for n in x[2]) <= set(ok), 'stops %r although it loaded %r' % (stops, ok)); check(set(unl) <= set(ok), 'unloads %r although it loaded %r' % (unl, ok))
    check(all(unl.count(n) <= ok.count(n) for n in unl), 'unloads twice: %r' % unl)
    stop_refused = any(i in m.faulted and log[i][0] == 'switch' for i in range(mark, len(log))); unload_refused = {log[i][1] for i in m.faulted if i >= mark and log[i][0] == 'unload'}
    for n in mineloaded:
        if not m.get(n) or n in unload_refused or stop_refused and m.get(n)['state'] == 'running': continue
        fail('%s, loaded by the spawner, is left %s' % (n, m.get(n)['state']))
    if interrupted and m.get(interrupted): c.known('interrupted-load', '%s, which the spawner was loading when it was told to end, is left %s' % (interrupted, m.get(interrupted)['state'])); c.label('ended while loading')
    if mineloaded and (early or s['third'] or m.faulted): c.nontrivial()
    for l, b in (('ended early', early), ('somebody interfered', s['third']), ('request refused', m.faulted), ('brought down', mineloaded), ('nothing loaded', not ok)):
        if b: c.label(l)

# ---- C40 unspawner -------------------------------------------------------------------------
@part('C40', 'unspawner', 'listed controllers were stopped and started again', obj(names=lists(name, 3, 1), state=lists(obj(name=name, state=st.sampled_from(['initialized', 'running', 'running', 'stopped'])), 5), third=lists(obj(t=st.integers(0, 30), op=st.sampled_from(['start', 'start', 'stop', 'load', 'unload']), name=name), 6), faults=st.one_of(st.just([]), lists(st.integers(0, 3), 2)), up=st.sampled_from([0.0, 0.0, 5.0]), run=st.integers(1, 40), lag=st.sampled_from([None, None, None, 'switch_controller', 'list_controllers']), ns=st.sampled_from(['/', '/robot'])), 6000, 60000)
def _(c, k):
    w = World(ns=k['ns'], argv=['/opt/ros/lib/controller_manager/unspawner'] + k['names'] + ['__name:=x']); m = Manager(w, k['ns'].rstrip('/') + '/controller_manager', k['faults']); o = Manager(w, '/other/controller_manager'); fill(m, k['state']); fill(o, k['state'])
    mine = {n: w.services.pop(n) for n in list(w.services) if n.startswith(m.ns + '/')}; t0 = w.clock; seen = {}; s = dict(mark=None, since={}, before=None); listed = set(k['names']); todo = sorted(k['third'], key=lambda e: e['t'])
    real = m.list
    def listing(q): seen[len(m.log)] = listed & set(m.running()); return real(q)
    mine[m.ns + '/list_controllers'] = (mine[m.ns + '/list_controllers'][0], listing)
    def tick(w, where):
        if w.clock - t0 >= k['up']: w.services.update({n: f for n, f in mine.items() if not k['lag'] or not n.endswith('/' + k['lag']) or w.clock - t0 >= k['up'] + 4})
        if w.in_shutdown: return
        if where in ('spin', 'wait', 'sleep'):
            while todo and todo[0]['t'] <= w.clock - t0: somebody(m, todo.pop(0))
        for n in listed:
            if n in m.running(): s['since'].setdefault(n, w.clock)
            else: s['since'].pop(n, None)
            # the timer looks every three seconds
            if n in s['since'] and not m.faulted and where == 'spin' and w.clock - s['since'][n] > 7: fail('%s has been running for %.1f s' % (n, w.clock - s['since'][n]))
        if where == 'spin' and w.clock - t0 - k['up'] - (4 if k['lag'] else 0) >= k['run']: s['mark'] = len(m.log); s['before'] = set(m.running()); w.signal()
    w.on_tick = tick
    rc, out = run_script(w, CM + 'unspawner')
    if isinstance(w.error, AssertionError): raise w.error
    check(w.error is None, 'raised %r' % w.error); check(s['mark'] is not None, 'ended by itself'); check(not o.log, 'the other manager got %r' % o.log)
    a, b = m.log[:s['mark']], mutating(m.log[s['mark']:]); stopped = set()
    for i, x in enumerate(a):
        check(x[0] == 'switch' and not x[1], 'request %r' % (x,)); check(x[2] and set(x[2]) == seen.get(i), 'stops %r, of the listed %r were running' % (x[2], seen.get(i))); check(x[3] == 1, 'request %r' % (x,)); stopped |= set(x[2])
    if stopped: check(len(b) == 1 and b[0][0] == 'switch' and sorted(b[0][1]) == sorted(stopped) and not b[0][2] and b[0][3] == 1, 'stopped %r, requests at the end %r' % (sorted(stopped), b)); c.nontrivial()
    else: check(not b, 'requests %r at the end although nothing was stopped' % b)
    if stopped and not m.faulted:
        for n in stopped:
            if m.get(n): check(m.get(n)['state'] == 'running', '%s is left stopped' % n)
        check(s['before'] <= set(m.running()) , 'controllers were stopped at the end')
    if len(a) > 1: c.label('stopped more than once')

@part('C40', 'usage', 'no names', obj(args=st.sampled_from([[], ['-h'], ['--help']])), 20, 50)
def _(c, k):
    w = World(argv=['unspawner'] + k['args']); m = Manager(w); rc, out = run_script(w, CM + 'unspawner'); check(not m.log and rc != 0 and 'unspawner' in out, 'status %r, requests %r, output %r' % (rc, m.log, out)); c.nontrivial()

# ---- C41 groups ----------------------------------------------------------------------------
GROUPS = st.fixed_dictionaries(dict(g1=lists(name, 4, 1), g2=lists(name, 4, 1)), optional=dict(g3=lists(name, 4, 1), G=lists(name, 4, 1)))
@part('C41', 'groups', 'controllers are both started and stopped', obj(groups=st.one_of(GROUPS, GROUPS, GROUPS, st.none(), st.dictionaries(st.sampled_from(['g1', 'g2', 'g3', 'G']), lists(name, 4), max_size=4)), cmd=st.sampled_from(['switch', 'switch', 'switch', 'spawn', 'list']), group=st.sampled_from(['g1', 'g2', 'g1', 'g2', 'g3', 'nope']), res=st.dictionaries(name, lists(st.sampled_from(['r1', 'r2']), 1), max_size=4), gone=st.one_of(st.just([]), lists(name, 2)), **setup), 8000, 80000)
def _(c, k):
    w, m, o = world(k, ['/opt/ros/lib/controller_manager/controller_group', k['cmd']] + ([k['group']] if k['cmd'] != 'list' else []) + ['__name:=x'])
    if k['groups'] is not None: w.set_param('controller_groups', {g: list(v) for g, v in k['groups'].items()})
    m.known = [n for n in NAMES if n not in k['gone']]; m.conflicts = {n: sorted(set(r)) for n, r in k['res'].items()}
    for x in m.controllers: x['res'] = m.conflicts.get(x['name'], [])
    before = {x['name']: x['state'] for x in m.controllers}; groups = k['groups'] or {}; want = set(groups.get(k['group'], ())); rc, out = run_script(w, CM + 'controller_group'); log = m.log
    if k['appears'] and isinstance(w.error, ROSException) and k['cmd'] == 'switch': check(not log, 'requests %r' % log); c.label('no manager in time'); return
    check(w.error is None, 'raised %r' % w.error); check(not o.log, 'the other manager got %r' % o.log)
    if k['cmd'] == 'list':
        check(not mutating(log), 'requests %r' % log); lines = out.splitlines(); check(lines[0] == 'Number of groups: %d' % len(groups), 'printed %r' % out)
        check([l.strip() for l in lines[1:]] == [y for g in sorted(groups) for y in [g] + groups[g]], 'printed %r' % out); check(all((len(l) - len(l.lstrip()) == 2) == (l.strip() in groups) for l in lines[1:]), 'printed %r' % out)
        if groups: c.nontrivial()
        return
    if not want:
        check(not log, 'requests %r for a group without controllers' % log); check({x['name']: x['state'] for x in m.controllers} == before and any(l == 'logerr' for l, _ in w.logs), 'not reported'); c.label('unknown or empty group'); return
    loads = [x for x in log if x[0] == 'load']; sw = [x for x in log if x[0] == 'switch']; fl = [x for x in loads if not x[2]]
    check(not [x for x in log if x[0] in ('unload', 'reload')], 'requests %r' % log); check(len({x[1] for x in loads}) == len(loads) and log[:len(loads)] == loads, 'requests %r' % log)
    for x in loads: check((("Loaded '%s'" if x[2] else "Error when loading '%s'") % x[1]) in out.splitlines(), 'printed %r' % out)
    if k['cmd'] == 'spawn':
        check({x[1] for x in loads} == want, 'loads %r of %r' % (loads, want)); check(sorted(n for x in sw for n in x[1]) == sorted(want) and all(not x[2] and x[3] == 2 for x in sw), 'starts %r of %r' % (sw, want))
        if any(not x[-1] for x in log) and any(x[-1] for x in log): c.nontrivial(); c.label('spawn with a refused request')
        return
    need = want - set(before); runs = {n for n, s in before.items() if s == 'running'}
    if fl:
        check(not mutating(sw), 'switches %r although loading failed' % sw); check({x[1] for x in loads} <= need and len(fl) == 1 and loads[-1] == fl[0], 'loads %r, needed %r' % (loads, need)); check({x['name'] for x in m.controllers if x['state'] == 'running'} == runs, 'running controllers changed'); c.label('loading failed'); return
    check({x[1] for x in loads} == need, 'loads %r, needed %r' % (loads, need)); sw = mutating(sw)
    start, stop = want - runs, ({n for g in groups.values() for n in g} - want) & runs
    if not start and not stop: check(not sw, 'switches %r' % sw); return
    check(len(sw) == 1 and sorted(sw[0][1]) == sorted(start) and sorted(sw[0][2]) == sorted(stop) and sw[0][3] == 2, 'switches %r instead of starting %r and stopping %r' % (sw, sorted(start), sorted(stop)))
    check(sum(l.startswith('Error when starting') for l in out.splitlines()) == (not sw[0][-1]), 'printed %r' % out)
    now = set(m.running()); check(now == ((runs - stop) | start if sw[0][-1] else runs), 'running %r' % now)
    if start and stop: c.nontrivial()
    c.label('switch granted' if sw[0][-1] else 'switch refused')

if __name__ == '__main__': sys.exit(main())
