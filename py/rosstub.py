"""Stand-ins for rospy, rosservice, rosparam and the generated messages, and a controller manager
behind them, so that the Python code of the repository runs unchanged without ROS.

Everything that happens goes through World: services, parameters, time, shutdown. World.tick() is
called wherever the real program would wait on something outside (a service call before it is
sent and before its answer comes back, a sleep, a look at the shutdown flag while spinning); a
test lets other things happen there.
"""
import builtins, contextlib, importlib.machinery, io, os, sys, time as real_time, types
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import genmsgs
sys.dont_write_bytecode = True

# ---- messages ------------------------------------------------------------------------------
class Message(object):
    _fields = ()            # (name, type)
    def __init__(self, *args, **kwds):
        if args:
            if kwds or len(args) != len(self._fields): raise TypeError('Invalid number of arguments, args should be %s args are %s' % ([n for n, _ in self._fields], args))
            vals = dict(zip([n for n, _ in self._fields], args))
        else:
            bad = set(kwds) - {n for n, _ in self._fields}
            if bad: raise AttributeError('%s is not an attribute of %s' % (bad, type(self).__name__))
            vals = kwds
        for n, t in self._fields: setattr(self, n, vals[n] if n in vals else default(t))
    def __eq__(self, o): return type(self) is type(o) and all(getattr(self, n) == getattr(o, n) for n, _ in self._fields)
    def __ne__(self, o): return not self == o
    __hash__ = None
    def __repr__(self): return '%s(%s)' % (type(self).__name__, ', '.join('%s=%r' % (n, getattr(self, n)) for n, _ in self._fields))
MSGS = {}
def default(t):
    if t.endswith('[]'): return []
    if t == 'string': return ''
    if t == 'bool': return False
    if t in ('float32', 'float64'): return 0.0
    if t in genmsgs.PRIM: return 0
    return MSGS[t.split('/')[-1]]() if t.split('/')[-1] in MSGS else None
def conform(v, t):
    """checks what serialisation would reject"""
    if t.endswith('[]'):
        if isinstance(v, (str, bytes)) or not hasattr(v, '__len__') or not hasattr(v, '__iter__'): return False
        return isinstance(v, (list, tuple)) and all(conform(x, t[:-2]) for x in v)
    if t == 'string': return isinstance(v, str)
    if t in ('float32', 'float64'): return isinstance(v, (int, float))
    if t == 'bool' or t in genmsgs.PRIM: return isinstance(v, (int, bool))
    return True
def build_messages():
    msg = types.ModuleType('controller_manager_msgs.msg'); srv = types.ModuleType('controller_manager_msgs.srv')
    msgs, srvs = genmsgs.load(REPO + '/controller_manager_msgs')
    def mk(mod, name, sec):
        d = dict(_fields=tuple((n, t) for t, n in sec[0]))
        for t, n, v in sec[1]: d[n] = v if t == 'string' else int(v) if 'int' in t else float(v)
        c = type(name, (Message,), d); setattr(mod, name, c); return c
    for n, s in msgs.items(): MSGS[n] = mk(msg, n, s[0])
    for n, s in srvs.items():
        q, r = mk(srv, n + 'Request', s[0]), mk(srv, n + 'Response', s[1])
        setattr(srv, n, type(n, (), dict(_type='controller_manager_msgs/' + n, _request_class=q, _response_class=r)))
    return msg, srv
MSG, SRV = build_messages()

# ---- the world -----------------------------------------------------------------------------
class ServiceException(Exception): pass
class ROSException(Exception): pass
class ROSInterruptException(ROSException, KeyboardInterrupt): pass
class ROSServiceException(Exception): pass
class ROSServiceIOException(ROSServiceException): pass
class Livelock(Exception): pass

def global_ns(n):
    n = n if n.startswith('/') else '/' + n
    return n if n.endswith('/') else n + '/'
def canonical(n):
    o = '/'.join(p for p in n.split('/') if p)
    return '/' + o if n.startswith('/') else o

class World(object):
    def __init__(self, ns='/', argv=('prog',)):
        self.ns, self.argv = ns, list(argv)
        self.services = {}          # name -> (type, function(request) -> response)
        self.stale = set()          # registered services nobody answers any more
        self.params = {}            # nested dictionaries
        self.clock, self.shutdown, self.in_shutdown, self.hooks, self.ticks = 1000.0, False, False, [], 0
        self.on_tick = None         # function(world, where)
        self.incarnation = {}       # name -> how often the service was brought up again
        self.sim_zero = False       # simulated time, nothing heard of the clock yet
        self.subs, self.timers, self.logs, self.calls = {}, [], [], []   # calls: (service, request) as received
        self.master_down = False; self.max_ticks = 20000
        self.node = None
    def resolve(self, n):
        if n.startswith('~'): n = (self.node or '/node') + '/' + n[1:]
        return canonical(n if n.startswith('/') else self.ns.rstrip('/') + '/' + n)
    def tick(self, where):
        self.ticks += 1
        if self.ticks > self.max_ticks: raise Livelock(where)
        if self.on_tick: self.on_tick(self, where)
    def sleep(self, dt, where='sleep'):
        end = self.clock + max(0.0, dt)
        while not self.shutdown:
            due = sorted((t for t in self.timers if t.running and t.next <= end), key=lambda t: t.next)
            if not due: break
            t = due[0]; self.clock = max(self.clock, t.next); t.next += t.period; t.cb(types.SimpleNamespace(current_real=self.clock))
            if t.oneshot: t.running = False
        self.clock = max(self.clock, end); self.tick(where)
    def signal(self):
        """what a signal does: hooks run first, then the flag is up"""
        if self.shutdown or self.in_shutdown: return
        self.in_shutdown = True
        for h in self.hooks:
            try: h()
            except Livelock: raise
            except Exception as e: self.logs.append(('hook', repr(e)))
        del self.hooks[:]
        self.shutdown = True
        for t in self.timers: t.running = False
    def get_param(self, name, *dflt):
        d = self.params
        for k in [p for p in self.resolve(name).split('/') if p]:
            if not isinstance(d, dict) or k not in d:
                if dflt: return dflt[0]
                raise KeyError(name)
            d = d[k]
        return d
    def set_param(self, name, v):
        path = [p for p in self.resolve(name).split('/') if p]
        if not path: self.params = v; return
        d = self.params
        for k in path[:-1]: d = d.setdefault(k, {})
        d[path[-1]] = v
    def param_names(self):
        out = []
        def rec(p, d):
            if isinstance(d, dict):
                for k in d: rec(p + '/' + k, d[k])
            elif p: out.append(p)
        rec('', self.params); return out

class ServiceProxy(object):
    def __init__(self, w, name, cls, persistent=False, headers=None):
        self.w, self.resolved_name, self.service_class, self.persistent, self.conn = w, w.resolve(name), cls, persistent, None
        self.request_class, self.response_class = cls._request_class, cls._response_class
    def wait_for_service(self, timeout=None): wait_for_service(self.w, self.resolved_name, timeout)
    def close(self): pass
    def __call__(self, *a, **k): return self.call(*a, **k)
    def call(self, *a, **k):
        w = self.w
        req = a[0] if len(a) == 1 and not k and isinstance(a[0], self.request_class) else self.request_class(*a, **k)
        for n, t in req._fields:
            if not conform(getattr(req, n), t): raise ServiceException('unable to serialise field %s of %r' % (n, req))
        req = self.request_class(**{n: (list(getattr(req, n)) if t.endswith('[]') else getattr(req, n)) for n, t in req._fields})
        w.tick('call ' + self.resolved_name)
        down = w.shutdown
        if self.resolved_name not in w.services or self.resolved_name in w.stale: raise ServiceException('service [%s] unavailable' % self.resolved_name)
        typ, fn = w.services[self.resolved_name]; inc = w.incarnation.get(self.resolved_name, 0)
        if self.persistent:     # a persistent connection does not survive the other side
            if self.conn is None: self.conn = inc
            elif self.conn != inc: raise ServiceException('connection lost')
        if typ != self.service_class._type: raise ServiceException('service [%s] has another type' % self.resolved_name)
        w.calls.append((self.resolved_name, req))
        resp = fn(req)          # the request has been sent: it is executed whatever happens to the caller
        w.tick('answer ' + self.resolved_name)
        if w.shutdown: raise ServiceException('service [%s] returned no response' % self.resolved_name)   # as rospy behaves once shut down
        return resp

def wait_for_service(w, name, timeout=None):
    name = w.resolve(name); end = None if timeout is None else w.clock + timeout
    while True:
        w.tick('wait ' + name)
        if w.shutdown: raise ROSInterruptException('rospy shutdown')
        if name in w.services and name not in w.stale: return
        if end is not None and w.clock >= end: raise ROSException('timeout exceeded while waiting for service %s' % name)
        w.sleep(0.3, 'wait')

class Timer(object):
    def __init__(self, w, period, cb, oneshot=False, reset=False):
        self.w, self.period, self.cb, self.oneshot, self.running = w, float(getattr(period, 'secs_', period)), cb, oneshot, True
        self.next = w.clock + self.period; w.timers.append(self)
    def shutdown(self): self.running = False
    def is_alive(self): return self.running
    def join(self, *a): pass

class Stamp(object):
    def __init__(self, secs=0, nsecs=0): self.secs_ = float(secs + nsecs * 1e-9)
    @classmethod
    def from_sec(cls, s): return cls(s)
    @classmethod
    def from_seconds(cls, s): return cls(s)
    secs = property(lambda self: int(self.secs_ // 1)); nsecs = property(lambda self: int(round((self.secs_ % 1) * 1e9)))
    def to_sec(self): return self.secs_
    def to_nsec(self): return int(round(self.secs_ * 1e9))
    def is_zero(self): return self.secs_ == 0
    def __eq__(self, o): return isinstance(o, Stamp) and self.secs_ == o.secs_
    def __ne__(self, o): return not self == o
    def __lt__(self, o): return self.secs_ < o.secs_
    def __le__(self, o): return self.secs_ <= o.secs_
    def __gt__(self, o): return self.secs_ > o.secs_
    def __ge__(self, o): return self.secs_ >= o.secs_
    def __hash__(self): return hash(self.secs_)
    def __bool__(self): return self.secs_ != 0
    def __float__(self): return self.secs_
class Duration(Stamp):
    def __add__(self, o): return type(o)(self.secs_ + o.secs_)
    def __sub__(self, o): return Duration(self.secs_ - o.secs_)
    def __mul__(self, f): return Duration(self.secs_ * f)
class Time(Stamp):
    def __add__(self, o): return Time(self.secs_ + o.secs_)
    def __sub__(self, o): return Duration(self.secs_ - o.secs_) if isinstance(o, Time) else Time(self.secs_ - o.secs_)

def modules(w):
    """the modules the code under test imports, bound to the world w"""
    m = {}
    def mod(name, **kw):
        x = types.ModuleType(name); x.__dict__.update(kw); m[name] = x; return x
    exc = mod('rospy.exceptions', ROSException=ROSException, ROSInterruptException=ROSInterruptException, ROSInitException=ROSException)
    def log(level):
        def f(fmt, *a, **k): w.logs.append((level, str(fmt) % a if a else str(fmt)))
        return f
    def on_shutdown(h):
        if not callable(h): raise TypeError('shutdown hook [%s] must be a function or callable object' % h)
        if w.shutdown: h('already shutdown'); return
        w.hooks.append(h)
    def spin():
        while not w.shutdown: w.sleep(0.5, 'spin')
    def myargv(argv=None): return [a for a in (w.argv if argv is None else argv) if ':=' not in a]
    def init_node(name, *a, **k):
        w.node = w.ns.rstrip('/') + '/' + name
    def is_shutdown(): w.tick('is_shutdown'); return w.shutdown
    class Subscriber(object):
        def __init__(self, topic, cls, callback=None, *a, **k): self.topic = w.resolve(topic); self.cb = callback; w.subs.setdefault(self.topic, []).append(self)
        def unregister(self): w.subs[self.topic].remove(self)
    class Now(Time):
        @classmethod
        def now(cls): return Time(0 if w.sim_zero else w.clock)
    class Rate(object):
        def __init__(self, hz, reset=False): self.sleep_dur = Duration(1.0 / hz)
        def sleep(self):
            w.sleep(self.sleep_dur.secs_)
            if w.shutdown: raise ROSInterruptException('ROS shutdown request')
        def remaining(self): return self.sleep_dur
    class Publisher(object):
        def __init__(self, *a, **k): pass
        def publish(self, *a, **k): pass
        def unregister(self): pass
        def get_num_connections(self): return 0
    def wait_for_message(topic, cls, timeout=None):
        got = []; s = Subscriber(topic, cls, got.append); end = None if timeout is None else w.clock + timeout
        while not got:
            w.sleep(0.01)
            if w.shutdown: raise ROSInterruptException('rospy shutdown')
            if end is not None and w.clock >= end and not got: raise ROSException('timeout exceeded while waiting for message on topic %s' % topic)
        s.unregister(); return got[0]
    def delete_param(n):
        path = [p for p in w.resolve(n).split('/') if p]; d = w.params
        for k in path[:-1]: d = d[k]
        del d[path[-1]]
    def search_param(n):
        ns = w.resolve('x')[:-2]
        while True:
            if w.get_param(ns + '/' + n, w) is not w: return ns + '/' + n
            if not ns: return None
            ns = ns.rpartition('/')[0]
    def logx(level):
        f = log(level); return {level + '_once': f, level + '_throttle': lambda period, msg, *a, **k: f(msg, *a, **k), level + '_throttle_identical': lambda period, msg, *a, **k: f(msg, *a, **k)}
    rospy = mod('rospy', Rate=Rate, Publisher=Publisher, wait_for_message=wait_for_message, delete_param=delete_param, get_param_names=lambda: w.param_names(), search_param=search_param, core=mod('rospy.core', is_shutdown=is_shutdown), ServiceException=ServiceException, ROSException=ROSException, ROSInterruptException=ROSInterruptException, exceptions=exc,
        service=mod('rospy.service', ServiceException=ServiceException), ServiceProxy=lambda name, cls, persistent=False, headers=None: ServiceProxy(w, name, cls, persistent, headers),
        wait_for_service=lambda name, timeout=None: wait_for_service(w, name, timeout), init_node=init_node, myargv=myargv, on_shutdown=on_shutdown, is_shutdown=is_shutdown, spin=spin,
        signal_shutdown=lambda reason: w.signal(), Timer=lambda period, cb, oneshot=False, reset=False: Timer(w, period, cb, oneshot), Duration=Duration, Time=Now, Subscriber=Subscriber, get_rostime=lambda: Time(0 if w.sim_zero else w.clock), get_time=lambda: w.clock,
        sleep=lambda d: w.sleep(float(d)), get_param=lambda n, *d, **k: w.get_param(n, *(d or tuple(k.values()))), set_param=w.set_param, has_param=lambda n: w.get_param(n, w) is not w, get_name=lambda: w.node or '/unnamed', get_namespace=lambda: global_ns(w.ns),
        resolve_name=lambda n, c=None: w.resolve(n), **{a: b for k in ('loginfo', 'logwarn', 'logerr', 'logdebug', 'logfatal') for a, b in logx(k).items()}, **{k: log(k) for k in ('loginfo', 'logwarn', 'logerr', 'logdebug', 'logfatal', 'logout', 'logerror')})
    def get_service_list(node=None, namespace=None, include_nodes=False):
        w.tick('master')
        if w.master_down: raise ROSServiceIOException('Unable to communicate with master!')
        return [s for s in w.services if not namespace or s.startswith(global_ns(namespace))]
    def get_service_type(n):
        w.tick('master')
        if w.master_down: raise ROSServiceIOException('Unable to communicate with master!')
        if n not in w.services: return None
        if n in w.stale: raise ROSServiceIOException('Unable to communicate with service [%s]' % n)
        return w.services[n][0]
    mod('rosservice', ROSServiceException=ROSServiceException, ROSServiceIOException=ROSServiceIOException, get_service_list=get_service_list, get_service_type=get_service_type)
    def set_yaml(name, text, verbose=False):
        import yaml
        def merge(p, v):
            if isinstance(v, dict):
                for k in v: merge(p + '/' + str(k), v[k])
            elif p: w.set_param(p, v)
        v = yaml.safe_load(text)
        merge(w.resolve(name) if name and name != '/' else '', v)
    mod('rosparam', list_params=lambda ns: sorted(n for n in w.param_names() if n.startswith(global_ns(ns))), set_param=set_yaml, get_param=w.get_param, set_param_raw=w.set_param)
    class Bool(Message): _fields = (('data', 'bool'),)
    std = mod('std_msgs.msg', Bool=Bool, String=type('String', (Message,), dict(_fields=(('data', 'string'),)))); mod('std_msgs', msg=std)
    ft = mod('time', **{k: v for k, v in real_time.__dict__.items() if not k.startswith('__')})
    ft.time = ft.monotonic = ft.perf_counter = lambda: w.clock; ft.sleep = lambda dt: w.sleep(dt)
    m['controller_manager_msgs.msg'], m['controller_manager_msgs.srv'] = MSG, SRV
    return m

SEARCH = [REPO + '/%s/src' % p for p in ('controller_manager_msgs', 'controller_manager', 'rqt_controller_manager')]
OURS = ('controller_manager', 'controller_manager_msgs', 'rqt_controller_manager')
_code = {}
def compiled(path):
    if path not in _code: _code[path] = compile(open(path).read(), path, 'exec')
    return _code[path]

class Loader(object):
    """imports the repository's own modules afresh, from code compiled once"""
    def find_spec(self, name, path=None, target=None):
        for s in SEARCH:
            b = os.path.join(s, *name.split('.'))
            if os.path.isdir(b): return importlib.machinery.ModuleSpec(name, FileExec(os.path.join(b, '__init__.py')), origin=b, is_package=True)
            if os.path.exists(b + '.py'): return importlib.machinery.ModuleSpec(name, FileExec(b + '.py'), origin=b + '.py')
        return None
class FileExec(object):
    def __init__(self, path): self.path = path
    def create_module(self, spec): return None
    def exec_module(self, m):
        m.__file__ = self.path
        if m.__spec__.submodule_search_locations is not None: m.__path__ = [os.path.dirname(self.path)]
        if os.path.exists(self.path): exec(compiled(self.path), m.__dict__)

@contextlib.contextmanager
def installed(w, extra=None):
    mods = modules(w); mods.update(extra or {})
    drop = [n for n in sys.modules if n.split('.')[0] in OURS]
    saved = {n: sys.modules.get(n) for n in list(mods) + drop}
    for n in drop: del sys.modules[n]
    sys.modules.update(mods); l = Loader(); sys.meta_path.insert(0, l)
    argv = sys.argv; sys.argv = list(w.argv)
    try: yield mods
    finally:
        sys.meta_path.remove(l); sys.argv = argv
        for n in [n for n in sys.modules if n.split('.')[0] in OURS]: del sys.modules[n]
        for n, o in saved.items():
            if o is None: sys.modules.pop(n, None)
            else: sys.modules[n] = o

def run_script(w, path):
    """-> (exit status, text printed); the status is 1 with the exception in w.error when one escaped"""
    out, err = io.StringIO(), io.StringIO(); w.error = None; rc = 0
    with installed(w):
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try: exec(compiled(os.path.join(REPO, path)), {'__name__': '__main__', '__file__': os.path.join(REPO, path), '__builtins__': builtins})
            except SystemExit as e: rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except Livelock: raise
            except BaseException as e: rc = 1; w.error = e
            w.signal()      # at exit
    w.stderr = err.getvalue()
    return rc, out.getvalue()

# ---- a controller manager ------------------------------------------------------------------
class Manager(object):
    """Loaded controllers in order, with states; `faults` holds the numbers of mutating requests to refuse, `drop` those that end in a ServiceException."""
    def __init__(self, w, ns='/controller_manager', faults=(), libs_ok=True):
        self.w, self.ns, self.controllers, self.log, self.faults, self.n, self.libs_ok = w, ns, [], [], set(faults), 0, libs_ok; self.partial = None
        self.faulted = []; self.types = {}; self.known = None      # names that can be loaded (None: all)
        self.conflicts = {}                     # name -> resources
        self.list_types = ['a/A', 'b/B']
        for s, t, f in (('load_controller', 'LoadController', self.load), ('unload_controller', 'UnloadController', self.unload), ('switch_controller', 'SwitchController', self.switch), ('list_controllers', 'ListControllers', self.list),
                        ('list_controller_types', 'ListControllerTypes', self.types_), ('reload_controller_libraries', 'ReloadControllerLibraries', self.reload)):
            w.services[canonical(ns + '/' + s)] = ('controller_manager_msgs/' + t, f)
    def get(self, n): return next((c for c in self.controllers if c['name'] == n), None)
    def names(self): return [c['name'] for c in self.controllers]
    def running(self): return [c['name'] for c in self.controllers if c['state'] == 'running']
    def fault(self):
        self.n += 1
        if (self.n - 1) in self.faults: self.faulted.append(len(self.log)); return True
        return False
    # operations, also used directly by "somebody else" in tests
    def do_load(self, n):
        if self.get(n) or (self.known is not None and n not in self.known): return False
        self.controllers.append(dict(name=n, state='initialized', type=self.types.get(n, 't/T'), res=list(self.conflicts.get(n, ())))); return True
    def do_unload(self, n):
        c = self.get(n)
        if not c or c['state'] == 'running': return False
        self.controllers.remove(c); return True
    def do_switch(self, start, stop, strict):
        stop_, start_ = [], []
        for n in stop:
            c = self.get(n)
            if not c or c['state'] != 'running' or n in stop_:
                if strict: return False
            else: stop_.append(n)
        for n in start:
            c = self.get(n)
            if not c or (c['state'] == 'running' and n not in stop_) or n in start_:
                if strict: return False
            else: start_.append(n)
        after = [c for c in self.controllers if (c['state'] == 'running' and c['name'] not in stop_) or c['name'] in start_]
        res = [r for c in after for r in c['res']]
        if len(res) != len(set(res)): return False
        for c in self.controllers:
            if c['name'] in stop_: c['state'] = 'stopped'
            if c['name'] in start_: c['state'] = 'running'
        return True
    # services
    def load(self, q):
        ok = not self.fault() and self.do_load(q.name); self.log.append(('load', q.name, ok)); return SRV.LoadControllerResponse(ok=ok)
    def unload(self, q):
        ok = not self.fault() and self.do_unload(q.name); self.log.append(('unload', q.name, ok)); return SRV.UnloadControllerResponse(ok=ok)
    def switch(self, q):
        ok = not self.fault() and q.strictness in (1, 2, 0) and self.do_switch(q.start_controllers, q.stop_controllers, q.strictness == 2)
        self.log.append(('switch', list(q.start_controllers), list(q.stop_controllers), q.strictness, bool(q.start_asap), q.timeout, ok)); return SRV.SwitchControllerResponse(ok=ok)
    def reload(self, q):
        f = self.fault(); ok = not f and self.libs_ok and (q.force_kill or not self.controllers)
        if ok and self.partial is not None and self.partial < len(self.controllers):    # everything is stopped, but not everything can be unloaded
            for c in self.controllers: c['state'] = 'stopped' if c['state'] == 'running' else c['state']
            del self.controllers[:self.partial]; ok = False
        if ok: self.controllers[:] = []
        self.log.append(('reload', bool(q.force_kill), ok)); return SRV.ReloadControllerLibrariesResponse(ok=ok)
    def list(self, q):
        return SRV.ListControllersResponse(controller=[MSG.ControllerState(name=c['name'], state=c['state'], type=c['type'], claimed_resources=[MSG.HardwareInterfaceResources(hardware_interface=h, resources=list(r)) for h, r in c.get('claims', [])]) for c in self.controllers])
    def types_(self, q): return SRV.ListControllerTypesResponse(types=list(self.list_types), base_classes=['b'] * len(self.list_types))
