"""The graphical controller manager, run on stand-ins for Qt that keep exactly the behaviour it relies on."""
import sys, types
from hypothesis import strategies as st
from engine import part, check, fail, main
from rosstub import *

class Signal(object):
    def __init__(self, owner=None): self.owner, self.fns = owner, []
    def __getitem__(self, k): return self
    def connect(self, f): self.fns.append(f)
    def emit(self, *a):
        if self.owner is None or not self.owner.blocked:
            for f in list(self.fns): f(*a)

class Thing(object):
    """a Qt object: remembers attributes, and anything else it is told"""
    blocked = False
    def __init__(self, *a, **k): pass
    def setObjectName(self, n): self.name = n
    def setWindowTitle(self, t): self.title = t
    def windowTitle(self): return getattr(self, 'title', 'Controller Manager')
    def blockSignals(self, b): old, self.blocked = self.blocked, b; return old

class Combo(Thing):
    """QComboBox: an item becomes current when the first ones are inserted into an empty box"""
    def __init__(self): self.items, self.cur = [], -1; self.currentIndexChanged = Signal(self)
    def count(self): return len(self.items)
    def itemText(self, i): return self.items[i] if 0 <= i < len(self.items) else ''
    def currentIndex(self): return self.cur
    def currentText(self): return self.itemText(self.cur)
    def setCurrentIndex(self, i):
        i = i if 0 <= i < len(self.items) else -1
        if i != self.cur: self.cur = i; self.currentIndexChanged.emit(self.currentText())
    def clear(self): self.items = []; self.setCurrentIndex(-1)
    def insertItems(self, at, new):
        was = len(self.items); at = min(max(at, 0), was); self.items[at:at] = [str(x) for x in new]
        if not was and self.items: self.cur = -1; self.setCurrentIndex(0)
        elif self.cur >= at: self.cur += len(new)
    def insertItem(self, at, x): self.insertItems(at, [x])
    def addItems(self, new): self.insertItems(len(self.items), new)
    def addItem(self, x): self.addItems([x])
    def removeItem(self, i):
        if not 0 <= i < len(self.items): return
        cur = self.cur; del self.items[i]
        if i < cur: self.cur -= 1
        elif i == cur: self.cur = -2; self.setCurrentIndex(min(i, len(self.items) - 1))
    def findText(self, t): return self.items.index(t) if t in self.items else -1

class Header(Thing):
    def __init__(self): self.mode = None; self.customContextMenuRequested = Signal()
    def setSectionResizeMode(self, m): self.mode = m
    def resizeMode(self, i): return self.mode
    sectionResizeMode = resizeMode
    def setContextMenuPolicy(self, p): pass
    def mapToGlobal(self, p): return p
class Table(Thing):
    def __init__(self): self.customContextMenuRequested, self.doubleClicked, self.header, self.model_ = Signal(), Signal(), Header(), None
    def setContextMenuPolicy(self, p): pass
    def horizontalHeader(self): return self.header
    def setModel(self, m): self.model_ = m
    def model(self): return self.model_
    def rowAt(self, y): return y if self.model_ is not None and y < self.model_.rowCount(None) else -1
    def mapToGlobal(self, p): return p
class Pos(object):
    def __init__(self, y): self.y_ = y
    def y(self): return self.y_
    def x(self): return 0
class Index(object):
    def __init__(self, r, c=0, valid=True): self.r, self.c, self.v = r, c, valid
    def row(self): return self.r
    def column(self): return self.c
    def isValid(self): return self.v
class Label(Thing):
    def setText(self, t):
        if not isinstance(t, str): raise TypeError('setText(%r)' % t)
        self.text = t
class Tree(Thing):
    def setModel(self, m): self.model = m
    def setItemDelegate(self, d): pass
    def expandAll(self): pass
class Widget(Thing):
    visible = False
    def show(self): self.visible = True
    def hide(self): self.visible = False
    def move(self, p): pass
class Item(Thing):
    def __init__(self, t=''): self.t, self.rows = t, []
    def appendRow(self, r): self.rows.append(r)
    def text(self): return self.t
    def tree(self): return [self.t, [r.tree() for r in self.rows]]
class Model(Item):
    def __init__(self, *a): Item.__init__(self)
    def invisibleRootItem(self): return self
class Timer_(Thing):
    def __init__(self, *a): self.timeout, self.running = Signal(), False
    def setInterval(self, i):
        if not isinstance(i, int): raise TypeError('setInterval(%r)' % i)
        self.i = i
    def start(self, *a): self.running = True
    def stop(self): self.running = False
class Menu(Thing):
    shown = None; choose = None; meanwhile = None
    def __init__(self, *a): self.actions = []
    def addAction(self, *a): x = types.SimpleNamespace(text=a[-1], icon=a[0] if len(a) > 1 else None); self.actions.append(x); return x
    def exec_(self, *a):
        Menu.shown = [x.text for x in self.actions]; a = Menu.choose(self.actions)
        if Menu.meanwhile: Menu.meanwhile()     # timers go on while a menu is open
        return a
    popup = exec_
class Plugin(Thing): pass
class TableModel(Thing):
    def __init__(self, *a): pass
class Enum(object):
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return n
class Icon(object):
    def __init__(self, p=''): self.path = p
class Font(Thing):
    Bold = 75
    def setBold(self, b): self.bold = b
class Settings(object):
    def __init__(self): self.d = {}
    def set_value(self, k, v): self.d[k] = v
    def value(self, k, default=None): return self.d.get(k, default)
class RosPack(object):
    def get_path(self, p): return REPO + '/' + p

def qt():
    m = {}
    def mod(n, **k): x = types.ModuleType(n); x.__dict__.update(k); m[n] = x; return x
    def loadUi(path, w):
        if not os.path.exists(path): raise IOError(path)
        if 'info' in path: w.ctrl_name, w.ctrl_type, w.resource_tree = Label(), Label(), Tree()
        else: w.cm_combo, w.table_view = Combo(), Table()
    core = mod('python_qt_binding.QtCore', QAbstractTableModel=TableModel, QModelIndex=Index, Qt=Enum(), QTimer=Timer_, QVariant=lambda x=None: x, Signal=Signal)
    wid = mod('python_qt_binding.QtWidgets', QWidget=Widget, QFormLayout=Thing, QHeaderView=Enum(), QMenu=Menu, QStyledItemDelegate=Thing)
    gui = mod('python_qt_binding.QtGui', QCursor=types.SimpleNamespace(pos=lambda: None), QFont=Font, QIcon=Icon, QStandardItem=Item, QStandardItemModel=Model)
    mod('python_qt_binding', loadUi=loadUi, QtCore=core, QtWidgets=wid, QtGui=gui); mod('qt_gui', plugin=mod('qt_gui.plugin', Plugin=Plugin)); mod('rospkg', RosPack=RosPack)
    return m
class Context(object):
    def __init__(self, n): self.n, self.widgets = n, []
    def serial_number(self): return self.n
    def add_widget(self, w): self.widgets.append(w)

def lists(s, n=4, m=0): return st.lists(s, min_size=m, max_size=n)
def obj(**k): return st.fixed_dictionaries(k)

# ---- C42 the selection of managers ---------------------------------------------------------
ns = st.sampled_from(['/a/cm', '/b/cm', '/cm', '/', '/c'])
@part('C42', 'combo', 'the selected value moved or vanished', obj(steps=lists(st.one_of(obj(set=st.lists(ns, max_size=4, unique=True)), obj(select=st.integers(0, 5))), 8, 2), sort=st.booleans()), 6000, 60000)
def _(c, k):
    with installed(World(), qt()):
        from rqt_controller_manager.update_combo import update_combo
        b = Combo(); heard = []; b.currentIndexChanged.connect(heard.append)
        for s in k['steps']:
            if 'select' in s:
                b.setCurrentIndex(s['select'] if s['select'] < b.count() else -1); continue
            new = sorted(s['set']) if k['sort'] else list(s['set']); sel, old = b.currentText(), list(b.items); idx = b.currentIndex(); del heard[:]
            update_combo(b, list(new))
            check(sorted(b.items) == sorted(new), 'shows %r instead of %r' % (b.items, new)); check(not b.blocked, 'signals stay blocked')
            if sel and sel in new: check(b.currentText() == sel, '%r was selected, now %r' % (sel, b.currentText())); check(not heard, 'signals %r although the selection stays' % heard)
            elif sel: check(b.currentIndex() == -1, '%r is selected instead of nothing' % b.currentText()); check(heard == [''], 'signals %r for the lost selection' % heard)
            else: check(b.currentIndex() == -1 and not heard, '%r is selected by itself' % b.currentText())
            if sel and old != b.items: c.nontrivial()
            if sel and sel not in new: c.label('selection lost')

# ---- C43 what is shown and done ------------------------------------------------------------
NAMES = ['c0', 'c1', 'arm', 'arm_c0', 'Arm', 'u/arm']
STATES = ['initialized', 'running', 'stopped', 'waiting', 'aborted']
name = st.sampled_from(NAMES)
cm = obj(ns=st.sampled_from(['/cm', '/robot/cm', '/robot/controller_manager', '/r/s/cm']), ctrls=st.lists(obj(name=name, state=st.sampled_from(STATES), claims=lists(st.tuples(st.sampled_from(['hw::A', 'hw::B']), lists(st.sampled_from(['j1', 'j2']), 2)), 2)), max_size=4, unique_by=lambda x: x['name']), config=st.lists(name, max_size=3, unique=True))
MENU = obj(op=st.just('menu'), row=st.integers(0, 3), choice=st.integers(0, 2), meanwhile=st.one_of(st.none(), st.none(), obj(row=st.integers(0, 3), what=st.sampled_from(['state', 'unload', 'load', 'config']), state=st.sampled_from(STATES), name=name)))
step = st.one_of(obj(op=st.just('select'), i=st.integers(0, 3)), obj(op=st.just('tick')), obj(op=st.just('menu'), row=st.integers(0, 6), choice=st.integers(-1, 2)), obj(op=st.just('menu'), row=st.integers(0, 6), choice=st.integers(0, 2)), MENU, MENU, MENU, obj(op=st.just('info'), row=st.integers(0, 6)), obj(op=st.just('state'), m=st.integers(0, 2), row=st.integers(0, 4), state=st.sampled_from(STATES)), obj(op=st.just('kill'), m=st.integers(0, 2)), obj(op=st.just('restart'), m=st.integers(0, 2)), obj(op=st.just('load'), m=st.integers(0, 2), name=name), obj(op=st.just('config'), m=st.integers(0, 2), name=name), obj(op=st.just('header'), choice=st.booleans()), obj(op=st.just('save')))
EXPECT = {'running': {'Stop': ['stop'], 'Stop and Unload': ['stop', 'unload']}, 'stopped': {'Start again': ['start'], 'Unload': ['unload']}, 'initialized': {'Start': ['start'], 'Unload': ['unload']}, 'uninitialized': {'Load': ['load'], 'Load and Start': ['load', 'start']}}
@part('C43', 'plugin', 'an operation was chosen from the menu', obj(cms=st.lists(cm, min_size=1, max_size=3, unique_by=lambda x: x['ns']), steps=lists(step, 14, 5), serial=st.integers(1, 2), first=st.integers(0, 3)), 6000, 60000)
def _(c, k):
    w = World(); ms, srvs = [], []
    for x in k['cms']:
        m = Manager(w, x['ns']); m.up = True; ms.append(m); srvs.append({n: v for n, v in w.services.items() if n.startswith(m.ns + '/')})
        for y in x['ctrls']: m.controllers.append(dict(name=y['name'], state=y['state'], type='t/' + y['name'], res=[], claims=y['claims']))
        m.base = x['ns'].rsplit('/', 1)[0]
        for n in x['config']: w.set_param(m.base + '/' + n, dict(type='t/' + n, gain=1))
    w.set_param('/not_a_controller/x/type', 'y')
    with installed(w, qt()):
        from rqt_controller_manager.controller_manager import ControllerManager
        ctx = Context(k['serial']); p = ControllerManager(ctx); wid = ctx.widgets[0]; combo, table, pop = wid.cm_combo, wid.table_view, p._popup_widget
        timers = [t for t in vars(p).values() if isinstance(t, Timer_)]; check(timers and all(t.running for t in timers), 'no timers')
        def tick():
            for t in timers: t.timeout.emit()
        def selected(): return next((m for m in ms if m.ns == combo.currentText()), None)
        def rows(m):
            if m is None: return []
            l = m.list(None).controller if m.up else []; have = [x.name for x in l]; d = w.get_param(m.base or '/', {})
            out = [(x.name, x.state, x.type, [(r.hardware_interface, list(r.resources)) for r in x.claimed_resources]) for x in l]
            return out + [(n, 'uninitialized', v['type'], []) for n, v in sorted(d.items()) if isinstance(v, dict) and 'type' in v and n not in have]
        shown = None
        def verify():
            check(list(combo.items) == sorted(m.ns for m in ms if m.up), 'managers shown %r' % combo.items)
            want = rows(selected()); t = table.model(); n = t.rowCount(None) if t is not None else 0
            got = [(t.data(Index(i, 0), 'DisplayRole'), t.data(Index(i, 1), 'DisplayRole')) for i in range(n)]
            check(got == [x[:2] for x in want], 'shows %r instead of %r' % (got, want))
            for i in range(n):
                check(isinstance(t.data(Index(i, 0), 'DecorationRole'), Icon) and os.path.exists(t.data(Index(i, 0), 'DecorationRole').path), 'no icon for %r' % (want[i],))
                check(t.columnCount(None) == 2 and t.data(Index(i, 0, False), 'DisplayRole') is None, 'columns'); t.data(Index(i, 0), 'FontRole'); t.data(Index(i, 1), 'TextAlignmentRole'); check(t.data(Index(i, 1), 'DecorationRole') is None, 'icon in the state column')
                green = 'green' in t.data(Index(i, 0), 'DecorationRole').path; check(green == (want[i][1] == 'running'), 'icon of a %s controller' % want[i][1])
            return want
        tick(); want = verify(); combo.setCurrentIndex(k['first'] if k['first'] < combo.count() else 0); tick(); want = verify()
        for s in k['steps']:
            op = s['op']; m = ms[s['m'] % len(ms)] if 'm' in s else None; before = [list(x.log) for x in ms]
            if op == 'select': combo.setCurrentIndex(s['i'] if s['i'] < combo.count() else -1)
            elif op == 'state' and m.up and m.controllers: m.controllers[s['row'] % len(m.controllers)]['state'] = s['state']
            elif op == 'kill' and m.up:
                m.up = False; m.controllers[:] = []
                for n in srvs[ms.index(m)]: w.services.pop(n, None); w.incarnation[n] = w.incarnation.get(n, 0) + 1
            elif op == 'restart':
                # a manager that goes and comes back between two looks
                m.controllers[:] = []; m.up = True; w.services.update(srvs[ms.index(m)])
                if selected() is not m:
                    for n in srvs[ms.index(m)]: w.incarnation[n] = w.incarnation.get(n, 0) + 1
            elif op == 'load' and m.up:
                if m.do_load(s['name']): m.get(s['name'])['type'] = 't/' + s['name']
            elif op == 'config': w.set_param(m.base + '/' + s['name'], dict(type='t/' + s['name']))
            elif op == 'header': Menu.choose = lambda a: a[0] if s['choice'] else None; old = table.header.mode; table.header.customContextMenuRequested.emit(Pos(0)); check((table.header.mode != old) == s['choice'], 'header mode')
            elif op == 'save':
                x = Settings(); p.save_settings(Settings(), x); q = ControllerManager(Context(2)); q.restore_settings(Settings(), x)
                if selected() and selected().up: check(q._widget.cm_combo.currentText() == combo.currentText(), 'restored %r instead of %r' % (q._widget.cm_combo.currentText(), combo.currentText()))
                q.shutdown_plugin(); check(not any(t.running for t in vars(q).values() if isinstance(t, Timer_)), 'timers run on')
            elif op == 'info':
                want = verify_rows = rows(selected())
                tick(); want = verify()
                if s['row'] < len(want):
                    table.doubleClicked.emit(Index(s['row'])); n, stt, typ, cl = want[s['row']]
                    check(pop.visible and pop.ctrl_name.text == n and pop.ctrl_type.text == typ, 'info on %r %r instead of %r' % (pop.ctrl_name.text, pop.ctrl_type.text, n))
                    tr = [r.tree() for r in pop.resource_tree.model.rows]; check(len(tr) == 1 and tr[0][1] == [[h, [[r, []] for r in rs]] for h, rs in cl], 'resources %r instead of %r' % (tr, cl))
            elif op == 'menu':
                tick(); want = verify(); Menu.shown = None; picked = []
                def choose(actions):
                    if not actions or s['choice'] < 0: return None
                    a = actions[s['choice'] % len(actions)]; picked.append(a.text); return a
                mw = s.get('meanwhile')
                def meanwhile():
                    Menu.meanwhile = None; m_ = selected()
                    if m_ and m_.up:
                        if mw['what'] == 'state' and m_.controllers: m_.controllers[mw['row'] % len(m_.controllers)]['state'] = mw['state']
                        elif mw['what'] == 'unload' and m_.controllers: del m_.controllers[mw['row'] % len(m_.controllers)]
                        elif mw['what'] == 'load':
                            if m_.do_load(mw['name']): m_.get(mw['name'])['type'] = 't/' + mw['name']
                        elif mw['what'] == 'config': w.set_param(m_.base + '/' + mw['name'], dict(type='t/' + mw['name']))
                        c.label('the list changes while a menu is open')
                    tick()
                Menu.choose = choose; Menu.meanwhile = meanwhile if mw else None; sel = selected(); table.customContextMenuRequested.emit(Pos(s['row'])); Menu.meanwhile = None
                if s['row'] >= len(want): check(Menu.shown is None, 'menu beside the controllers')
                else:
                    n, stt = want[s['row']][:2]; exp = EXPECT.get(stt, {})
                    if exp: check(sorted(Menu.shown or []) == sorted(exp), 'menu %r for a %s controller' % (Menu.shown, stt))
                    got = sel.log[len(before[ms.index(sel)]):]
                    if exp:
                        req = [('load', n) if r == 'load' else ('unload', n) if r == 'unload' else ('switch', [n], [], 2) if r == 'start' else ('switch', [], [n], 2) for r in (exp[picked[0]] if picked else [])]
                        check([x[:len(y)] for x, y in zip(got, req)] == req and len(got) == len(req), 'requests %r instead of %r' % (got, req))
                        if req: c.nontrivial(); c.label(picked[0])
                    elif not picked: check(not got, 'requests %r' % got)
                    if sel.get(n) and not [x for x in k['cms'] if x['ns'] == sel.ns and n in [y['name'] for y in x['ctrls']]]: sel.get(n)['type'] = 't/' + n
                    before[ms.index(sel)] = list(sel.log)
            if op not in ('menu',): check([x.log for x in ms] == before, 'requests nobody asked for')
            else: check(all(x.log == b for x, b in zip(ms, before)), 'requests to another manager')
            tick(); want = verify()
        p.shutdown_plugin(); check(not any(t.running for t in timers), 'timers run on after the end')
        if any(x[1] in ('waiting', 'aborted') for x in want): c.label('waiting or aborted controllers shown')

if __name__ == '__main__': sys.exit(main())
