"""Stand-ins for the Qt bindings, qt_gui and rospkg, as far as the controller manager panel uses them."""
import types, sys, os, fakeros
class Meta(type):
    """Enumerators and static functions of Qt classes."""
    def __getattr__(cls, n):
        if n.startswith('__'): raise AttributeError(n)
        x = Any(); setattr(cls, n, x); return x
class Any(metaclass=Meta):
    """Accepts everything."""
    def __init__(self, *a, **k): pass
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        x = Any(); object.__setattr__(self, n, x); return x
    def __call__(self, *a, **k): return Any()
class Signal:
    def __init__(self, *a): self.slots = []
    def __getitem__(self, t): return self
    def connect(self, f, *a): self.slots.append(f)
    def disconnect(self, *a): self.slots = [f for f in self.slots if a and f not in a]
    def emit(self, *a):
        for f in list(self.slots): f(*a)
class QObject(Any): pass
class Plugin(QObject): pass
class Combo(QObject):
    def __init__(self): self.items, self.idx, self.blocked, self.currentIndexChanged, self.currentTextChanged = [], -1, False, Signal(), Signal()
    def count(self): return len(self.items)
    def itemText(self, i): return self.items[i] if 0 <= i < len(self.items) else ''
    def currentText(self): return self.itemText(self.idx)
    def currentIndex(self): return self.idx
    def findText(self, t, *a): return self.items.index(t) if t in self.items else -1
    def blockSignals(self, b): o = self.blocked; self.blocked = b; return o
    def signalsBlocked(self): return self.blocked
    def setCurrentIndex(self, i):
        if not 0 <= i < len(self.items): i = -1
        if i != self.idx: self.idx = i; self.changed()
    def changed(self):
        if not self.blocked: self.currentIndexChanged.emit(self.currentText()); self.currentTextChanged.emit(self.currentText())
    def setCurrentText(self, t): self.setCurrentIndex(self.findText(t))
    def clear(self):
        had = self.idx; self.items, self.idx = [], -1
        if had != -1: self.changed()
    def insertItems(self, k, l):
        empty = not self.items; self.items[k:k] = list(l)
        if empty and self.items: self.idx = 0; self.changed()
        elif self.idx >= k: self.idx += len(l)
    def addItems(self, l): self.insertItems(len(self.items), l)
    def insertItem(self, k, x): self.insertItems(k, [x])
    def addItem(self, x): self.addItems([x])
class Pos:
    def __init__(self, y): self._y = y
    def x(self): return 0
    def y(self): return self._y
class TableView(QObject):
    def __init__(self): self._model, self.customContextMenuRequested, self.doubleClicked, self._header = None, Signal(), Signal(), Any()
    def setModel(self, m): self._model = m
    def model(self): return self._model
    def rowAt(self, y): return y if self._model is not None and 0 <= y < self._model.rowCount(QModelIndex()) else -1
    def indexAt(self, p): r = self.rowAt(p.y()); return QModelIndex(r, 0) if r >= 0 else QModelIndex()
    def horizontalHeader(self): return self._header
class QModelIndex:
    def __init__(self, row=-1, column=-1): self._r, self._c = row, column
    def row(self): return self._r
    def column(self): return self._c
    def isValid(self): return self._r >= 0
    def parent(self): return QModelIndex()
class QAbstractTableModel(QObject): pass
class QTimer(QObject):
    def __init__(self, *a): self.timeout, self.on = Signal(), False; fakeros.W.qtimers.append(self)
    def start(self, *a): self.on = True
    def stop(self): self.on = False
    def isActive(self): return self.on
class Action:
    def __init__(self, text): self.label = text
    def text(self): return self.label
    def __eq__(self, o): return self is o
    __hash__ = object.__hash__
class QMenu(QObject):
    def __init__(self, *a): self.actions_ = []
    def addAction(self, *a): x = Action([t for t in a if isinstance(t, str)][0]); self.actions_.append(x); return x
    def actions(self): return list(self.actions_)
    def exec_(self, *a): return fakeros.W.menu(self)
    exec = popup = exec_
class QIcon:
    def __init__(self, path=''): self.path = path
class QStandardItem(QObject):
    def __init__(self, text=''): self._text, self.rows = text, []
    def text(self): return self._text
    def setText(self, t): self._text = t
    def appendRow(self, x): self.rows.append(x[0] if isinstance(x, list) else x)
    def appendRows(self, l): self.rows += list(l)
class QStandardItemModel(QStandardItem):
    def __init__(self, *a): self._text, self.rows = '', []
    def invisibleRootItem(self): return self
class Label(QObject):
    def __init__(self): self._text = None
    def setText(self, t): self._text = t
    def text(self): return self._text
class Tree(QObject):
    def __init__(self): self._model = None
    def setModel(self, m): self._model = m
    def model(self): return self._model
class QWidget(QObject):
    def windowTitle(self): return 'panel'
    def show(self): self.shown = True
def loadUi(path, w, *a):
    n = os.path.basename(path)
    if n == 'controller_manager.ui': w.table_view, w.cm_combo = TableView(), Combo(); fakeros.W.panel = w
    else: w.ctrl_name, w.ctrl_type, w.resource_tree = Label(), Label(), Tree(); w.shown = False; fakeros.W.popup = w
class Module(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        c = Meta(n, (QObject,), {}); setattr(self, n, c); return c
def module(name, **k): m = Module(name); m.__dict__.update(k); return m
class Enum:
    """Distinct values for distinct names."""
    def __init__(self): self.__dict__['names'] = {}
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return self.names.setdefault(n, len(self.names) + 1)
Qt = Enum(); G = [c for c in list(globals().values()) if isinstance(c, type)]; ALL = {c.__name__: c for c in G if c.__name__ not in ('Any', 'Combo', 'Pos', 'TableView', 'Action', 'Label', 'Tree', 'Module', 'Enum', 'Plugin')}
ALL['Qt'] = Qt
QT = {'python_qt_binding': module('python_qt_binding', loadUi=loadUi, __path__=[]), 'qt_gui': module('qt_gui', __path__=[]), 'qt_gui.plugin': module('qt_gui.plugin', Plugin=Plugin), 'rospkg': module('rospkg', RosPack=type('RosPack', (), dict(get_path=lambda self, n: '/pkg/' + n)))}
for n in 'QtCore QtWidgets QtGui'.split(): QT['python_qt_binding.' + n] = module('python_qt_binding.' + n, **ALL); setattr(QT['python_qt_binding'], n, QT['python_qt_binding.' + n])
class Context:
    def __init__(self, n): self.n, self.widgets = n, []
    def serial_number(self): return self.n
    def add_widget(self, w): self.widgets.append(w)
BASE = 'rqt_controller_manager/src/rqt_controller_manager/'
def load():
    """Fresh copies of the panel's modules."""
    new = dict(QT); u = fakeros.module('controller_manager_msgs.utils'); names = list(QT) + ['controller_manager_msgs.utils', 'rqt_controller_manager', 'rqt_controller_manager.update_combo']; saved = {k: sys.modules.get(k) for k in names}
    try:
        sys.modules.update(QT); u.__dict__.update(fakeros.load('controller_manager_msgs/src/controller_manager_msgs/utils.py', 'controller_manager_msgs.utils'))
        fakeros.MODULES['controller_manager_msgs.utils'] = u; pk = fakeros.module('rqt_controller_manager', __path__=[]); sys.modules['rqt_controller_manager'] = pk
        for f in sorted(os.listdir(os.path.join(fakeros.REPO, BASE))):
            if f.endswith('.py') and f not in ('__init__.py', 'controller_manager.py'): m = fakeros.module('rqt_controller_manager.' + f[:-3]); sys.modules[m.__name__] = m; saved.setdefault(m.__name__, None); m.__dict__.update(fakeros.load(BASE + f, m.__name__, __package__='rqt_controller_manager'))
        return fakeros.load(BASE + 'controller_manager.py', 'rqt_controller_manager.controller_manager', __package__='rqt_controller_manager')
    finally:
        fakeros.MODULES.pop('controller_manager_msgs.utils', None)
        for k, m in saved.items():
            if m is None: sys.modules.pop(k, None)
            else: sys.modules[k] = m
