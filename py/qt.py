"""Stand-ins for the Qt classes the graphical front end uses (Qt 5 behaviour of combo boxes, menus, table models)."""
import os, sys, types
import xml.etree.ElementTree as ET
import fakes
from vhpy import HarnessError

QT4_ONLY = {"resizeMode", "setResizeMode", "setMovable", "isMovable", "setClickable", "isClickable", "setAcceptsHover", "reset_"}
class AnyMeta(type):
    def __getattr__(cls, k):
        if k.startswith("_") or k in QT4_ONLY: raise AttributeError(k)
        return Any()
class Any(object, metaclass=AnyMeta):
    """anything Qt offers that does not matter here"""
    def __init__(self, *a, **k): pass
    def __getattr__(self, k):
        if k.startswith("__") or k in QT4_ONLY or k.startswith("_"): raise AttributeError("%s has no attribute %s" % (type(self).__name__, k))
        return Any()
    def __call__(self, *a, **k): return Any()
    def __bool__(self): return True
    def __or__(self, o): return self
    __and__ = __ror__ = __rand__ = __or__
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o

class Sig(object):
    def __init__(self, owner=None): self.cbs, self.owner = [], owner
    def connect(self, f, *a): self.cbs.append(f)
    def disconnect(self, f=None): self.cbs = [c for c in self.cbs if f is not None and c != f]
    def emit(self, *a):
        if self.owner is not None and self.owner.blocked: return
        for c in list(self.cbs): c(*a)
class Sig2(object):
    """overloaded signal: [int] (default) and [str]"""
    def __init__(self, owner): self.i, self.s = Sig(owner), Sig(owner)
    def __getitem__(self, t): return self.s if t is str or t == "QString" else self.i
    def connect(self, f, *a): self.i.connect(f)
    def disconnect(self, f=None): self.i.disconnect(f)
    def emit(self, i, s): self.i.emit(i); self.s.emit(s)

class Widget(Any):
    def __init__(self, *a): self.__dict__["blocked"] = False; self.__dict__["visible"] = False
    def show(self): self.visible = True
    showNormal = showMaximized = open = exec_ = show
    def hide(self): self.visible = False
    close = hide
    def setVisible(self, v): self.visible = bool(v)
    def isVisible(self): return self.visible
    def blockSignals(self, b): o = self.blocked; self.blocked = bool(b); return o
    def signalsBlocked(self): return self.blocked
    def windowTitle(self): return self.__dict__.get('title', 'Controller Manager')
    def setWindowTitle(self, t): self.title = t
class Combo(Widget):
    def __init__(self):
        Widget.__init__(self); self.items, self.idx = [], -1; self.currentIndexChanged = Sig2(self); self.currentTextChanged = Sig(self); self.activated = Sig2(self); self.textActivated = Sig(self); self.emitted = []
    def _set(self, i, text0=None):
        if i < -1 or i >= len(self.items): i = -1
        if i != self.idx:
            self.idx = i
            if not self.blocked: self.emitted.append(self.currentText())
            self.currentIndexChanged.emit(i, self.currentText()); self.currentTextChanged.emit(self.currentText())
    def setCurrentIndex(self, i): self._set(i)
    def setCurrentText(self, t): 
        if t in self.items: self._set(self.items.index(t))
    def currentIndex(self): return self.idx
    def currentText(self): return self.items[self.idx] if 0 <= self.idx < len(self.items) else ""
    def itemText(self, i): return self.items[i] if 0 <= i < len(self.items) else ""
    def count(self): return len(self.items)
    def findText(self, t, *a): return self.items.index(t) if t in self.items else -1
    def clear(self): self.items = []; self._set(-1)
    def insertItems(self, at, vals):
        vals = list(vals)
        if not all(isinstance(v, str) for v in vals): raise TypeError("insertItems: a list of strings is needed")
        if not vals: return
        at = max(0, min(at, len(self.items))); empty = not self.items
        self.items[at:at] = vals
        if empty: self._set(0)
        elif self.idx >= at: self._set(self.idx + len(vals))
    def addItems(self, vals): self.insertItems(len(self.items), vals)
    def addItem(self, v, *a): self.insertItems(len(self.items), [v])
    def insertItem(self, i, v, *a): self.insertItems(i, [v])
    def removeItem(self, i):
        if not 0 <= i < len(self.items): return
        del self.items[i]
        if not self.items: self._set(-1)
        elif self.idx == i:
            n = min(i, len(self.items) - 1); self.idx = -2; self._set(n)
        elif self.idx > i: self._set(self.idx - 1)
    def setItemText(self, i, t): self.items[i] = t
class Header(Widget):
    def __init__(self): Widget.__init__(self); self.customContextMenuRequested = Sig(self); self.mode = 0
    def setSectionResizeMode(self, *a): self.mode = a[-1]
    def sectionResizeMode(self, i):
        if not isinstance(i, int): raise TypeError("sectionResizeMode(int)")
        return self.mode
    def mapToGlobal(self, p): return p
class Pos(object):
    def __init__(self, x, y): self._x, self._y = x, y
    def x(self): return self._x
    def y(self): return self._y
class Table(Widget):
    ROW = 20
    def __init__(self):
        Widget.__init__(self); self.customContextMenuRequested, self.doubleClicked, self.clicked, self.activated = Sig(self), Sig(self), Sig(self), Sig(self); self._header, self._model = Header(), None
    def horizontalHeader(self): return self._header
    def setModel(self, m): self._model = m
    def model(self): return self._model
    def mapToGlobal(self, p): return p
    def viewport(self): return self
    def rowAt(self, y):
        r = y // self.ROW; return r if self._model is not None and 0 <= r < self._model.rowCount(QModelIndex()) else -1
    def indexAt(self, p): r = self.rowAt(p.y()); return self._model.index(r, 0) if r >= 0 else QModelIndex()
    def columnAt(self, x): return 0
class Label(Widget):
    def __init__(self): Widget.__init__(self); self.t = ""
    def setText(self, t):
        if not isinstance(t, str): raise TypeError("setText(str)")
        self.t = t
    def text(self): return self.t
class Tree(Widget):
    def __init__(self): Widget.__init__(self); self.m = None
    def setModel(self, m): self.m = m
    def model(self): return self.m

class QModelIndex(object):
    def __init__(self, r=-1, c=-1, p=None): self.r, self.c, self.p = r, c, p
    def row(self): return self.r
    def column(self): return self.c
    def isValid(self): return self.r >= 0
    def parent(self): return self.p or QModelIndex()
class Obj(Any):
    def __init__(self, *a, **k): pass
    def setObjectName(self, n): self._n = n
    def objectName(self): return self.__dict__.get("_n", "")
class QAbstractTableModel(Obj):
    def __init__(self, parent=None): pass
    def index(self, r, c, parent=None): return QModelIndex(r, c) if r < self.rowCount(QModelIndex()) and c < self.columnCount(QModelIndex()) else QModelIndex()
class QStandardItem(object):
    def __init__(self, t=""): 
        if not isinstance(t, str): raise TypeError("QStandardItem(str)")
        self.t, self.kids = t, []
    def appendRow(self, x): self.kids.extend(x if isinstance(x, list) else [x])
    def text(self): return self.t
    def rowCount(self): return len(self.kids)
    def child(self, i, c=0): return self.kids[i]
    def __getattr__(self, k):
        if k.startswith("_"): raise AttributeError(k)
        return Any()
class QStandardItemModel(QStandardItem):
    def __init__(self, *a): QStandardItem.__init__(self)
    def invisibleRootItem(self): return self

class _Qt(object):
    DisplayRole, DecorationRole, EditRole, ToolTipRole, StatusTipRole, WhatsThisRole, FontRole, TextAlignmentRole, BackgroundRole, ForegroundRole, CheckStateRole, SizeHintRole, UserRole = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 256
    Horizontal, Vertical, AlignCenter, AlignLeft, AlignRight, AlignVCenter, CustomContextMenu = 1, 2, 0x84, 1, 2, 0x80, 3
    ItemIsEnabled, ItemIsSelectable = 32, 1
    def __getattr__(self, k): return 12345
Qt = _Qt()
class QTimer(Obj):
    def __init__(self, parent=None): self.timeout, self.on, self.iv, self.gen = Sig(), False, 0, 0
    def setInterval(self, ms):
        if not isinstance(ms, int): raise TypeError("setInterval(int)")
        self.iv = ms
    def interval(self): return self.iv
    def start(self, ms=None):
        if ms is not None: self.iv = ms
        self.on = True; self.gen += 1; self._arm(self.gen)
    def _arm(self, g):
        w = fakes.W; due = getattr(self, "next", w.now) ; self.next = w.now + self.iv / 1000.0; w.at(self.next, lambda: self._fire(g))
    def _fire(self, g):
        fakes.W.step("timer", signals=False)
        if not self.on or g != self.gen: return
        self._arm(g); self.timeout.emit()
    def stop(self): self.on = False
    def isActive(self): return self.on
    @staticmethod
    def singleShot(ms, f): fakes.W.at(fakes.W.now + ms / 1000.0, f)
class Action(Any):
    def __init__(self, label): self.label = label; self.triggered = Sig()
    def text(self): return self.label
class QMenu(Any):
    choose = None      # the user: actions -> action
    def __init__(self, *a): self.acts = []
    def addAction(self, *a):
        x = Action([s for s in a if isinstance(s, str)][-1])
        for f in a:
            if callable(f) and not isinstance(f, Any): x.triggered.connect(f)
        self.acts.append(x); return x
    def addActions(self, l): self.acts += l
    def actions(self): return list(self.acts)
    def exec_(self, *a):
        x = QMenu.choose(self.acts)
        if x is not None: x.triggered.emit(False)
        return x
    exec = exec_
class QFont(Any):
    Bold = 75
    def __init__(self, *a): self.b = False
    def setBold(self, b): self.b = b
    def bold(self): return self.b
class QCursor(Any):
    @staticmethod
    def pos(*a): return Pos(0, 0)
class QIcon(Any):
    def __init__(self, path=""): self.path = path
class QHeaderView(Header):
    Interactive, Stretch, Fixed, ResizeToContents = 0, 1, 2, 3
class Plugin(Obj):
    def __init__(self, context=None): pass
class Context(object):
    def __init__(self, n=1): self.n, self.widgets = n, []
    def serial_number(self): return self.n
    def add_widget(self, w): self.widgets.append(w)
    def __getattr__(self, k): raise HarnessError("no context." + k)
class Settings(object):
    def __init__(self): self.d = {}
    def set_value(self, k, v): self.d[k] = v
    def value(self, k, default=None): return self.d.get(k, default)
    def contains(self, k): return k in self.d

KINDS = {"QComboBox": Combo, "QTableView": Table, "QLabel": Label, "QTreeView": Tree}
def loadUi(path, widget=None, *a):
    for e in ET.parse(path).getroot().iter("widget"):
        setattr(widget, e.get("name"), KINDS.get(e.get("class"), Widget)())
    return widget

class Mod(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        return Any
def mod(name, **kw): m = Mod(name); m.__dict__.update(kw); m.__path__ = []; return m
class RosPack(object):
    def get_path(self, p): return os.path.join(os.environ["VERIF_REPO"], p)
def modules():
    core = mod("python_qt_binding.QtCore", QAbstractTableModel=QAbstractTableModel, QModelIndex=QModelIndex, Qt=Qt, QTimer=QTimer, QVariant=Any, Signal=Sig, QObject=Obj, Slot=lambda *a, **k: (lambda f: f))
    wid = mod("python_qt_binding.QtWidgets", QWidget=Widget, QHeaderView=QHeaderView, QMenu=QMenu, QStyledItemDelegate=Obj)
    gui = mod("python_qt_binding.QtGui", QCursor=QCursor, QFont=QFont, QIcon=QIcon, QStandardItem=QStandardItem, QStandardItemModel=QStandardItemModel)
    b = mod("python_qt_binding", loadUi=loadUi, QtCore=core, QtWidgets=wid, QtGui=gui); plug = mod("qt_gui.plugin", Plugin=Plugin)
    return {"python_qt_binding": b, "python_qt_binding.QtCore": core, "python_qt_binding.QtWidgets": wid, "python_qt_binding.QtGui": gui, "qt_gui": mod("qt_gui", plugin=plug), "qt_gui.plugin": plug, "rospkg": mod("rospkg", RosPack=RosPack)}
