"""A simulated desktop for the user interface of PyMbs.

Stands in for PySide6 (widgets, signals, timers, event loop), for the OpenGL window of VTK and for matplotlib's Qt canvas. Everything
runs on the virtual clock of simsched: the event loop is the main task, timers fire in it, signals emitted by another task to an object
of the main task are queued as Qt does. VTK's data model (actors, matrices, renderers) is the real one; a rendered frame is a snapshot
of the matrices of the actors in the renderer."""
import inspect
import json
import os
import sys
import types

from dst import core, simsched

NS = simsched.NS
NAMES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "qtnames.json")))
UI = None


class Desktop:
    """one run: all widgets, timers and frames, and the user"""

    def __init__(self, ctx):
        global UI
        UI = self
        self.ctx = ctx
        self.widgets = []
        self.timers = []
        self.posted = []
        self.frames = []          # (time, [4x4 matrices of the actors in the scene])
        self.errors = []          # exceptions that left a slot
        self.files = []           # answers to file dialogs
        self.actions = []         # (time in ns relative to the start of the event loop, callable)
        self.quit = False
        self.running = False
        self.began = None
        self.on_frame = None
        self.loops = 0

    def call(self, fn, *args):
        try:
            return fn(*args)
        except (simsched.Killed, simsched.Deadlock, core.Stop, core.HarnessError):
            raise
        except Exception as ex:
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)
            self.errors.append((type(ex).__name__, str(ex)[:300], ["%s:%s" % (os.path.basename(f.filename), f.name) for f in tb if "/pymbs/" in f.filename][-3:]))
            ctx_log(self, tb, ex)

    def exec_(self):
        S = simsched.SCHED
        self.running = True
        if self.began is None:
            self.began = S.now
        begin = S.now
        acts = sorted(((begin + t, k, f) for k, (t, f) in enumerate(self.actions)), key=lambda x: (x[0], x[1]))
        self.actions = []
        while not self.quit:
            while self.posted:
                self.call(*self.posted.pop(0))
            due = [(t.next, 1, t.number, t) for t in self.timers if t.next is not None]
            if acts:
                due.append((acts[0][0], 0, 0, None))
            if not due:
                break
            at, _, _, timer = min(due, key=lambda x: x[:3])
            if at > S.now:
                S.sleep(at - S.now)
                if self.posted:
                    continue
            self.loops += 1
            if timer is None:
                self.call(acts.pop(0)[2])
            else:
                timer.fire()
        self.running = False
        return 0

    def of(self, cls):
        return [w for w in self.widgets if isinstance(w, cls)]


# ------------------------------------------------------------------ signals
class Bound:
    def __init__(self, owner):
        self.owner = owner
        self.slots = []

    def connect(self, slot, kind=None):
        self.slots.append((slot, kind))

    def disconnect(self, slot=None):
        if slot is None:
            self.slots = []
            return
        n = len(self.slots)
        self.slots = [s for s in self.slots if s[0] != slot]
        if len(self.slots) == n:
            raise RuntimeError("Failed to disconnect signal")

    def emit(self, *args):
        if getattr(self.owner, "_blocked", False):
            return
        for slot, kind in list(self.slots):
            if isinstance(slot, Bound):
                slot.emit(*args)
                continue
            a = args[:accepts(slot, len(args))]
            me = getattr(slot, "__self__", None)
            direct = kind is not None and "Direct" in str(kind)
            if isinstance(me, Obj) and not direct and (simsched.SCHED.cur is not simsched.SCHED.main or (kind is not None and "Queued" in str(kind))):
                UI.posted.append((slot,) + a)
            else:
                UI.call(slot, *a)


def accepts(f, n):
    try:
        p = inspect.signature(f).parameters.values()
    except (TypeError, ValueError):
        return n
    if any(x.kind == x.VAR_POSITIONAL for x in p):
        return n
    return min(n, len([x for x in p if x.kind in (x.POSITIONAL_ONLY, x.POSITIONAL_OR_KEYWORD)]))


class Signal:
    def __init__(self, *types, **kw):
        self.name = None

    def __set_name__(self, owner, name):
        self.name = "_signal_" + name

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        d = obj.__dict__
        if self.name not in d:
            d[self.name] = Bound(obj)
        return d[self.name]


def Slot(*a, **k):
    return lambda f: f


# ------------------------------------------------------------------ objects
def known(cls):
    out = cls.__dict__.get("_known")
    if out is None:
        out = set()
        for c in cls.__mro__:
            x = NAMES.get(getattr(c, "__qtname__", ""))
            while x:
                out.update(x["names"])
                x = NAMES.get(x["bases"][0]) if x["bases"] else None
        cls._known = out
    return out


def noop(*a, **k):
    return None


class Obj:
    """QObject; methods of the real class that have no meaning here do nothing"""
    __qtname__ = "QObject"
    destroyed = Signal()

    def __init__(self, *args, **kw):
        self._name = ""
        self._parent = next((a for a in args if isinstance(a, Obj)), kw.get("parent"))

    def __getattr__(self, name):
        if not name.startswith("_") and name in known(type(self)):
            return noop
        raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, name))

    def blockSignals(self, b):
        old = getattr(self, "_blocked", False)
        self._blocked = bool(b)
        return old

    def signalsBlocked(self):
        return getattr(self, "_blocked", False)

    def parent(self):
        return self._parent

    def setObjectName(self, n):
        self._name = n

    def objectName(self):
        return self._name


class Timer(Obj):
    __qtname__ = "QTimer"
    timeout = Signal()

    def __init__(self, parent=None, **kw):
        Obj.__init__(self, parent)
        self._interval = 0
        self._single = False
        self.next = None
        self.number = len(UI.timers)
        UI.timers.append(self)

    def setInterval(self, ms):
        self._interval = int(ms)
        if self.next is not None:
            self.next = simsched.SCHED.now + self._interval * 1000000

    def interval(self):
        return self._interval

    def setSingleShot(self, b):
        self._single = bool(b)

    def isSingleShot(self):
        return self._single

    def isActive(self):
        return self.next is not None

    def start(self, ms=None):
        if simsched.SCHED.cur is not simsched.SCHED.main:
            UI.ctx.count("timer started in a wrong thread")
            return                    # Qt prints a warning and does nothing
        if ms is not None:
            self._interval = int(ms)
        self.next = simsched.SCHED.now + self._interval * 1000000

    def stop(self):
        if simsched.SCHED.cur is not simsched.SCHED.main:
            UI.ctx.count("timer stopped in a wrong thread")
            return
        self.next = None

    def fire(self):
        now = simsched.SCHED.now
        if self._single:
            self.next = None
        else:
            n = self.next + max(self._interval, 1) * 1000000
            self.next = n if n > now else now + max(self._interval, 1) * 1000000
        self.timeout.emit()

    @staticmethod
    def singleShot(ms, *a):
        t = Timer()
        t.setSingleShot(True)
        t.timeout.connect(a[-1])
        t.start(ms)


class Widget(Obj):
    __qtname__ = "QWidget"

    def __init__(self, *args, **kw):
        Obj.__init__(self, *args, **kw)
        self._enabled = True
        self._visible = False
        self._title = ""
        UI.widgets.append(self)

    def setEnabled(self, b):
        self._enabled = bool(b)

    def setDisabled(self, b):
        self._enabled = not b

    def isEnabled(self):
        return self._enabled

    def setWindowTitle(self, t):
        self._title = t

    def windowTitle(self):
        return self._title

    def show(self):
        self._visible = True

    def setVisible(self, b):
        self._visible = bool(b)

    def hide(self):
        self._visible = False

    def isVisible(self):
        return self._visible

    def closeEvent(self, event):
        event.accept()

    def close(self):
        ev = Event()
        UI.call(self.closeEvent, ev)
        if ev.isAccepted():
            self._visible = False
            if isinstance(self, MainWindow):
                UI.quit = True
        return ev.isAccepted()

    def setParent(self, p):
        self._parent = p

    def setLayout(self, l):
        l._parent = self


class Event:
    def __init__(self):
        self._ok = True

    def accept(self):
        self._ok = True

    def ignore(self):
        self._ok = False

    def isAccepted(self):
        return self._ok


class Layout(Obj):
    __qtname__ = "QVBoxLayout"

    def __init__(self, *a, **k):
        Obj.__init__(self, *a, **k)
        self.items = []
        UI.widgets.append(self)

    def addWidget(self, w, *a, **k):
        if not isinstance(w, Obj):
            raise TypeError("addWidget() got %r" % (w,))
        self.items.append(w)

    def insertWidget(self, i, w, *a, **k):
        self.items.insert(i, w)

    def addRow(self, *a):
        self.items += [x for x in a if isinstance(x, Obj)]

    def addLayout(self, l, *a, **k):
        self.items.append(l)

    def count(self):
        return len(self.items)


class GridLayout(Layout):
    __qtname__ = "QGridLayout"


class FormLayout(Layout):
    __qtname__ = "QFormLayout"


class HLayout(Layout):
    __qtname__ = "QHBoxLayout"


class Button(Widget):
    __qtname__ = "QPushButton"
    clicked = Signal(bool)
    toggled = Signal(bool)
    pressed = Signal()
    released = Signal()
    _checkable = False

    def __init__(self, *args, **kw):
        Widget.__init__(self, *args, **kw)
        self._text = next((a for a in args if isinstance(a, str)), kw.get("text", ""))
        self._checked = False

    def setText(self, t):
        self._text = str(t)

    def text(self):
        return self._text

    def setCheckable(self, b):
        self._checkable = bool(b)

    def isCheckable(self):
        return self._checkable

    def isChecked(self):
        return self._checked

    def setChecked(self, b):
        if self._checkable and self._checked != bool(b):
            self._checked = bool(b)
            self.toggled.emit(self._checked)

    def toggle(self):
        self.setChecked(not self._checked)

    def click(self):
        """what the user does"""
        if not self._enabled:
            return False
        self.pressed.emit()
        if self._checkable:
            self._checked = not self._checked
            self.toggled.emit(self._checked)
        self.released.emit()
        self.clicked.emit(self._checked)
        return True


class CheckBox(Button):
    __qtname__ = "QCheckBox"
    stateChanged = Signal(int)
    _checkable = True


class Slider(Widget):
    __qtname__ = "QSlider"
    valueChanged = Signal(int)
    sliderMoved = Signal(int)
    sliderPressed = Signal()
    sliderReleased = Signal()

    def __init__(self, *args, **kw):
        Widget.__init__(self, *args, **kw)
        self._min, self._max, self._value = 0, 99, 0

    def minimum(self):
        return self._min

    def maximum(self):
        return self._max

    def value(self):
        return self._value

    def setMinimum(self, v):
        self.setRange(v, max(int(v), self._max))

    def setMaximum(self, v):
        self.setRange(min(self._min, int(v)), v)

    def setRange(self, a, b):
        self._min, self._max = int(a), max(int(a), int(b))
        self.setValue(self._value)

    def setValue(self, v):
        if isinstance(v, (str, type(None), list)):
            raise TypeError("setValue() called with wrong argument types: %s" % type(v).__name__)
        v = max(self._min, min(self._max, int(v)))
        if v != self._value:
            self._value = v
            self.valueChanged.emit(v)


class LineEdit(Widget):
    __qtname__ = "QLineEdit"
    textChanged = Signal(str)
    textEdited = Signal(str)
    editingFinished = Signal()
    returnPressed = Signal()

    def __init__(self, *args, **kw):
        Widget.__init__(self, *args, **kw)
        self._text = next((a for a in args if isinstance(a, str)), "")

    def text(self):
        return self._text

    def setText(self, t):
        if t != self._text:
            self._text = t
            self.textChanged.emit(t)


class Label(Widget):
    __qtname__ = "QLabel"

    def __init__(self, *args, **kw):
        Widget.__init__(self, *args, **kw)
        self._text = next((a for a in args if isinstance(a, str)), kw.get("text", ""))

    def text(self):
        return self._text

    def setText(self, t):
        self._text = str(t)


class ScrollArea(Widget):
    __qtname__ = "QScrollArea"


class TabWidget(Widget):
    __qtname__ = "QTabWidget"


class Dialog(Widget):
    __qtname__ = "QDialog"
    finished = Signal(int)
    accepted = Signal()
    rejected = Signal()

    def done(self, r):
        self._visible = False
        self.finished.emit(r)
        (self.accepted if r else self.rejected).emit()

    def accept(self):
        self.done(1)

    def reject(self):
        self.done(0)

    def closeEvent(self, event):
        if self._visible:
            self.reject()          # QDialog::closeEvent
        event.accept()


class MainWindow(Widget):
    __qtname__ = "QMainWindow"


class FileDialog(Dialog):
    __qtname__ = "QFileDialog"

    @staticmethod
    def getOpenFileName(*a, **k):
        return (UI.files.pop(0), "MATLAB mat-Files (*.mat)") if UI.files and UI.files[0] else (UI.files and UI.files.pop(0) or "", "")


class MessageBox(Dialog):
    __qtname__ = "QMessageBox"
    information = warning = critical = question = about = staticmethod(noop)


class Application(Obj):
    def __init__(self, argv=None):
        Obj.__init__(self)
        UI.quit = False
        Application._inst = self

    _inst = None
    lastWindowClosed = Signal()
    aboutToQuit = Signal()

    @staticmethod
    def instance():
        return Application._inst

    def exec(self):
        r = UI.exec_()
        self.aboutToQuit.emit()
        return r

    exec_ = exec

    @staticmethod
    def quit():
        UI.quit = True

    @staticmethod
    def processEvents(*a):
        while UI.posted:
            UI.call(*UI.posted.pop(0))


class Any:
    """value classes and enumerations: anything goes"""

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Any()

    def __call__(self, *a, **k):
        return Any()


class EnumNs:
    def __init__(self, path):
        self._path = path

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = EnumNs(self._path + "." + n)
        setattr(self, n, v)
        return v

    def __repr__(self):
        return self._path


class Canvas:
    """FigureCanvasQTAgg without drawing"""


def modules():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        return m

    def generic(base, name):
        return type(name, (base,), {"__qtname__": name if name in NAMES else base.__qtname__})

    class QtMod(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            if n.startswith("Q") and n[1:2].isupper():
                c = generic(Widget, n) if self.__name__.endswith("QtWidgets") else type(n, (Any,), {})
                setattr(self, n, c)
                return c
            raise ImportError("cannot import name '%s'" % n)

    W = QtMod("PySide6.QtWidgets")
    W.__dict__.update(QWidget=Widget, QTabWidget=TabWidget, QVBoxLayout=Layout, QHBoxLayout=HLayout, QGridLayout=GridLayout, QFormLayout=FormLayout, QScrollArea=ScrollArea,
                      QLabel=Label, QCheckBox=CheckBox, QLineEdit=LineEdit, QPushButton=Button, QSlider=Slider, QDialog=Dialog, QMainWindow=MainWindow, QFileDialog=FileDialog,
                      QApplication=Application, QSizePolicy=EnumNs("QSizePolicy"), QMessageBox=MessageBox)
    C = QtMod("PySide6.QtCore")
    C.__dict__.update(Qt=EnumNs("Qt"), QObject=Obj, QTimer=Timer, Signal=Signal, Slot=Slot, QMetaObject=types.SimpleNamespace(connectSlotsByName=noop))
    G = QtMod("PySide6.QtGui")
    P = mod("PySide6", QtWidgets=W, QtCore=C, QtGui=G, __version__="6", __path__=[])
    from matplotlib.backends.backend_agg import FigureCanvasAgg

    class QtCanvas(FigureCanvasAgg, Widget):
        def __init__(self, figure=None):
            Widget.__init__(self)
            FigureCanvasAgg.__init__(self, figure)

        def draw(self, *a, **k):
            UI.ctx.count("diagrams drawn")
            self.drawn = [p.get_height() for ax in self.figure.axes for p in ax.patches]

        draw_idle = draw

        def getattr_qt(self, n):
            return noop

        updateGeometry = setSizePolicy = noop

    class Toolbar(Widget):
        pass

    B = mod("matplotlib.backends.backend_qtagg", FigureCanvasQTAgg=QtCanvas, FigureCanvas=QtCanvas, NavigationToolbar2QT=Toolbar)

    class Window:
        def __init__(self):
            self.rens = []

        def AddRenderer(self, r):
            self.rens.append(r)

        def Render(self):
            snapshot(self)

        def __getattr__(self, n):
            if n[:1].isupper():
                return noop
            raise AttributeError(n)

    class Interactor(Widget):
        def __init__(self, parent=None, **kw):
            Widget.__init__(self, parent)
            self._win = Window()

        def GetRenderWindow(self):
            return self._win

        def Render(self):
            snapshot(self._win)

        def __getattr__(self, n):
            if n[:1].isupper():
                return noop
            return Widget.__getattr__(self, n)

    V = mod("vtkmodules.qt.QVTKRenderWindowInteractor", QVTKRenderWindowInteractor=Interactor)
    return {"PySide6": P, "PySide6.QtWidgets": W, "PySide6.QtCore": C, "PySide6.QtGui": G, "matplotlib.backends.backend_qtagg": B,
            "vtkmodules.qt.QVTKRenderWindowInteractor": V}


def snapshot(win):
    """a rendered frame"""
    out = []
    for r in win.rens:
        acts = r.GetActors()
        acts.InitTraversal()
        for _ in range(acts.GetNumberOfItems()):
            a = acts.GetNextActor()
            a.ComputeMatrix()
            m = a.GetMatrix()
            out.append(([[m.GetElement(i, j) for j in range(4)] for i in range(4)], a.GetMapper(), list(a.GetScale())))
    UI.frames.append((simsched.SCHED.now, out))
    if UI.on_frame:
        UI.on_frame(out)


def warm(ui=True):
    """imports the package with the simulated desktop, once per process"""
    import vtk, vtkmodules.util.colors, matplotlib.figure, scipy.io, scipy.integrate, numpy    # with the real threading
    mods = dict(simsched.fake_modules())
    mods.update(modules())
    with simsched.imported_with(mods):
        import pymbs.ui.gui, pymbs.input


# ------------------------------------------------------------------ the user's hands
def buttons(text):
    return [b for b in UI.of(Button) if b.text().strip() == text]


def click(text, n=0):
    b = buttons(text)
    return b[n].click() if len(b) > n else None


def label_of(slider):
    for l in UI.of(Layout):
        if any(x is slider for x in l.items):
            for x in l.items:
                if isinstance(x, Label):
                    return x
    return None


def sliders():
    """{name on the label: (slider, label)}"""
    out = {}
    for s in UI.of(Slider):
        l = label_of(s)
        if l is not None:
            out.setdefault(l.text().split(":")[0].strip(), (s, l))
    return out


def shown(name):
    """the value a label shows"""
    t = sliders()[name][1].text()
    return float(t.split(":")[1])


def move(name, v):
    """the user drags the handle to v in [0,1] of its way"""
    s = sliders()[name][0]
    if s.isEnabled():
        p = round(s.minimum() + v * (s.maximum() - s.minimum()))
        if p != s.value():
            s.sliderMoved.emit(p)
            s.setValue(p)


def ctx_log(ui, tb, ex):
    ui.ctx.log("exception", type(ex).__name__, ex, ["%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-4:])
