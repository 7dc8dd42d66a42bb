"""Modules of the graphical front end, taken from the tree under test without its display libraries."""
import importlib.util
import os
import sys
import types

sys.dont_write_bytecode = True
GUI = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "pairinteraction_gui")


def module(name, path=None, **stubs):
    for k, v in stubs.items():
        sys.modules[k.replace("__", ".")] = v
    spec = importlib.util.spec_from_file_location(name, os.path.join(GUI, path or name + ".py"))
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


class Signal:
    """A bound signal: calls its receivers at once"""

    def __init__(self):
        self.slots = []

    def connect(self, f):
        self.slots.append(f)

    def emit(self, *a):
        for f in self.slots:
            f(*a)


class PyqtSignal:
    """pyqtSignal: works on instances of QObject only, as in PyQt"""

    def __init__(self, *types):
        pass

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        if not isinstance(obj, QObject):
            raise TypeError(f"{type(obj).__name__} cannot be converted to QObject in this context")
        return obj.__dict__.setdefault(" signal " + self.name, Signal())


class QObject:
    def __init__(self, parent=None):
        pass


class QThread(QObject):
    """Runs in a thread of its own; an exception that leaves run() is kept (PyQt ends the program)"""

    def __init__(self, parent=None):
        super().__init__(parent)
        self.thread = None
        self.fatal = None

    def start(self):
        import threading

        def body():
            try:
                self.run()
            except BaseException as x:  # noqa
                self.fatal = x
        self.thread = threading.Thread(target=body, daemon=True)
        self.thread.start()

    def wait(self, timeout=None):
        if self.thread is not None:
            self.thread.join(30)
            return not self.thread.is_alive()
        return True

    def isRunning(self):
        return self.thread is not None and self.thread.is_alive()

    def terminate(self):
        pass


def qt():
    """Stand-ins for the few parts of PyQt5 the modules under test need"""
    core = types.ModuleType("PyQt5.QtCore")
    core.QThread, core.QObject, core.pyqtSignal = QThread, QObject, PyqtSignal
    core.pyqtSlot = lambda *a, **k: (lambda f: f)
    sip = types.ModuleType("PyQt5.sip")
    sip.isdeleted = lambda x: False
    top = types.ModuleType("PyQt5")
    top.QtCore, top.sip = core, sip
    sys.modules.update({"PyQt5": top, "PyQt5.QtCore": core, "PyQt5.sip": sip, "sip": sip})
    return top
