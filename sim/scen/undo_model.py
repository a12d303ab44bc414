"""Reference model and workload shared by the undo scenarios (C05-C07).

The document is a vector of registers.  An action overwrites one register and
its undo writes the old value back.  The reference keeps the history as plain
lists, so every observable of the stack follows from it.
"""
from ..core import Injected, InjectedBase

NREG = 4


class Boom(Injected):
    pass


class BoomBase(InjectedBase):
    pass


EXC = {"E": Boom, "B": BoomBase, "K": KeyError, "S": RuntimeError}


class MAct:
    """Model of one action."""
    group = False

    def __init__(self, reg, val, text, rets):
        self.reg, self.val, self.text, self.rets = reg, val, text, rets
        self.old = None
        self.text_once = False
        self.fail_redo = 0      # remaining failing redos
        self.fail_undo = 0

    def do(self, regs):
        self.old = regs[self.reg]
        regs[self.reg] = self.val

    def undo(self, regs):
        if self.fail_undo:
            raise ModelFail()
        regs[self.reg] = self.old

    def redo(self, regs):
        if self.fail_redo:
            raise ModelFail()
        if self.text_once:
            self.text = ""
        self.do(regs)

    def label(self):
        return self.text


class MGroup:
    group = True

    def __init__(self, desc):
        self.desc = desc
        self.items = []

    def undo(self, regs):
        for a in reversed(self.items):
            a.undo(regs)

    def redo(self, regs):
        for a in self.items:
            a.redo(regs)

    def label(self):
        return self.desc.replace("{count}", str(len(self.items)))


class ModelFail(Exception):
    pass


class MStack:
    """Reference history."""

    def __init__(self):
        self.undos, self.redos = [], []
        self.recording = True
        self.groups = []
        self.saved = None        # None: no savepoint; else (top item or 0)
        self.n_do = self.n_undo = 0

    def top(self):
        return self.undos[-1] if self.undos else 0

    def record(self, item):
        """True when the action reaches the history proper."""
        if self.groups:
            self.groups[-1].items.append(item)
            return False
        if not self.recording:
            return False
        self.undos.append(item)
        self.redos.clear()
        self.n_do += 1
        return True

    def haschanged(self):
        return self.saved is None or self.saved is not self.top()

    def clear(self):
        self.undos.clear()
        self.redos.clear()
        self.saved = None


TEXTS = ["", "Alpha", "Beta move", " padded ", "x{y}"]


def make_undoable(undo_mod, document, shadow, fail):
    """The action under test.  `fail` maps uid -> fault directives."""

    @undo_mod.undoable
    def plain(uid, reg, val, text, style, nested, doc=None):
        regs = document if doc is None else doc
        f = fail.get(uid, {})
        if f.get("do"):
            e = f.pop("do")
            f["fired"] = f.get("fired", 0) + 1
            raise EXC[e]("do %d" % uid)
        if f.get("armed_redo"):
            f["fired"] = f.get("fired", 0) + 1
            raise EXC[f["armed_redo"]]("redo %d" % uid)
        old = regs[reg]
        regs[reg] = val
        if style == 0:
            yield
        elif style == 1:
            yield text
        elif style == 4:
            yield (text,)
        elif style == 5:
            # the description is given only the first time it is done
            f["done"] = f.get("done", 0) + 1
            if f["done"] == 1:
                yield text
            else:
                yield
        elif style == 2:
            yield text, ("ret", uid)
        else:
            yield text, ("a", uid), ("b", uid)
        if f.get("armed_undo"):
            f["fired"] = f.get("fired", 0) + 1
            raise EXC[f["armed_undo"]]("undo %d" % uid)
        if nested:
            # an undo body that is itself written with undoable calls
            side(reg, old)
        else:
            regs[reg] = old

    @undo_mod.undoable
    def side(reg, val):
        old = document[reg]
        document[reg] = val
        yield "side"
        document[reg] = old

    return plain
