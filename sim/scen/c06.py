"""C06: failing user code inside the undo system."""
from . import c05


class C06(c05.C05):
    ID = "C06"
    FAULTS = True
    RULE = ("random histories with exceptions injected into the do, redo and undo parts of actions, group bodies (at any "
            "position, nested) and the two callbacks; non-trivial = at least one injected failure fired")


SCENARIO = C06()
