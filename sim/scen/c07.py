"""C07: several stacks switched by the application, groups spanning a switch."""
from . import c05


class C07(c05.C05):
    ID = "C07"
    FAULTS = True
    STACKS = 3
    RULE = ("histories over three documents' stacks interleaved by setstack, also inside open groups, with failing user "
            "code; non-trivial = at least 3 operations and one switch")

    def nontrivial(self, plan, ctx):
        return ctx.probes.get("switched", 0) > 3 and len(plan["ops"]) >= 3


SCENARIO = C07()
