"""C11: exceptions reach the right handler, with the right handlers installed."""
from ..langprop import LangProperty


class C11(LangProperty):
    id = "C11"
    rule = ("A case is a generated program of up to three top-level forms with nested handlers and guards, raise, raise-continuable, error and five kinds of failing primitives, with control operations injected at seeded points and seeded collections. "
            "Every logged event must be the one a reference interpreter produces. Non-trivial: at least one of the operations the property is about took place.")
    weights = {"weh": 4, "guard": 4, "raise": 3, "raisec": 3, "err": 1, "kerr": 1.5}
    actions = ("raise", "raisec", "error", "kernel", "call", "resume", "capture")
    counted = ("raises",)


PROPERTY = C11()
