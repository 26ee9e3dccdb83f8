"""C08: dynamic extents are entered and left exactly once each, in order, however control moves."""
from ..langprop import LangProperty


class C08(LangProperty):
    id = "C08"
    weights = {"wind": 6, "callcc": 2, "resume": 2, "throw": 2}
    counted = ("unwound", "rewound")
    rule = ("A case is a generated program of nested dynamic-winds, continuations, handlers, parameters and promises (up to three top-level forms, which may re-enter each other's continuations), with control operations injected at seeded points "
            "(also inside before and after thunks) and seeded collections. Every logged event must be the one a reference interpreter produces. Non-trivial: a jump left or entered an extent.")


PROPERTY = C08()
