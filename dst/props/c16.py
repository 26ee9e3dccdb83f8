"""C16: a promise is computed at most once to completion and keeps its first value."""
from ..langprop import LangProperty


class C16(LangProperty):
    id = "C16"
    rule = ("A case is a generated program of up to three top-level forms with delay, delay-force, make-promise and chains of promises, forced repeatedly and interrupted, with control operations injected at seeded points and seeded collections. "
            "Every logged event must be the one a reference interpreter produces. Non-trivial: at least one of the operations the property is about took place.")
    weights = {"delay": 5, "force": 6}
    counted = ("forced",)


PROPERTY = C16()
