"""C10: a parameter has the innermost value bound where control is."""
from ..langprop import LangProperty


class C10(LangProperty):
    id = "C10"
    rule = ("A case is a generated program of up to three top-level forms with parameterize with plain, logging and interruptible conversions, left and re-entered by jumps, exceptions and thread switches, with control operations injected at seeded points and seeded collections. "
            "Every logged event must be the one a reference interpreter produces. Non-trivial: at least one of the operations the property is about took place.")
    weights = {"param": 5, "getp": 5, "resume": 2, "throw": 2, "callcc": 2}
    counted = ("throws", "raises")


PROPERTY = C10()
