"""C09: a continuation resumes exactly the rest of its computation, any number of times."""
from ..langprop import LangProperty


class C09(LangProperty):
    id = "C09"
    rule = ("A case is a generated program of up to three top-level forms with continuations kept, re-entered and used as threads by a seeded scheduler, with control operations injected at seeded points and seeded collections. "
            "Every logged event must be the one a reference interpreter produces. Non-trivial: at least one of the operations the property is about took place.")
    weights = {"callcc": 5, "resume": 5, "throw": 3, "set": 2, "fn": 2}
    actions = ("resume", "resume", "capture", "capture", "capture", "raise")
    threads = 0.5
    counted = ("throws",)


PROPERTY = C09()
