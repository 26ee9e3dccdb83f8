"""C18: leaving the process."""
from .. import lang
from ..common import *
from ..harness import Boot, Violation
from ..langprop import LangProperty

# everything that is logged goes to a file and to the terminal too, and is not flushed
SETUP = ['(define journal (open-output-file "/sim/journal"))', "(define record sim-log)",
         "(define (sim-log x) (record x) (write x journal) (newline journal) (write x) (newline))"]


class C18(LangProperty):
    id = "C18"
    weights = {"wind": 6, "exit": 1.5, "callcc": 1.5, "guard": 1.5, "weh": 1.5, "param": 1}
    actions = ("exit", "exit", "exit", "emergency", "raise", "error", "kernel", "resume", "capture")
    counted = ("exits",)
    teardown = True
    preceding = len(SETUP)
    runs = {"quick": 5000, "thorough": 150000}
    rule = ("A case is a generated program of nested dynamic-winds, continuations, handlers, parameters and promises that leaves the process with exit or emergency-exit somewhere, also from before and after thunks and handlers, with unflushed data in a file and on the terminal, "
            "under seeded short writes and collections. The events must be those of a reference interpreter, the status the one given, and the file and the terminal must have every datum. Non-trivial: the process was left by one of the procedures.")

    def scenario(self, rng, tier):
        s = super().scenario(rng, tier)
        s["wchunks"] = random_chunks(rng)
        s["eintr"] = sorted({rng.randint(0, 3) for _ in range(rng.choice([0, 0, 1]))})
        return s

    def simplify(self, s):
        if s["wchunks"]: yield {**s, "wchunks": []}
        if s["eintr"]: yield {**s, "eintr": []}
        yield from super().simplify(s)

    def plans(self, s):
        [(boot, text)] = super().plans(s)
        chunks = " ".join(map(str, s["wchunks"]))
        faults = f"wchunk /sim/journal {chunks}\nwchunk /sim/dev/stdout {chunks}\n" if chunks else ""
        faults += "".join(f"fault write /sim/journal {n} EINTR\n" for n in s["eintr"])
        return [(boot, faults + "teardown\n" + forms(*SETUP) + text)]

    def judge(self, s, logs, ctx):
        super().judge(s, logs, ctx)
        lines = "".join(x + "\n" for x in logs[0].logs).encode()
        for where, data in (("file", logs[0].files.get("/sim/journal")), ("terminal", logs[0].out)):
            if data != lines: raise Violation("lost", f"the {where} has {data!r}, written were {lines!r}")


PROPERTY = C18()
