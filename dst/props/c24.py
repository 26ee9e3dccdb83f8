"""C24: text goes to, and comes from, the port that is current where control is."""
from .. import lang
from ..common import *
from ..harness import Boot, Violation
from ..langprop import LangProperty


def string(text):
    return '"' + text.replace("\n", "\\n") + '"'


class C24(LangProperty):
    id = "C24"
    weights = {"redirect": 6, "say": 4, "hear": 0.0, "callcc": 2, "throw": 2, "resume": 2, "guard": 1.5, "weh": 1, "param": 1}
    counted = ("redirected",)
    preceding = len(lang.PORTS) + 2
    runs = {"quick": 5000, "thorough": 150000}
    rule = ("A case is a generated program that redirects the current input, output and error ports to strings and files, with nested redirections that are left and entered again by jumps, exceptions, handlers and thread switches, and that reads and writes without naming a port, under seeded short and interrupted writes and collections. "
            "The events and results must be those of a reference interpreter, and every string, file, and the terminal must have exactly what was written while it was current, in order. Non-trivial: a port was redirected.")

    def scenario(self, rng, tier):
        inputs = ["".join(rng.choice(["7", "12", "345", "9", "80"]) + rng.choice([" ", " ", "\n", "  ", "\n\n"]) for _ in range(rng.choice([0, 1, 3, 8, 20]))) for _ in range(3)]
        self.inputs = inputs
        s = super().scenario(rng, tier)
        s["wchunks"] = random_chunks(rng)
        s["rchunks"] = random_chunks(rng)
        return s

    def relevant(self, s):
        s["inputs"] = self.inputs
        m, _ = lang.reference(s)
        return len(m.log) > 1 and len(m.files) < 100 and m.counts["redirected"] and any(p.text for p in self.sinks(m))

    def sinks(self, m):
        return m.files + [p for p in m.ports.values() if isinstance(p, lang.Sink)]

    def valid(self, s):
        return super().valid({"inputs": self.inputs, **s} if "inputs" not in s else s)

    def simplify(self, s):
        for key in ("wchunks", "rchunks"):
            if s[key]: yield {**s, key: []}
        for i, t in enumerate(s["inputs"]):
            if t: yield {**s, "inputs": s["inputs"][:i] + [""] + s["inputs"][i + 1:]}
        yield from super().simplify(s)

    def plans(self, s):
        [(boot, text)] = super().plans(s)
        faults = "maxfd 200\nstdin " + hexed(s["inputs"][2]) + "\n"
        if s["rchunks"]: faults += "rchunk /sim/dev/stdin " + " ".join(map(str, s["rchunks"])) + "\n"
        for f in ("dev/stdout", "dev/stderr", *(f"home/f{n}" for n in range(1, 9))):
            if s["wchunks"]: faults += f"wchunk /sim/{f} " + " ".join(map(str, s["wchunks"])) + "\n"
        return [(boot, faults + forms(*lang.PORTS, *(f"(define in{i} (open-input-string {string(s['inputs'][i])}))" for i in range(2))) + text
                 + forms("(for-each (lambda (p) (if (output-port-open? p) (flush-output-port p))) kept)", "(flush-output-port)",
                         "(for-each (lambda (name p) (sim-log (cons name (map char->integer (string->list (get-output-string p)))))) '(out0 out1 error0) (list out0 out1 error0))"))]

    def judge(self, s, logs, ctx):
        log = logs[0]
        m, ends = lang.reference(s)
        names, contents = ("(out0", "(out1", "(error0"), {}
        for line in log.logs[-3:]:
            w = line.strip(")").split(" ")
            if w[0] in names: contents[w[0][1:]] = "".join(chr(int(x)) for x in w[1:])
        if len(contents) == 3: log.logs = log.logs[:-3]
        super().judge(s, logs, ctx)
        if isinstance(ends[-1], tuple): return
        for p in self.sinks(m):
            got = (contents.get(p.name) if p.name in ("out0", "out1", "error0") else (log.out if p.name == "terminal" else log.err if p.name == "error terminal" else log.files.get("/sim/home/" + p.name, b"")).decode())
            if p.name == "error terminal" and not all(x is True for x in ends): continue # uncaught exceptions are reported there
            if got != p.text: raise Violation("text", f"{p.name} has {got!r}, written to it were {p.text!r}")


PROPERTY = C24()
