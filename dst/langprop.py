"""Properties decided by the reference interpreter of lang.py."""
from . import lang
from .common import *
from .harness import Boot, Property, Violation, crash_check


class LangProperty(Property):
    shrink = ("schedule", "forms")
    weights = {}
    actions = ("raise", "raisec", "error", "kernel", "call", "resume", "resume", "capture", "capture")
    counted = ()                # reference counters of which one at least must be positive for a run to count
    measure = "distinct (collector decision, I/O outcome) histories and programs with their schedule"
    runs = {"quick": 7000, "thorough": 150000}
    wall = {"quick": 40, "thorough": 900}
    tick_span = 25
    threads = 0.25
    teardown = False            # whether the process is always left as the real program does
    preceding = 0               # forms of the property's own before the runtime of the language

    def scenario(self, rng, tier):
        weights = {**lang.BASE, **self.weights}
        while True:
            g = lang.Generator(rng, weights, rng.choice([10, 25, 50, 90]))
            forms = []
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                threads = rng.random() < self.threads
                f = g.threads(rng.choice([2, 3, 4, 5]), rng.choice([2, 5, 10])) if threads else g.expr(rng.choice([3, 4, 5, 6, 7]), [])
                if rng.random() < 0.5:
                    f = g.protected(f)
                elif threads and rng.random() < 0.5: # every step on its own
                    f = f[:1] + [g.protected(x) for x in f[1:]]
                forms.append(f)
            schedule = []
            for t in sorted(rng.sample(range(1, self.tick_span), rng.choice([0, 1, 2, 4, 7]))):
                a = rng.choice(self.actions)
                schedule.append([t, a] + ([rng.randrange(4)] if a in ("resume", "capture") else [rng.choice([0, 1, 3, 200])] if a in ("exit", "emergency") else []))
            s = {"forms": forms, "schedule": schedule, "fuel": rng.choice([0, 2, 5, 12, 30]) + (30 if any("resume" in str(f) for f in forms) and rng.random() < 0.7 else 0), "gc": random_gc(rng, 3000, heavy=0.25, cost=4), "place": random_place(rng)}
            if self.valid(s) and self.relevant(s): return s

    def relevant(self, s):
        m, _ = lang.reference(s)
        return len(m.log) > 1 and (not self.counted or any(m.counts[c] for c in self.counted))

    def valid(self, s):
        try:
            if not all(lang.closed(f) for f in s["forms"]): return False
            lang.reference(s)
            return True
        except (lang.Budget, KeyError, TypeError, AttributeError, IndexError):
            return False

    def simplify(self, s):
        if s["gc"] != "gc off": yield {**s, "gc": "gc off"}
        if s["place"] != "place lifo": yield {**s, "place": "place lifo"}
        if s["fuel"]: yield {**s, "fuel": s["fuel"] - 1}
        for i, f in enumerate(s["forms"]):
            for x in lang.simpler(f):
                yield {**s, "forms": s["forms"][:i] + [x] + s["forms"][i + 1:]}
        for i, a in enumerate(s["schedule"]):
            if a[0] > 1: yield {**s, "schedule": s["schedule"][:i] + [[a[0] - 1] + a[1:]] + s["schedule"][i + 1:]}

    def boot(self, s):
        return Boot("lite")

    def plans(self, s):
        setup, forms_ = lang.program(s)
        return [(self.boot(s), "cpu 20\nsteps 3000000\nfile /sim/exists 31\n" + forms(*lang.RUNTIME, *setup, "(set! ticks 0)", "(sim-log (quote begin))")
                 + s["place"] + "\n" + s["gc"] + "\n" + forms(*forms_))]

    def judge(self, s, logs, ctx):
        log = logs[0]
        crash_check(log)
        m, ends = lang.reference(s)
        if log.end != ("exit" if isinstance(ends[-1], tuple) or self.teardown else "done"):
            raise Violation("stopped", f"the run ended with {log.end}, although the reference finishes")
        got = log.logs[log.logs.index("begin") + 1:] if "begin" in log.logs else []
        for i, (x, y) in enumerate(zip(m.log + ["(end)"], got + ["(end)"])):
            if x != y:
                raise Violation("differs", f"event {i}: expected {x}, got {y}; before: {' '.join(m.log[max(0, i - 6):i])}")
        base = self.preceding + len(lang.RUNTIME) + 4
        for i, ok in enumerate(ends):
            r = log.results.get(base + i)
            if isinstance(ok, tuple):
                if r != ("R", f"#<exit {ok[1]}>"): raise Violation("status", f"form {i} leaves the process with {ok[1]}, got {r}")
                continue
            if ok and (r is None or r[0] != "R"):
                raise Violation("end", f"form {i} ended with {r}")
            if not ok and (r is None or r[0] != "E"):
                raise Violation("end", f"form {i} did not report the uncaught exception: {r}")
        for c, n in m.counts.items(): ctx.probe(c, n)
        ctx.probe("events", len(m.log))

    def nontrivial(self, s, logs):
        m, _ = lang.reference(s)
        return any(m.counts[c] for c in self.counted)
