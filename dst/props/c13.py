"""C13: what the clock tells."""
import re
from ..common import *
from ..harness import Boot, Property, Violation, crash_check


class C13(Property):
    id = "C13"
    shrink = ("ops",)
    runs = {"quick": 4000, "thorough": 200000}
    wall = {"quick": 45, "thorough": 900}
    rule = ("A case is up to 40 readings of the clock (jiffies, seconds, deadlines awaited) between seeded advances from a nanosecond to years, under a clock that stands still, ticks with every reading, or stalls and leaps; "
            "also steps of the wall clock, after which seconds are read. Non-trivial: time passed between two readings.")
    assumptions = ["the simulated clock is the C library's clock_gettime, gettimeofday and time"]

    def scenario(self, rng, tier):
        k = rng.random()
        ticks = [0] if k < 0.3 else [rng.choice([1, 7, 100, 1000, 10**6])] if k < 0.6 else [rng.choice([0, 0, 1, 50, 10**4, 10**9, 3600 * 10**9]) for _ in range(rng.randint(2, 9))]
        ops = []
        for _ in range(rng.choice([4, 10, 25, 40])):
            op = rng.choice(["jiffy", "jiffy", "second", "advance", "advance", "per-second", "elapsed", "deadline"])
            n = rng.choice([1, 2, 999, 10**3, 10**6, 10**9, 86400 * 10**9, 10**9 * rng.randint(1, 10**7), rng.randint(1, 10**12)])
            ops.append([op, n])
        steps = [-rng.choice([1, 10**6, 10**9, 3600 * 10**9, 10**15, rng.randint(1, 10**17)]) for _ in range(rng.choice([0, 0, 1, 2]))]
        return {"now": rng.choice([0, 1, 10**9, 1700000000 * 10**9, 2 * 10**18, (1 << 53) - 5, 2**61, rng.randint(0, 3 * 10**18)]) + (2 * 10**17 if steps else 0), "ticks": ticks, "ops": ops, "steps": steps,
                "gc": random_gc(rng, 2000), "place": random_place(rng)}

    def simplify(self, s):
        for key, value in (("gc", "gc off"), ("place", "place lifo"), ("steps", []), ("ticks", [0])):
            if s[key] != value:
                yield {**s, key: value}

    def plans(self, s):
        text = f"cpu 20\nsteps 5000000\nclock {s['now']} " + " ".join(map(str, s["ticks"])) + "\n" + prelude()
        text += forms("(define (bits x) (enc (exact x)))", "(define per (jiffies-per-second))", "(define start (current-jiffy))",
                      "(define (await n) (let ((end (+ (current-jiffy) n))) (let loop ((i 1)) (let ((now (current-jiffy))) (if (< now end) (loop (+ i 1)) (list i (- now end)))))))")
        text += s["place"] + "\n" + s["gc"] + "\n"
        for op, n in s["ops"]:
            text += forms({"jiffy": "(enc (current-jiffy))", "second": "(bits (current-second))", "per-second": "(enc (jiffies-per-second))", "elapsed": "(bits (/ (- (current-jiffy) start) per))",
                           "advance": f"(sim-clock-advance! {n})", "step": f"(sim-clock-advance! {n})", "deadline": f"(enc (await {self.wait(s, n)}))"}[op])
        for n in s["steps"]:
            text += forms(f"(sim-clock-advance! {n})", "(bits (current-second))")
        return [(Boot(), text)]

    def wait(self, s, n):
        """How long to wait for: at most 300 readings of the clock."""
        per = sum(s["ticks"]) / len(s["ticks"])
        return min(n, int(per * 300)) if per else 0

    def judge(self, s, logs, ctx):
        log = logs[0]
        crash_check(log)
        if log.end != "done":
            raise Violation("stopped", f"the run ended with {log.end}")
        base = len(PRELUDE) + 4
        # What each reading may be: time moves only by ticks of readings and advances; how many times a procedure
        # reads the clock is its own affair, so the window is bounded by the readings counted in the whole run.
        reads = log.count("Q.clockreads")
        slack = max(s["ticks"]) * (reads + 1)
        still = slack == 0
        low = s["now"]
        previous = None
        per = None
        advanced = 0
        since = None # nanoseconds surely passed since the last reading of jiffies

        def at(n):
            got = log.results.get(n)
            if got is None or got[0] != "R":
                raise Violation("error", f"reading {n - base}: {got}")
            return got[1]

        def fraction(text):
            from fractions import Fraction
            return Fraction(text)

        for n, (op, k) in enumerate(s["ops"]):
            got = at(base + n)
            where = f"reading {n} ({op})"
            if op == "step": # of the wall clock; see the findings
                low += k
                continue
            if op == "advance":
                low += k
                advanced += k
                if since is not None: since += k
                continue
            if op == "deadline":
                m = re.fullmatch(r"\(p (\d+) \(p (-?\d+) \(\)\)\)", got)
                if not m: raise Violation("deadline", f"{where}: {got}")
                if int(m[2]) < 0: raise Violation("deadline", f"{where}: it ended {-int(m[2])} jiffies early")
                if int(m[2]) > max(s["ticks"]) * 8: raise Violation("deadline", f"{where}: it ended {m[2]} jiffies late")
                low += self.wait(s, k)
                previous = since = None
                ctx.probe("deadlines")
                continue
            if not re.fullmatch(r"-?\d+(/\d+)?", got):
                raise Violation("type", f"{where}: {got}")
            x = fraction(got)
            if op == "per-second":
                if per not in (None, x) or x <= 0: raise Violation("per-second", f"{where}: {x} after {per}")
                per = x
            if op == "jiffy":
                if x.denominator != 1: raise Violation("type", f"{where}: {got}")
                if previous is not None and x < previous + since:
                    raise Violation("backwards", f"{where}: {x} jiffies after {previous}, although {since} have passed")
                if previous is not None and still and x != previous + since:
                    raise Violation("leap", f"{where}: {x} jiffies after {previous}, although only {since} have passed")
                if previous is not None and x > previous + since + slack:
                    raise Violation("leap", f"{where}: {x} jiffies after {previous}, although at most {since + slack} have passed")
                previous, since = x, 0
                ctx.probe("jiffies")
            if op == "second":
                if not (low - abs(low) * 2**-51 - 1 <= x * 10**9 <= low + slack + abs(low + slack) * 2**-51 + 1):
                    raise Violation("second", f"{where}: {float(x)!r}, the clock is between {low} and {low + slack} ns")
                ctx.probe("seconds")
            if op == "elapsed":
                if not advanced <= x * 10**9 <= low - s["now"] + slack:
                    raise Violation("elapsed", f"{where}: {x} seconds, {advanced} ns have passed")
        for n, k in enumerate(s["steps"]):
            low += k
            x = fraction(at(base + len(s["ops"]) + 2 * n + 1))
            if not (low - abs(low) * 2**-51 - 1 <= x * 10**9 <= low + slack + abs(low + slack) * 2**-51 + 1):
                raise Violation("second", f"after a step of {k} ns: {float(x)!r}, the clock is between {low} and {low + slack} ns")
            ctx.probe("steps of the wall clock")

    def simulated_seconds(self, s, logs):
        return sum(n for op, n in s["ops"] if op == "advance") / 1e9

    def nontrivial(self, s, logs):
        return any(op == "advance" for op, _ in s["ops"]) or any(s["ticks"])


PROPERTY = C13()
