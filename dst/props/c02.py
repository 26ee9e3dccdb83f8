"""C02: what a program can no longer reach is reclaimed: objects, memory and descriptors."""
from ..common import *
from ..harness import Boot, Property, Violation, crash_check
from .c01 import DEFINITIONS, Gen


class Work(Gen):
    """Computations that keep nothing: no fresh symbols, and no cycles through vectors (see the findings)."""

    def sym(self, d, env):
        return self.leaf("sym", env)


PORTS = {
    "input": '(let ((p (open-input-file "home/in"))) (read-char p) {})',
    "binary-input": '(let ((p (open-binary-input-file "home/in"))) (read-u8 p) {})',
    "output": '(let ((p (open-output-file "home/out{n}"))) (write-string "text{n}" p) {})',
    "binary-output": '(let ((p (open-binary-output-file "home/out{n}"))) (write-bytevector (string->utf8 "text{n}") p) {})',
}


BULK = ["(list i i)", "(lambda () i)", "(+ i 0.5)", "(* 123456789012345678901234567890 (+ i 1))", "(/ (+ i 1) 7)", "(vector i (list i))", "(string #\\a #\\b)", "(make-bytevector 8 1)", "(call/cc (lambda (k) k))", "(delay i)",
        "(guard (e (#t e)) (raise (list i)))", "(guard (e (#t e)) (quotient i 0))", "(let ((c (list i i))) (set-cdr! (cdr c) c) c)", "(let ((p (open-output-string))) (write i p) (get-output-string p))", "(read (open-input-string \"(1 (2 #(3)) \\\"4\\\")\"))",
        "(parameterize ((parameter i)) (parameter))", "(dynamic-wind (lambda () #f) (lambda () (list i)) (lambda () #f))", "(string-append \"a\" (number->string i))", "(map (lambda (x) (+ x i)) '(1 2 3))"]


# Garbage that refers to itself.
KNOTS = ["(let ((c (make-list {n} 0))) (set-cdr! (list-tail c (- {n} 1)) c) 0)", "(letrec ((f (lambda () g)) (g (lambda () f))) 0)", "(letrec ((p (delay (force p)))) 0)", "(make-parameter {n})", "(let ((k #f)) (call/cc (lambda (c) (set! k c))) 0)",
         "(let ((c (list 1))) (set-car! c c) 0)", "(let* ((a (list 1 2)) (b (list a a))) (set-car! a b) 0)", "(make-string {m} #\\a)", "(make-bytevector {m} 1)", "(make-vector {n} 1)"]


class C02(Property):
    id = "C02"
    shrink = ("work", "ports")
    runs = {"quick": 350, "thorough": 40000}
    wall = {"quick": 45, "thorough": 900}
    rule = ("A case is a generated computation whose result is dropped, repeated under a seeded collector schedule: after collecting, no repetition may leave more objects than those before it did. Ports are opened and dropped in seeded ways "
            "(unreachable, left by an exception or an escape, inside a reachable object); after collecting, the descriptors of exactly those not reachable must be closed and their output must be on the disk. In some cases hundreds of megabytes of garbage are made with collections where the collector wants them, and the bytes in use must stay bounded. Non-trivial: something had to be reclaimed.")
    assumptions = ["interned symbols, top-level bindings and compiled macros are reachable"]

    def scenario(self, rng, tier):
        if rng.random() < 0.05:
            return {"bulk": rng.sample(BULK, rng.choice([1, 2, 4])), "live": rng.choice([0, 1000, 100000]), "work": [], "ports": [], "place": rng.choice(["place lifo", "place fifo"])}
        work = []
        for _ in range(rng.choice([1, 2, 3])):
            g = Work(rng)
            work.append(g(g.any(), rng.choice([2, 3, 4]), []))
        knots = [rng.choice(KNOTS).format(n=rng.choice([1, 2, 3, 10, 40, 100]), m=rng.choice([16, 100, 1000, 5000, 70000, 600000])) for _ in range(rng.choice([0, 0, 10, 40, 80]))]
        if knots:
            return {"work": work[:1], "knots": knots, "ports": [], "repeat": rng.choice([1, 2, 5]), "gc": random_gc(rng, 6000, heavy=0.6, cost=12), "place": f"place sparse {rng.randrange(1 << 30)}" if rng.random() < 0.6 else random_place(rng)}
        ports = []
        for n in range(rng.choice([0, 1, 3, 6])):
            ports.append([rng.choice(sorted(PORTS)), rng.choice(["drop", "drop", "keep", "raise", "escape", "pair", "closure", "close"]), n])
        return {"work": work, "ports": ports, "repeat": rng.choice([1, 2, 5]), "gc": random_gc(rng, 6000, heavy=0.6, cost=12), "place": random_place(rng)}

    def simplify(self, s):
        if "bulk" in s:
            for i in range(len(s["bulk"])):
                if len(s["bulk"]) > 1: yield {**s, "bulk": s["bulk"][:i] + s["bulk"][i + 1:]}
            if s["live"]: yield {**s, "live": 0}
            if s["place"] != "place lifo": yield {**s, "place": "place lifo"}
            return
        if s["gc"] != "gc off": yield {**s, "gc": "gc off"}
        if s["place"] != "place lifo": yield {**s, "place": "place lifo"}
        if s["repeat"] > 1: yield {**s, "repeat": 1}
        for i in range(len(s.get("knots", []))):
            yield {**s, "knots": s["knots"][:i] + s["knots"][i + 1:]}

    SETTLE = "(begin (sim-collect) (sim-collect) (sim-collect) (sim-collect) (sim-collect) (sim-collect))"

    def bulk(self, s):
        """Garbage by the hundred megabytes, with collections where the collector itself wants them."""
        text = s["place"] + "\ngc off\ncpu 100\nsteps 60000000\n" + prelude() + forms("(define parameter (make-parameter 0))", f"(define kept (make-list {s['live']} 0))",
            "(define peak 0)", "(define (bulk) (let ((end (+ (sim-requests) 600000))) (set! peak 0) (let loop ((i 0) (x '())) (if (< peak (sim-bytes)) (set! peak (sim-bytes))) (if (< (sim-requests) end) (loop (+ i 1) (list " + " ".join(s["bulk"]) + ")) 0))))",
            "(sim-log (list 'base (sim-bytes)))") + "gc usual\n"
        for _ in range(20): text += forms("(begin (bulk) (sim-log (list 'bytes peak)))")
        return [(Boot("lite"), text)]

    def plans(self, s):
        if "bulk" in s: return self.bulk(s)
        text = "cpu 60\nsteps 6000000\nfile /sim/home/in 313233\n" + prelude() + forms(*DEFINITIONS, "(define kept '())", "(define (settle) %s)" % self.SETTLE)
        if not s.get("knots"): text += s["place"] + "\n"
        body = "".join(f"(work{i})" for i in range(len(s["work"])))
        for i, w in enumerate(s["work"]):
            text += forms(f"(define (work{i}) {w} 0)")
        text += forms("(define (repeat n) (if (< 0 n) (begin " + body + " (set! table '()) (set! global 0) (repeat (- n 1)))))")
        if s.get("knots"): text += forms("(define (knot) " + " ".join(s["knots"]) + " 0)") # made where the placement puts them, in the third phase and later
        text += forms(f"(define (phase) (repeat {s['repeat']}) {'(knot) ' if s.get('knots') else ''}(settle) (sim-log (list 'live (sim-live) (sim-bytes))))")
        text += forms("(phase)", "(phase)") + (s["place"] + "\n" if s.get("knots") else "") + s["gc"] + "\n" + forms("(phase)") + "gc off\n" + forms("(phase)", "(phase)", "(phase)", "(phase)")
        for kind, how, n in s["ports"]:
            use = {"drop": "0", "keep": "(set! kept (cons p kept))", "raise": "(raise 'gone)", "escape": "(return 0)", "pair": "(let ((c (list p p))) (set-cdr! (cdr c) c) 0)",
                   "closure": "(letrec ((f (lambda () (f p)))) 0)", "close": "(close-port p)"}[how]
            e = PORTS[kind].format(use, n=n) if "{n}" in PORTS[kind] else PORTS[kind].format(use)
            text += s["gc"].replace("window ", "window ") + "\n" + forms(f"(call/cc (lambda (return) (guard (x (#t 0)) {e})))") + "gc off\n"
        text += forms("(settle)", "(sim-log (list 'descriptors (sim-descriptors)))", "(sim-disk 'ports)", "(for-each close-port kept)", "(set! kept '())", "(settle)", "(sim-log (list 'descriptors (sim-descriptors)))")
        return [(Boot("lite"), text)]

    def judge(self, s, logs, ctx):
        log = logs[0]
        if log.end == "budget" and s["work"]: return
        crash_check(log)
        if "bulk" in s:
            base, peaks = 0, []
            for line in log.logs:
                w = line.strip("()").split(" ")
                if w[0] == "base": base = int(w[1])
                if w[0] == "bytes": peaks.append(int(w[1]) - base)
            if base and peaks and max(peaks) > 80 * 2**20:
                raise Violation("grows", f"{max(peaks)} bytes more than at the start are in use while {s['bulk']} is computed and dropped {len(peaks)} times")
            if len(peaks) == 20:
                # what is kept does not change, so what is used for it does not grow either
                if 2 * max(peaks[-6:]) > 3 * max(peaks[:6]) + 8 * 2**20:
                    raise Violation("grows", f"{max(peaks[:6])} bytes more than at the start are in use in the first six rounds and {max(peaks[-6:])} in the last six, while {s['bulk']} is computed and dropped")
                ctx.probe("bulk garbage")
            return
        if log.end != "done": return
        live, descriptors = [], []
        for line in log.logs:
            w = line.strip("()").split(" ")
            if w[0] == "live" and len(w) == 3: live.append((int(w[1]), int(w[2])))
            if w[0] == "descriptors": descriptors.append(int(w[1]))
        if len(live) != 7 or len(descriptors) != 2:
            if any(r[0] == "E" for r in log.results.values()): return # the computation itself does not work
            raise Violation("incomplete", f"{log.logs[-3:]}")
        for n in range(2, 7):
            before = max(x for x, _ in live[:n]) # registers of the machine may keep one value or another until they are used again
            if live[n][0] > before:
                raise Violation("leak", f"{before} objects before and {live[n][0]} after {s['repeat']} repetitions of {s['work']}")
        # tables of the collector and buffers may grow now and then, but not every time
        if s["place"] in ("place lifo", "place fifo") and all(live[n][1] > live[n - 1][1] for n in range(2, 7)):
            raise Violation("memory", f"{[b for _, b in live]} bytes after every {s['repeat']} repetitions of {s['work']}")
        kept = sum(1 for _, how, _ in s["ports"] if how == "keep")
        if descriptors[0] != kept:
            raise Violation("descriptors", f"{descriptors[0]} descriptors are open, {kept} of the ports are reachable: {s['ports']}")
        if descriptors[1] != 0:
            raise Violation("descriptors", f"{descriptors[1]} descriptors are still open at the end")
        disk = dict(log.disks[-1][1])
        for kind, how, n in s["ports"]:
            if "output" in kind:
                data = disk.get(f"/sim/home/out{n}")
                want = f"text{n}".encode()
                if how != "keep" and data != want:
                    raise Violation("output", f"port {n} was reclaimed, but the disk has {data!r}")
                if how == "keep" and data not in (b"", want):
                    raise Violation("output", f"port {n} is in use, and the disk has {data!r}")
        if s["ports"]: ctx.probe("ports left", len(s["ports"]) - kept)
        if s.get("knots"): ctx.probe("garbage that refers to itself", 7 * len(s["knots"]))
        ctx.probe("repetitions", 7 * s["repeat"])

    def nontrivial(self, s, logs):
        return ("bulk" in s or logs[0].count("G.collections") > 0) and logs[0].end == "done"


PROPERTY = C02()
