"""C19: asking for more storage than there is, is an error like any other."""
import random
from .. import lang
from ..common import *
from ..harness import Boot, Violation, crash_check
from ..langprop import LangProperty

# Every one of these asks for more than the limit, and in total for little less.
GREEDY = [
    "(make-vector 1000000 0)", "(make-vector 100000000000 0)", "(make-vector 1000000)", "(make-string 1000000 #\\a)", "(make-string 100000000000000 #\\a)", "(make-bytevector 10000000 1)", "(make-bytevector 1000000000000 0)",
    "(apply vector-append (many v10000))", "(apply string-append (many s10000))", "(apply bytevector-append (many b100000))", "(vector->list (apply vector-append (many v10000)))",
    "(utf8->string b900000)", "(string-append s10000 (make-string 1000000))", "(vector-map (lambda (x) x) (make-vector 5000000 0))",
    "(string-copy (make-string 2000000 #\\b))", "(vector-fill! (make-vector 2000000) 1)", "(bytevector-copy (make-bytevector 5000000 1))", "(let ((p (open-input-string \"abc\"))) (read-line p) (make-vector 4000000 p))",
]

LIMIT = 700000

KINDS = ("vector", "string", "bytes", "list")


class C19(LangProperty):
    id = "C19"
    runs = {"quick": 3000, "thorough": 120000}
    weights = {"kerr": 5, "weh": 2, "guard": 4, "wind": 2, "param": 1.5, "callcc": 1.5}
    actions = ("kernel", "kernel", "call", "resume", "capture", "raise")
    counted = ("kernel",)
    preceding = 5
    shrink = ("schedule", "forms", "steps")
    measure = "distinct (collector decision, I/O outcome) histories and programs with their schedule"
    rule = ("A case is a generated program of nested extents, handlers, guards, parameters, promises and continuations in which seeded points ask for vectors, strings and bytevectors larger than the storage that is left (requests of more than 700000 bytes fail); every event must be the one a reference interpreter produces. "
            "Or it is a sequence of operations on a store of vectors, strings, bytevectors, lists and ports, some of which fail in that way, at different depths; afterwards everything in the store must be what a model says, and as many objects must be reachable as before. Non-trivial: a request failed.")
    assumptions = ["small requests are granted: running out of storage inside of the collector's own tables ends the process (a limit of the code, see DESIGN.md)"]

    def scenario(self, rng, tier):
        if rng.random() < 0.6: return super().scenario(rng, tier)
        steps = []
        for _ in range(rng.randint(4, 30)):
            op = rng.choice(["grow", "greedy", "greedy", "double", "new", "set", "port", "same"])
            steps.append([op, rng.choice(KINDS), rng.randrange(3), rng.randrange(len(GREEDY)), rng.randrange(1, 9), rng.choice(["guard", "handler", "wind", "deep", "top", "promise", "parameterize", "escape"])])
            if any(len(x) > 300 for xs in self.model({"steps": steps})[0].values() for x in xs): steps.pop()
        return {"steps": steps, "forms": [], "schedule": [], "gc": random_gc(rng, 3000, heavy=0.3, cost=5), "place": random_place(rng)}

    def valid(self, s):
        return bool(s["steps"]) if "steps" in s else super().valid(s)

    def simplify(self, s):
        if "steps" not in s: yield from super().simplify(s); return
        if s["gc"] != "gc off": yield {**s, "gc": "gc off"}
        if s["place"] != "place lifo": yield {**s, "place": "place lifo"}
        for i, x in enumerate(s["steps"]):
            if x[5] != "guard": yield {**s, "steps": s["steps"][:i] + [x[:5] + ["guard"]] + s["steps"][i + 1:]}

    SETUP = ["(begin (define v10000 (make-vector 10000 0)) 0)", "(begin (define s10000 (make-string 10000 #\\a)) 0)", "(begin (define b100000 (make-bytevector 100000 65)) 0)", "(begin (define b900000 (make-bytevector 600000 65)) 0)",
             "(define (many x) (let loop ((i 0) (xs '())) (if (< i 40) (loop (+ i 1) (cons x xs)) xs)))"]

    def run_text(self, how, e):
        """Evaluates e, which may fail, and gives its value or 'failed"""
        return {"guard": f"(guard (x (#t (failure x))) {e})",
                "handler": f"(call/cc (lambda (k) (with-exception-handler (lambda (x) (k (failure x))) (lambda () {e}))))",
                "wind": f"(guard (x (#t (failure x))) (dynamic-wind (lambda () (enter)) (lambda () {e}) (lambda () (leave))))",
                "deep": f"(guard (x (#t (failure x))) (let loop ((i 0)) (if (< i 50) (car (list (loop (+ i 1)))) {e})))",
                "top": e,
                "promise": f"(let ((p (delay {e}))) (guard (x (#t (failure x))) (force p)))",
                "parameterize": f"(let ((r (guard (x (#t (failure x))) (parameterize ((parameter 'inner)) {e})))) (if (eq? (parameter) 'outer) r 'parameter))",
                "escape": f"(call/cc (lambda (k) (guard (x (#t (k (failure x)))) {e})))"}[how]

    def plans(self, s):
        if "steps" not in s:
            setup, forms_ = lang.program(s)
            rng = random.Random(str(s["forms"]))
            text = "\x00".join(forms_)
            for kind in sorted(lang.KERNEL, key=lambda k: lang.KERNEL[k]):
                parts = text.split(lang.KERNEL[kind])
                text = parts[0] + "".join(rng.choice(GREEDY) + p for p in parts[1:])
            runtime = []
            for f in lang.RUNTIME:
                for kind in lang.KERNEL: f = f.replace(lang.KERNEL[kind], "(make-vector 10000000 0)")
                runtime.append(f)
            return [(Boot("lite"), "cpu 20\nsteps 3000000\nfile /sim/exists 31\n" + forms(*runtime, *setup, "(set! ticks 0)") + forms(*self.SETUP) + f"allocabove {LIMIT}\n" + forms("(sim-log (quote begin))")
                     + s["place"] + "\n" + s["gc"] + "\n" + forms(*text.split("\x00")))]
        text = "cpu 60\nsteps 6000000\n" + prelude() + forms(*self.SETUP, "(define depth 0)", "(define (enter) (set! depth (+ depth 1)))", "(define (leave) (set! depth (- depth 1)))", "(define parameter (make-parameter 'outer))", "(define (failure x) (if (error-object? x) 'failed 'other))",
            "(define result 0)", "(define port (open-output-string))", "(define store (vector (make-vector 3 0) (make-vector 3 0) (make-vector 3 0) (make-vector 3 0)))",
            "(define (ref k i) (vector-ref (vector-ref store k) i))", "(define (put k i x) (vector-set! (vector-ref store k) i x) 'done)",
            *[f"(put {k} {i} {e})" for k, e in enumerate(['(vector 0)', '(string #\\a)', '(bytevector 0)', "(list 0)"]) for i in range(3)])
        text += f"allocabove {LIMIT}\n" + forms("(begin (set! result 0) (sim-collect) (sim-collect) (sim-log (list 'live (sim-live))))") + s["place"] + "\n" + s["gc"] + "\n"
        for step in s["steps"]:
            text += forms(f"(begin (set! result 'failed) (set! result {self.run_text(step[5], self.step_text(step))}))", "(sim-log (list 'step result depth))")
            if step[5] == "top": text += forms("(set! depth 0)")
        text += "gc off\n" + forms("(sim-log (list 'string (enc (get-output-string port))))", *[f"(sim-log (list 'store (enc (ref {k} {i}))))" for k in range(4) for i in range(3)])
        text += forms(*[f"(put {k} {i} {e})" for k, e in enumerate(['(vector 0)', '(string #\\a)', '(bytevector 0)', "(list 0)"]) for i in range(3)], "(begin (set! result 0) (sim-collect) (sim-collect) (sim-log (list 'live (sim-live))))")
        return [(Boot("lite"), text)]

    def step_text(self, step):
        op, kind, i, g, n, how = step
        k = KINDS.index(kind)
        x = f"(ref {k} {i})"
        greedy = GREEDY[g]
        if op == "greedy": return f"(put {k} {i} {greedy})"
        # the failure comes between two changes of the store
        if op == "set": return {"vector": f"(begin (vector-set! {x} 0 {n}) {greedy} (put {k} {i} 'wrong))", "string": f"(begin (string-set! {x} 0 #\\{chr(96 + n)}) {greedy} (put {k} {i} 'wrong))",
                                "bytes": f"(begin (bytevector-u8-set! {x} 0 {n}) {greedy} (put {k} {i} 'wrong))", "list": f"(begin (set-car! {x} {n}) {greedy} (put {k} {i} 'wrong))"}[kind]
        if op == "new": return f"(put {k} {i} " + {"vector": f"(make-vector {n} {n})", "string": f"(make-string {n} #\\{chr(96 + n)})", "bytes": f"(make-bytevector {n} {n})", "list": f"(make-list {n} {n})"}[kind] + ")"
        if op == "grow": return f"(put {k} {i} " + {"vector": f"(vector-append {x} (vector {n}))", "string": f"(string-append {x} \"{chr(96 + n)}\")", "bytes": f"(bytevector-append {x} (bytevector {n}))", "list": f"(append {x} (list {n}))"}[kind] + ")"
        if op == "double": return f"(put {k} {i} " + {"vector": f"(vector-append {x} {x})", "string": f"(string-append {x} {x})", "bytes": f"(bytevector-append {x} {x})", "list": f"(append {x} {x})"}[kind] + ")"
        if op == "port": return f"(begin (write-string \"{chr(96 + n)}\" port) {greedy} (write-string \"wrong\" port))"
        if op == "same": return f"(begin (write-string \"{chr(96 + n)}\" port) 'done)"
        raise ValueError(op)

    def model(self, s):
        store = {k: [[0], [0], [0]] for k in KINDS}
        results, port = [], ""
        for op, kind, i, g, n, how in s["steps"]:
            x = store[kind]
            ok = op in ("new", "grow", "double", "same")
            if op == "set": x[i] = [n] + x[i][1:]
            if op == "new": x[i] = [n] * n
            if op == "grow": x[i] = x[i] + [n]
            if op == "double": x[i] = x[i] + x[i]
            if op in ("port", "same"): port += chr(96 + n)
            results.append("done" if ok else "failed")
        return store, results, port

    def judge(self, s, logs, ctx):
        if "steps" not in s: return super().judge(s, logs, ctx)
        log = logs[0]
        crash_check(log)
        if log.end == "budget": return ctx.probe("too long")
        if log.end != "done": raise Violation("stopped", f"the run ended with {log.end}")
        store, results, port = self.model(s)
        want = [f"(step {r} 0)" for r in results] + [f"(string {encode(port)})"]
        for kind in KINDS:
            for x in store[kind]:
                want.append("(store " + encode({"vector": Vec(x), "string": "".join("a" if c == 0 else chr(96 + c) for c in x), "bytes": bytes(x), "list": x}[kind]) + ")")
        got = [x for x in log.logs if not x.startswith("(live")]
        for i, (x, y) in enumerate(zip(want + ["end"], got + ["end"])):
            if x != y: raise Violation("differs", f"{i}: expected {x[:200]}, got {y[:200]} in {s['steps'][i] if i < len(s['steps']) else 'the store'}")
        live = [int(x.strip("()").split()[1]) for x in log.logs if x.startswith("(live")]
        if len(live) != 2: raise Violation("incomplete", f"{list(log.results.values())[-3:]}")
        if live[1] > live[0] + 200 + len(port): raise Violation("leak", f"{live[0]} objects before and {live[1]} after {s['steps']}")
        ctx.probe("steps", len(want))

    def nontrivial(self, s, logs):
        return logs[0].count("M.failed") > 0


PROPERTY = C19()
