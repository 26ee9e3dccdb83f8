"""A small language of control operations: its generator, its translation to Scheme, and a reference interpreter.

Expressions (JSON lists); all produce integers, and operands are atoms, so that the order in which operands are
evaluated plays no part:

  ["a", atom]                         an atom: integer, "name" (variable), ["q", symbol]
  ["let", x, e, body]  ["seq", e...]  ["if", atom, n, e, e]   (if (< atom n) e e)
  ["add", atom, atom]  ["set", x, e]  ["log", tag, atom]      ["tick"]        ["loop", n, e]
  ["with", [x...], [atom...], i, e, body]   ((lambda (x...) body) atom... e ... atom), e being operand i
  ["prim", kind, [atom...], i, e]     a procedure of the kernel applied likewise
  ["op", e, [atom, atom], apply?]     ((choose e) atom atom): e selects the procedure
  ["rest", x, r, [atom...], i, e, body]   ((lambda (x . xs) (let ((r (weigh xs))) body)) atom... e ... atom)
  ["letrec", f, x, body, e]           (letrec ((f (lambda (x) (if (fuel?) body x)))) e)
  ["each", kind, x, n, e]  ["do", x, n, e]  ["body", x, e, body, form]   for-each, do and internal definitions
  ["fn", x, body, f, e]               (let ((f (lambda (x) body))) e)         ["call", f, atom]
  ["callcc", k, e]     ["throw", k, atom]                     ["keep", slot, k]   ["resume", slot, atom]
  ["wind", tag, before, e, after]     ["param", [[p, atom]...], e]            ["getp", p]
  ["weh", x, handler, e]              ["raise", atom] ["raisec", atom] ["err", n] ["kerr", kind]
  ["guard", x, [[test, e]...], else or None, e]
  ["redirect", kind, i, e]            e with another port for the current one     ["say", n, how, err?]  ["hear", how]   output to it, input from it     ["sofar", port]   how much it has by now
  ["exit", status, emergency?]        (exit status) or (emergency-exit status)
  ["delay", p, kind, e, body]         (let ((p (kind e))) body)               ["force", p]

A tick is a point where the schedule may act: raise, escape to or re-enter a kept continuation, capture, collect.
"""

RUNTIME = [
    "(define fuel 0)", "(define ticks 0)", "(define plan '())", "(define slots (vector #f #f #f #f))",
    "(define (show x) (cond ((error-object? x) (if (equal? (error-object-message x) \"user\") (cons 'user (error-object-irritants x)) 'failure)) ((or (number? x) (symbol? x)) x) (else 'object)))",
    "(define (fuel?) (if (< 0 fuel) (begin (set! fuel (- fuel 1)) #t) #f))",
    "(define (resume i v) (let ((k (vector-ref slots i))) (if (and k (fuel?)) (k v) v)))",
    "(define (throw k v) (if (fuel?) (k v) v))",
    "(define (keep i k) (vector-set! slots i k) i)",
    "(define (act a) (case (car a) ((raise) (raise 'injected)) ((raisec) (raise-continuable 'injected)) ((error) (error \"user\" 99)) ((kernel) (quotient 1 0)) ((call) (7 1))"
    " ((resume) (resume (cadr a) ticks)) ((capture) (call/cc (lambda (k) (keep (cadr a) k)))) ((collect) (sim-collect) 0) ((exit) (exit (cadr a))) ((emergency) (emergency-exit (cadr a))) (else 0)))",
    "(define (tick) (set! ticks (+ ticks 1)) (let ((a (assv ticks plan))) (if a (act (cdr a)) ticks)))",
    "(define P0 (make-parameter 1))", "(define P1 #f)",
    "(define P2 (make-parameter 3 (lambda (x) (tick) (+ x 2000))))",
    "(define P1 (make-parameter 2 (lambda (x) (sim-log (cons 'convert (if P1 (list x (P0) (P1) (P2)) (list x)))) (+ x 1000))))",
    "(define (number-of x) (if (number? x) x 5))",
    "(define not-defined-yet #f)",
    "(define (weigh xs) (let loop ((xs xs) (i 1) (n 0)) (if (pair? xs) (loop (cdr xs) (+ i 1) (+ n (* i (number-of (car xs))))) n)))",
    "(define operators (vector + - max (lambda xs (weigh xs)) (lambda (x y) (+ (* 3 x) y))))",
    "(define (choose n) (vector-ref operators (modulo (number-of n) 5)))",
]

PORTS = [
    "(define out0 (open-output-string))", "(define out1 (open-output-string))", "(define error0 (open-output-string))", "(define kept '())", "(define names 0)",
    "(define (keep-port p) (set! kept (cons p kept)))", "(define (fresh-name) (set! names (+ names 1)) (string-append \"/sim/home/f\" (number->string names)))",
    "(define (code x) (cond ((char? x) (char->integer x)) ((string? x) (apply + (string-length x) (map char->integer (string->list x)))) ((number? x) x) ((eof-object? x) 0) (else 9999)))",
]


def said(n, how):
    return {"display": f"{n}x", "write": f"({n} . 1)", "string": f"{n};", "slice": f"{n};", "char": f"{n % 10}\n", "simple": f"(a {n})", "shared": f'"s{n}"'}[how]


class Sink:
    def __init__(self, name): self.name, self.text, self.open = name, "", True


class Source:
    """Text made of numbers and white space."""

    def __init__(self, text): self.text, self.i = text, 0

    def hear(self, how):
        t, i = self.text, self.i
        if how == "ready": return 1 if i < len(t) else None
        if how == "datum":
            while i < len(t) and t[i] in " \n": i += 1
            j = i
            while j < len(t) and t[j] not in " \n": j += 1
            self.i = j
            return int(t[i:j]) if i < j else 0
        if i == len(t): return 0
        if how == "peek": return ord(t[i])
        if how == "char":
            self.i += 1
            return ord(t[i])
        j = t.find("\n", i) if how == "line" else min(i + 3, len(t))
        if j < 0: j = len(t)
        self.i = j + 1 if how == "line" and j < len(t) else j
        return j - i + sum(map(ord, t[i:j]))

KERNEL = {"div": "(quotient 1 0)", "call": "(7 1)", "call2": "(not-defined-yet 1)", "open": '(open-input-file "/sim/none")', "read": '(read (open-input-string "(1 "))',
          "import": "(number->string 'a)"}
KERNEL.pop("import")

STATUS = {"none": ("", 0), "true": (" #t", 0), "false": (" #f", 1), **{n: (f" {n}", n) for n in range(256)}}


# ---- translation -------------------------------------------------------------------------------

def atom(a):
    if isinstance(a, list): return "'" + a[1]
    return str(a)


def scheme(e):
    op = e[0]
    S = scheme
    if op == "a": return atom(e[1])
    if op == "let": return f"(let (({e[1]} {S(e[2])})) {S(e[3])})"
    if op == "seq": return "(begin " + " ".join(S(x) for x in e[1:]) + ")"
    if op == "if": return f"(if (< (number-of {atom(e[1])}) {e[2]}) {S(e[3])} {S(e[4])})"
    if op == "add": return f"(+ (number-of {atom(e[1])}) (number-of {atom(e[2])}))"
    if op == "set": return f"(begin (set! {e[1]} {S(e[2])}) {e[1]})"
    if op == "log": return f"(begin (sim-log (list {e[1]} (show {atom(e[2])}))) 0)"
    if op == "tick": return "(tick)"
    if op == "loop": return f"(let loop ((i 0)) (if (< i {e[1]}) (begin {S(e[2])} (loop (+ i 1))) i))"
    if op == "with":
        operands = [atom(a) for a in e[2]]
        operands.insert(e[3], S(e[4]))
        return f"((lambda ({' '.join(e[1])}) {S(e[5])}) {' '.join(operands)})"
    if op == "prim":
        operands = [f"(number-of {atom(a)})" if isinstance(a, str) else atom(a) for a in e[2]]
        operands.insert(e[3], f"(number-of {S(e[4])})" if e[1] in ("+", "-", "max", "apply") else S(e[4]))
        f = {"vector": "(weigh (vector->list (vector {})))", "list": "(weigh (list {}))", "apply": "(apply + (list {}))"}.get(e[1], "(" + e[1] + " {})")
        return f.format(" ".join(operands))
    if op == "op":
        operands = [f"(number-of {atom(a)})" for a in e[2]]
        return f"(apply (choose {S(e[1])}) (list {' '.join(operands)}))" if e[3] else f"((choose {S(e[1])}) {' '.join(operands)})"
    if op == "rest":
        operands = [atom(a) for a in e[3]]
        operands.insert(e[4], S(e[5]))
        return f"((lambda ({e[1]} . xs) (let (({e[2]} (weigh xs))) {S(e[6])})) {' '.join(operands)})"
    if op == "letrec": return f"(letrec (({e[1]} (lambda ({e[2]}) (if (fuel?) {S(e[3])} {e[2]})))) {S(e[4])})"
    if op == "each":
        n = range(e[3])
        xs = {"list": "'(" + " ".join(map(str, n)) + ")", "vector": "#(" + " ".join(map(str, n)) + ")"}[e[1]]
        return f"(begin ({'for-each' if e[1] == 'list' else 'vector-for-each'} (lambda ({e[2]}) {S(e[4])}) {xs}) {e[3]})"
    if op == "do": return f"(do (({e[1]} 0 (+ {e[1]} 1))) ((= {e[1]} {e[2]}) {e[1]}) {S(e[3])})"
    if op == "body":
        return {"define": "(let () (define {0} {1}) {2})", "letrec": "(letrec (({0} {1})) {2})", "letrec2": "(letrec ((unused (lambda () {0})) ({0} {1})) {2})", "letrec*": "(letrec* ((unused (lambda () {0})) ({0} {1})) {2})",
                "list": "((lambda {0} (set! {0} {1}) {2}))", "tail": "((lambda (unused . {0}) (set! {0} {1}) {2}) 0)"}[e[4] if len(e) > 4 else "define"].format(e[1], S(e[2]), S(e[3]))
    if op == "fn": return f"(let (({e[3]} (lambda ({e[1]}) {S(e[2])}))) {S(e[4])})"
    if op == "call": return f"({e[1]} {atom(e[2])})"
    if op == "callcc": return f"(call/cc (lambda ({e[1]}) {S(e[2])}))"
    if op == "throw": return f"(throw {e[1]} {atom(e[2])})"
    if op == "keep": return f"(keep {e[1]} {e[2]})"
    if op == "resume": return f"(resume {e[1]} {atom(e[2])})"
    if op == "wind": return f"(dynamic-wind (lambda () (sim-log '(in {e[1]})) {S(e[2])}) (lambda () {S(e[3])}) (lambda () (sim-log '(out {e[1]})) {S(e[4])}))"
    if op == "param": return "(parameterize (" + " ".join(f"({p} (number-of {atom(a)}))" for p, a in e[1]) + f") {S(e[2])})"
    if op == "getp": return f"({e[1]})"
    if op == "weh": return f"(with-exception-handler (lambda ({e[1]}) {S(e[2])}) (lambda () {S(e[3])}))"
    if op == "raise": return f"(raise {atom(e[1])})"
    if op == "raisec": return f"(raise-continuable {atom(e[1])})"
    if op == "err": return f'(error "user" {e[1]})'
    if op == "kerr": return KERNEL[e[1]]
    if op == "redirect":
        if e[1] == "file": return f"(with-output-to-file (fresh-name) (lambda () (keep-port (current-output-port)) {S(e[3])}))"
        if e[1] == "port": return f"(let ((redirected (open-output-file (fresh-name)))) (keep-port redirected) (parameterize ((current-output-port redirected)) {S(e[3])}))"
        if e[1] == "swap": return f"(parameterize ((current-output-port (current-error-port)) (current-error-port (current-output-port))) {S(e[3])})"
        return f"(parameterize ((current-{'input' if e[1] == 'in' else 'output' if e[1] == 'out' else 'error'}-port {e[1]}{e[2]})) {S(e[3])})"
    if op == "say":
        return "(begin " + {"display": "(display '{0}x{1})", "write": "(write '({0} . 1){1})", "string": '(write-string "{0};"{1})', "slice": '(write-string "<<{0};>>"{2} 2 {3})', "char": "(begin (write-char #\\{4}{1}) (newline{1}))",
                            "simple": "(write-simple '(a {0}){1})", "shared": '(write-shared "s{0}"{1})'}[e[2]].format(e[1], " (current-error-port)" if e[3] else "", " (current-error-port)" if e[3] else " (current-output-port)", 3 + len(str(e[1])), e[1] % 10) + " 0)"
    if op == "sofar": return f"(string-length (get-output-string {e[1]}))"
    if op == "hear": return {"char": "(code (read-char))", "peek": "(code (peek-char))", "line": "(code (read-line))", "string": "(code (read-string 3))", "datum": "(code (read))", "ready": "(if (char-ready?) 1 0)"}[e[1]]
    if op == "exit": return f"({'emergency-exit' if e[2] else 'exit'}{STATUS[e[1]][0]})"
    if op == "guard":
        clauses = ""
        for test, b in e[2]:
            clauses += {"number": f"((number? {e[1]}) {S(b)})", "symbol": f"((symbol? {e[1]}) {S(b)})", "error": f"((error-object? {e[1]}) {S(b)})",
                        "one": f"((begin (sim-log '(test)) (memv {e[1]} '(1 2 3))) => (lambda (found) {S(b)}))", "never": f"(#f {S(b)})", "true": f"((begin {S(b)}))"}[test] + " "
        if e[3] is not None: clauses += f"(else {S(e[3])})"
        return f"(guard ({e[1]} {clauses}) {S(e[4])})"
    if op == "delay":
        kind = e[2]
        body = {"delay": f"(delay {S(e[3])})", "force": f"(delay-force (begin {S(e[3])} (delay {S(e[3])})))", "make": f"(make-promise {S(e[3])})",
                "chain": f"(delay-force {e[3][1]})" if kind == "chain" else "", "same": f"(make-promise {e[3][1]})" if kind == "same" else ""}[kind]
        return f"(let (({e[1]} {body})) {S(e[4])})"
    if op == "force": return f"(force {e[1]})"
    raise ValueError(op)


# ---- reference interpreter -----------------------------------------------------------------------

class Budget(Exception):
    pass


class Error:
    __slots__ = ("n",)

    def __init__(self, n=None):
        self.n = n


class Closure:
    __slots__ = ("x", "body", "env")

    def __init__(self, x, body, env):
        self.x, self.body, self.env = x, body, env


class Recursive(Closure):
    """Runs while there is fuel."""
    __slots__ = ()


class Cont:
    __slots__ = ("k", "d")

    def __init__(self, k, d):
        self.k, self.d = k, d


class Promise:
    __slots__ = ("box",)

    def __init__(self, done, value):
        self.box = [done, value]


class D:
    """The dynamic state: extents, handlers, parameters. Immutable; extents and handlers are linked lists."""
    __slots__ = ("winds", "handlers", "params")

    def __init__(self, winds=None, handlers=None, params=None):
        self.winds, self.handlers, self.params = winds, handlers, params

    def but(self, **kw):
        d = D(self.winds, self.handlers, self.params)
        for k, v in kw.items(): setattr(d, k, v)
        return d


class Wind:
    __slots__ = ("tag", "before", "after", "env", "d", "next", "depth")

    def __init__(self, tag, before, after, env, d):
        self.tag, self.before, self.after, self.env, self.d, self.next = tag, before, after, env, d, d.winds
        self.depth = 1 + (d.winds.depth if d.winds else 0)


DEFAULTS = {"P0": 1, "P1": 1002, "P2": 2003}
COUNTS = ("raises", "secondary", "uncaught", "throws", "reentries", "unwound", "rewound", "forced", "reraised", "kernel", "exits", "outstanding", "redirected")


class Machine:
    """A CEK machine. Continuations are linked frames (kind, data, next)."""

    def __init__(self, fuel, plan, limit=30000, inputs={}):
        self.fuel, self.ticks, self.plan, self.slots, self.limit = fuel, 0, {p[0]: p[1:] for p in plan}, [None] * 4, limit
        self.log = []
        self.counts = dict.fromkeys(COUNTS, 0)
        self.top = D()
        self.steps = 0
        self.files = []
        self.ports = {("OUT", None): Sink("terminal"), ("ERR", None): Sink("error terminal"), ("OUT", 0): Sink("out0"), ("OUT", 1): Sink("out1"), ("ERR", 0): Sink("error0")}
        for i, text in inputs.items(): self.ports["IN", i] = Source(text)

    def show(self, v):
        if isinstance(v, Error): return "failure" if v.n is None else f"(user {v.n})"
        if isinstance(v, (int, str)): return str(v)
        return "object"

    def number(self, v):
        return v if isinstance(v, int) else 5

    def weigh(self, xs):
        return sum((i + 1) * self.number(x) for i, x in enumerate(xs))

    def atom(self, a, env):
        if isinstance(a, int): return a
        if isinstance(a, list): return a[1]
        while env is not None:
            if env[0] == a: return env[1][0]
            env = env[2]
        raise KeyError(a)

    def cell(self, x, env):
        while env is not None:
            if env[0] == x: return env[1]
            env = env[2]
        raise KeyError(x)

    # A state is ("eval", e, env, k, d) or ("ret", v, k, d).

    def run(self, e):
        """One top-level form; False if it ends with an uncaught exception, ("exit", status) if with the process."""
        state = ("eval", e, None, ("result", None, None), self.top)
        while True:
            self.steps += 1
            if self.steps > self.limit: raise Budget()
            if state[0] == "eval":
                state = self.eval(*state[1:])
            elif state[0] == "ret":
                v, k, d = state[1:]
                if k is None: return True
                state = self.ret(v, k, d)
            elif state[0] == "exit": return state
            else: # uncaught
                self.counts["uncaught"] += 1
                return False

    def throw(self, cont, v, d):
        self.counts["throws"] += 1
        return self.travel(cont, v, d)

    def travel(self, cont, v, d):
        a, b = d.winds, cont.d.winds
        while a is not b:
            if b is None or (a is not None and a.depth > b.depth): a = a.next
            elif a is None or b.depth > a.depth: b = b.next
            else: a, b = a.next, b.next
        inward = []
        n = cont.d.winds
        while n is not a:
            inward.append(n)
            n = n.next
        return self.unwind(d.winds, a, tuple(reversed(inward)), cont, v, d)

    def unwind(self, node, common, inward, cont, v, d):
        if node is not common:
            self.counts["unwound"] += 1
            self.log.append(f"(out {node.tag})")
            return ("eval", node.after, node.env, ("unwind", (node.next, common, inward, cont, v, node.d), None), node.d)
        return self.windup(inward, cont, v, d)

    def leave(self, status, emergency, d):
        self.counts["exits"] += 1
        return ("exit", status) if emergency else self.exit(d.winds, status)

    def exit(self, node, status):
        """Leaves the extents one after another, and then the process."""
        if node is None: return ("exit", status)
        self.counts["outstanding"] += 1
        self.log.append(f"(out {node.tag})")
        return ("eval", node.after, node.env, ("exiting", (node.next, status), None), node.d)

    def windup(self, inward, cont, v, d):
        if inward:
            node = inward[0]
            self.counts["rewound"] += 1
            self.log.append(f"(in {node.tag})")
            return ("eval", node.before, node.env, ("windup", (inward[1:], cont, v, node.d), None), node.d)
        return ("ret", v, cont.k, cont.d)

    def raise_(self, v, k, d):
        self.counts["raises"] += 1
        if d.handlers is None: return ("uncaught", v)
        h, outer = d.handlers
        inner = d.but(handlers=outer)
        return self.apply(h, v, ("secondary", v, k), inner)

    def raisec(self, v, k, d):
        self.counts["raises"] += 1
        if d.handlers is None: return ("uncaught", v)
        h, outer = d.handlers
        return self.apply(h, v, ("restore", d, k), d.but(handlers=outer))

    def apply(self, f, v, k, d):
        if isinstance(f, Recursive):
            if self.fuel <= 0: return ("ret", v, k, d)
            self.fuel -= 1
            return ("eval", f.body, (f.x, [v], f.env), k, d)
        if isinstance(f, Closure): return ("eval", f.body, (f.x, [v], f.env), k, d)
        if isinstance(f, Cont): return self.throw(f, v, d)
        return f(v, k, d)

    def resume(self, i, v, k, d):
        c = self.slots[i]
        if c is not None and self.fuel > 0:
            self.fuel -= 1
            self.counts["reentries"] += 1
            return self.throw(c, v, d)
        return ("ret", v, k, d)

    def force(self, p, k, d):
        if p.box[0]: return ("ret", p.box[1], k, d)
        kind, e, env = p.box[1]
        self.counts["forced"] += 1
        if kind == "chain": return ("ret", e, ("forced", p, k), d) # e is the promise itself
        if kind == "force": return ("eval", e, env, ("delayed", (p, e, env), k), d)
        return ("eval", e, env, ("fulfil", p, k), d)

    def eval(self, e, env, k, d):
        op = e[0]
        if op == "a": return ("ret", self.atom(e[1], env), k, d)
        if op == "let": return ("eval", e[2], env, ("let", (e[1], e[3], env), k), d)
        if op == "seq":
            if len(e) == 2: return ("eval", e[1], env, k, d)
            return ("eval", e[1], env, ("seq", (e, 2, env), k), d)
        if op == "if": return ("eval", e[3] if self.number(self.atom(e[1], env)) < e[2] else e[4], env, k, d)
        if op == "add": return ("ret", self.number(self.atom(e[1], env)) + self.number(self.atom(e[2], env)), k, d)
        if op == "set": return ("eval", e[2], env, ("set", self.cell(e[1], env), k), d)
        if op == "log":
            self.log.append(f"({e[1]} {self.show(self.atom(e[2], env))})")
            return ("ret", 0, k, d)
        if op == "tick": return self.tick(k, d)
        if op == "loop": return ("ret", 0, ("loop", (e, 0, env), k), d) if e[1] else ("ret", 0, k, d)
        if op == "with": return ("eval", e[4], env, ("with", (e, [self.atom(a, env) for a in e[2]], env), k), d)
        if op == "prim": return ("eval", e[4], env, ("prim", (e, [self.atom(a, env) for a in e[2]]), k), d)
        if op == "op": return ("eval", e[1], env, ("op", [self.number(self.atom(a, env)) for a in e[2]], k), d)
        if op == "rest": return ("eval", e[5], env, ("rest", (e, [self.atom(a, env) for a in e[3]], env), k), d)
        if op == "letrec":
            cell = [None]
            inner = (e[1], cell, env)
            cell[0] = Recursive(e[2], e[3], inner)
            return ("eval", e[4], inner, k, d)
        if op == "each": return ("ret", 0, ("each", (e[3], e[2], e[4], 0, env), k), d)
        if op == "do": return ("ret", 0, ("each", (e[2], e[1], e[3], 0, env), k), d)
        if op == "body":
            inner = (e[1], [None], env)
            return ("eval", e[2], inner, ("body", (inner, e[3]), k), d)
        if op == "fn": return ("eval", e[4], (e[3], [Closure(e[1], e[2], env)], env), k, d)
        if op == "call": return self.apply(self.atom(e[1], env), self.atom(e[2], env), k, d)
        if op == "callcc": return ("eval", e[2], (e[1], [Cont(k, d)], env), k, d)
        if op == "throw":
            if self.fuel > 0:
                self.fuel -= 1
                return self.throw(self.atom(e[1], env), self.atom(e[2], env), d)
            return ("ret", self.atom(e[2], env), k, d)
        if op == "keep":
            self.slots[e[1]] = self.atom(e[2], env)
            return ("ret", e[1], k, d)
        if op == "resume": return self.resume(e[1], self.atom(e[2], env), k, d)
        if op == "wind":
            self.log.append(f"(in {e[1]})")
            return ("eval", e[2], env, ("entered", (e, env), k), d)
        if op == "param": return self.bind(e, env, 0, d.params, k, d)
        if op == "getp":
            p = d.params
            while p is not None:
                if p[0] == e[1]: return ("ret", p[1], k, d)
                p = p[2]
            return ("ret", DEFAULTS[e[1]], k, d)
        if op == "weh": return ("eval", e[3], env, ("restore", d, k), d.but(handlers=(Closure(e[1], e[2], env), d.handlers)))
        if op == "raise": return self.raise_(self.atom(e[1], env), k, d)
        if op == "raisec": return self.raisec(self.atom(e[1], env), k, d)
        if op == "err": return self.raise_(Error(e[1]), k, d)
        if op == "kerr":
            self.counts["kernel"] += 1
            return self.raise_(Error(), k, d)
        if op == "exit": return self.leave(STATUS[e[1]][1], e[2], d)
        if op == "redirect":
            kind = e[1]
            if kind == "swap": more = [("OUT", self.port("ERR", d)), ("ERR", self.port("OUT", d))]
            elif kind in ("file", "port"):
                self.files.append(Sink(f"f{len(self.files) + 1}"))
                more = [("OUT", self.files[-1])]
            else: more = [({"in": "IN", "out": "OUT", "error": "ERR"}[kind], self.ports[{"in": "IN", "out": "OUT", "error": "ERR"}[kind], e[2]])]
            params = d.params
            for p, x in more: params = (p, x, params)
            self.counts["redirected"] += 1
            k = ("restore", d, k)
            return ("eval", e[3], env, ("shut", self.files[-1], k) if kind == "file" else k, d.but(params=params))
        if op == "say":
            sink = self.port("ERR" if e[3] else "OUT", d)
            if not sink.open: return self.raise_(Error(), k, d)
            sink.text += said(e[1], e[2])
            return ("ret", 0, k, d)
        if op == "sofar": return ("ret", sum(len(p.text) for p in self.ports.values() if getattr(p, "name", None) == e[1]), k, d)
        if op == "hear": return ("ret", self.port("IN", d).hear(e[1]), k, d)
        if op == "guard":
            outer = Cont(k, d)

            def handler(v, hk, hd, e=e, env=env, outer=outer):
                # leave to the guard, choose a clause, and come back to raise again when there is none
                origin = Cont(hk, hd)
                return self.travel(Cont(("guarded", (e, env, v, origin), outer.k), outer.d), 0, hd)

            return ("eval", e[4], env, ("restore", d, k), d.but(handlers=(handler, d.handlers)))
        if op == "delay":
            kind = e[2]
            if kind == "make": return ("eval", e[3], env, ("made", (e, env), k), d)
            if kind == "same": return ("eval", e[4], (e[1], [self.atom(e[3][1], env)], env), k, d)
            p = Promise(False, ("chain", self.atom(e[3][1], env), None) if kind == "chain" else (kind, e[3], env))
            return ("eval", e[4], (e[1], [p], env), k, d)
        if op == "force": return self.force(self.atom(e[1], env), k, d)
        raise ValueError(op)

    def port(self, name, d):
        p = d.params
        while p is not None:
            if p[0] == name: return p[1]
            p = p[2]
        return self.ports[name, None]

    def parameter(self, name, d):
        p = d.params
        while p is not None:
            if p[0] == name: return p[1]
            p = p[2]
        return DEFAULTS[name]

    def bind(self, e, env, i, params, k, d):
        while i < len(e[1]):
            p, a = e[1][i]
            v = self.number(self.atom(a, env))
            i += 1
            if p == "P1":
                self.log.append(f"(convert {v} {' '.join(str(self.parameter(q, d)) for q in ('P0', 'P1', 'P2'))})")
                v += 1000
            if p == "P2":
                return self.tick(("converted", (e, env, i, params, v + 2000), k), d)
            params = (p, v, params)
        return ("eval", e[2], env, ("restore", d, k), d.but(params=params))

    def tick(self, k, d):
        self.ticks += 1
        a = self.plan.get(self.ticks)
        if not a: return ("ret", self.ticks, k, d)
        if a[0] == "raise": return self.raise_("injected", k, d)
        if a[0] == "raisec": return self.raisec("injected", k, d)
        if a[0] == "error": return self.raise_(Error(99), k, d)
        if a[0] in ("kernel", "call"):
            self.counts["kernel"] += 1
            return self.raise_(Error(), k, d)
        if a[0] in ("exit", "emergency"): return self.leave(a[1], a[0] == "emergency", d)
        if a[0] == "resume": return self.resume(a[1], self.ticks, k, d)
        if a[0] == "capture":
            self.slots[a[1]] = Cont(k, d)
            return ("ret", a[1], k, d)
        return ("ret", 0, k, d)

    def ret(self, v, frame, d):
        kind, data, k = frame
        if kind == "result":
            self.log.append(f"(result {self.show(v)})")
            return ("ret", v, None, d)
        if kind == "shut":
            data.open = False
            return ("ret", v, k, d)
        if kind == "let": return ("eval", data[1], (data[0], [v], data[2]), k, d)
        if kind == "seq":
            e, i, env = data
            if i == len(e) - 1: return ("eval", e[i], env, k, d)
            return ("eval", e[i], env, ("seq", (e, i + 1, env), k), d)
        if kind == "set":
            data[0] = v
            return ("ret", v, k, d)
        if kind == "loop":
            e, i, env = data
            if i == e[1]: return ("ret", i, k, d)
            return ("eval", e[2], env, ("loop", (e, i + 1, env), k), d)
        if kind == "with":
            e, values, env = data
            values = list(values)
            values.insert(e[3], v)
            outer = env
            for x, y in zip(e[1], values): env = (x, [y], env)
            return ("eval", e[5], env, k, d)
        if kind == "prim":
            e, values = data
            values = list(values)
            values.insert(e[3], v)
            values = [self.number(x) for x in values]
            return ("ret", {"+": sum, "apply": sum, "-": lambda xs: xs[0] - sum(xs[1:]) if len(xs) > 1 else -xs[0], "max": max}.get(e[1], self.weigh)(values), k, d)
        if kind == "op": return ("ret", (lambda x, y: (x + y, x - y, max(x, y), x + 2 * y, 3 * x + y)[self.number(v) % 5])(*data), k, d)
        if kind == "rest":
            e, values, env = data
            values = list(values)
            values.insert(e[4], v)
            return ("eval", e[6], (e[2], [self.weigh(values[1:])], (e[1], [values[0]], env)), k, d)
        if kind == "each":
            n, x, e, i, env = data
            if i == n: return ("ret", n, k, d)
            return ("eval", e, (x, [i], env), ("each", (n, x, e, i + 1, env), k), d)
        if kind == "body":
            inner, e = data
            inner[1][0] = v
            return ("eval", e, inner, k, d)
        if kind == "restore": return ("ret", v, k, data)
        if kind == "secondary":
            self.counts["secondary"] += 1
            return self.raise_(data, k, d)
        if kind == "unwind": return self.unwind(*data)
        if kind == "windup": return self.windup(*data)
        if kind == "exiting": return self.exit(*data)
        if kind == "entered":
            e, env = data
            w = Wind(e[1], e[2], e[4], env, d)
            return ("eval", e[3], env, ("leave", (w, d), k), d.but(winds=w))
        if kind == "leave":
            w, outer = data
            self.log.append(f"(out {w.tag})")
            return ("eval", w.after, w.env, ("left", (v, outer), k), outer)
        if kind == "left": return ("ret", data[0], k, data[1])
        if kind == "converted":
            e, env, i, params, value = data
            return self.bind(e, env, i, (e[1][i - 1][0], value, params), k, d)
        if kind == "guarded":
            e, env, x, origin = data
            env2 = (e[1], [x], env)
            return self.clause(e, 0, env2, x, origin, k, d)
        if kind == "reraise": return self.raisec(data, k, d)
        if kind == "fulfil": # the value of a delayed expression
            p = data
            if not p.box[0]: p.box[:] = [True, v]
            return self.force(p, k, d)
        if kind == "forced": # v: the promise that p stands for
            p = data
            if not p.box[0]:
                p.box[:] = v.box[:]
                v.box = p.box
            return self.force(p, k, d)
        if kind == "delayed": # (delay-force (begin e (delay e))), after the first e
            p, e, env = data
            if not p.box[0]: p.box[:] = [False, ("delay", e, env)]
            return self.force(p, k, d)
        if kind == "made":
            e, env = data
            return ("eval", e[4], (e[1], [Promise(True, v)], env), k, d)
        raise ValueError(kind)

    def clause(self, e, i, env, x, origin, k, d):
        for test, body in e[2]:
            if test == "one": self.log.append("(test)")
            hit = {"number": isinstance(x, int), "symbol": isinstance(x, str), "error": isinstance(x, Error), "one": x in (1, 2, 3) if isinstance(x, int) else False,
                   "never": False, "true": True}[test]
            if hit: return ("eval", body, env, k, d)
        if e[3] is not None: return ("eval", e[3], env, k, d)
        self.counts["reraised"] += 1
        # the handler's dynamic environment: that of the raise, with the handlers outside of the guard
        return self.travel(Cont(("reraise", x, origin.k), origin.d), 0, d)


# ---- generation -------------------------------------------------------------------------------------

class Generator:
    def __init__(self, rng, weights, fuel):
        self.rng, self.weights, self.n, self.fuel, self.thread = rng, weights, 0, fuel, None
        self.names = [w for w in weights if weights[w] > 0]
        self.values = [weights[w] for w in self.names]

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def pick(self, env, kind):
        vs = [v for v, t in env if t == kind]
        return self.rng.choice(vs) if vs else None

    def atom(self, env):
        r = self.rng
        v = self.pick(env, r.choice(["int", "int", "read-only"]))
        if v and r.random() < 0.6: return v
        return r.randint(0, 9)

    def payload(self, env):
        r = self.rng
        v = self.pick(env, "any")
        if v and r.random() < 0.3: return v
        return r.choice([self.atom(env), r.randint(1, 3), ["q", r.choice(["alpha", "beta"])]])

    def leaf(self, env):
        r = self.rng
        self.fuel -= 1
        if self.thread is not None and r.random() < 0.4: return self.switch()
        if self.weights.get("say") and r.random() < 0.6: return self.talk()
        k = r.random()
        if k < 0.35: return ["tick"]
        if k < 0.6:
            v = self.pick(env, r.choice(["int", "read-only", "any"]))
            self.n += 1
            return ["log", self.n, v if v else r.randint(0, 9)]
        p = self.pick(env, "promise")
        if p and k < 0.75: return ["force", p]
        c = self.pick(env, "k")
        if c and k < 0.85: return r.choice([["throw", c, self.atom(env)], ["keep", r.randrange(4), c]])
        f = self.pick(env, "fn")
        if f and k < 0.9: return ["call", f, self.atom(env)]
        if self.weights.get("param") and k < 0.96: return ["getp", r.choice(["P0", "P1", "P2"])]
        return ["a", self.atom(env)]

    def talk(self):
        r = self.rng
        self.n += 1
        if r.random() < 0.12: return ["sofar", r.choice(["out0", "out1", "error0"])]
        return ["say", self.n, r.choice(["display", "write", "string", "slice", "char", "simple", "shared"]), r.random() < 0.3] if r.random() < 0.75 else ["hear", r.choice(["char", "peek", "line", "string", "datum"])]

    def switch(self):
        """Gives way to the scheduler; logs what the thread is resumed with."""
        k, x = self.fresh("k"), self.fresh("x")
        return ["let", x, ["callcc", k, ["seq", ["keep", self.thread, k], ["resume", 3, self.thread]]], ["log", self.n, x]]

    def step(self, e):
        """One step of the scheduler: e runs until it gives way."""
        k = self.fresh("k")
        return ["callcc", k, ["seq", ["keep", 3, k], e]]

    def threads(self, d, steps):
        """Up to three threads of control and the seeded order in which they run."""
        r = self.rng
        n = r.randint(1, 3)
        share = self.fuel // n
        form = ["seq"]
        for j in range(n):
            self.thread, self.fuel = j, share
            body = self.expr(d, [])
            self.thread = None
            form.append(self.step(["seq", body, ["log", 1000 + j, j], ["resume", 3, j]]))
        for i in range(steps):
            form.append(self.step(["resume", r.randrange(n), 100 + i]))
        return form

    def protected(self, e):
        """e with a handler around it, so that an exception does not end the form."""
        x = self.fresh("c")
        self.n += 1
        return ["guard", x, [], ["log", self.n, x], e]

    def entry(self, d, env):
        """The expression that gives a variable its value: at times a point that is entered again later."""
        r = self.rng
        if r.random() < 0.7 or not self.weights["resume"]: return self.expr(d - 1, env)
        k = self.fresh("k")
        return ["callcc", k, ["seq", ["keep", r.randrange(4), k], self.leaf(env + [(k, "k")]) if r.random() < 0.6 else self.expr(d - 1, env + [(k, "k")])]]

    def seen(self, x, e):
        if self.rng.random() < 0.6: return e
        self.n += 1
        return ["seq", ["log", self.n, x], e]

    def expr(self, d, env):
        r = self.rng
        if d <= 0 or self.fuel <= 0: return self.leaf(env)
        self.fuel -= 1
        op = r.choices(self.names, self.values)[0]
        E = lambda e=env: self.expr(d - 1, e)
        if op == "let":
            x = self.fresh("x")
            return ["let", x, self.entry(d, env), self.seen(x, E(env + [(x, "int")]))]
        if op == "seq": return ["seq"] + [E() for _ in range(r.randint(2, 4))]
        if op == "if": return ["if", self.atom(env), r.randint(0, 9), E(), E()]
        if op == "add": return ["add", self.atom(env), self.atom(env)]
        if op == "set":
            x = self.pick(env, "int")
            return ["set", x, E()] if x else E()
        if op == "loop": return ["loop", r.randint(1, 3), E()]
        if op == "with":
            # the other operands do not depend on e; none is assigned (see the findings)
            xs = [self.fresh("y") for _ in range(r.randint(2, 4))]
            i = r.randrange(len(xs))
            atoms = [self.pick(env, "read-only") or r.randint(0, 9) if r.random() < 0.5 else r.randint(0, 9) for _ in xs[1:]]
            return ["with", xs, atoms, i, self.entry(d, env), E(env + [(x, "read-only") for x in xs])]
        if op in ("prim", "rest"):
            n = r.choice([1, 2, 2, 3, 4])
            i = r.randrange(n)
            atoms = [self.pick(env, "read-only") or r.randint(0, 9) if r.random() < 0.5 else r.randint(0, 9) for _ in range(n - 1)]
            if op == "prim": return ["prim", r.choice(["+", "-", "max", "vector", "list", "apply"]), atoms, i, self.entry(d, env)]
            x, y = self.fresh("y"), self.fresh("y")
            return ["rest", x, y, atoms, i, self.entry(d, env), E(env + [(x, "read-only"), (y, "int")])]
        if op == "op": return ["op", E(), [self.pick(env, "read-only") or 4, r.randint(0, 9)], r.random() < 0.3]
        if op == "letrec":
            f, x = self.fresh("f"), self.fresh("x")
            return ["letrec", f, x, E(env + [(x, "int"), (f, "fn")]), E(env + [(f, "fn")])]
        if op == "each":
            x = self.fresh("y")
            return ["each", r.choice(["list", "vector"]), x, r.randint(1, 4), E(env + [(x, "read-only")])]
        if op == "do":
            x = self.fresh("y")
            return ["do", x, r.randint(1, 4), E(env + [(x, "read-only")])]
        if op == "body":
            x = self.fresh("x")
            return ["body", x, self.entry(d, env), self.seen(x, E(env + [(x, "int")])), r.choice(["define", "letrec", "letrec2", "letrec*", "list", "tail"])]
        if op == "fn":
            x, f = self.fresh("x"), self.fresh("f")
            return ["fn", x, E(env + [(x, "int")]), f, E(env + [(f, "fn")])]
        if op == "callcc":
            k = self.fresh("k")
            body = self.expr(d - 1, env + [(k, "k")])
            return ["callcc", k, body if r.random() < 0.4 else ["seq", ["keep", r.randrange(4), k], body]]
        if op == "throw":
            k = self.pick(env, "k")
            return ["throw", k, self.atom(env)] if k else E()
        if op == "resume": return ["resume", r.randrange(4), self.atom(env)]
        if op == "wind":
            self.n += 1
            n = self.n
            short = lambda: self.expr(r.choice([0, 0, 0, 1, d - 1]), env) if r.random() < 0.7 else ["a", 0]
            return ["wind", n, short(), E(), short()]
        if op == "param":
            ps = r.sample(["P0", "P1", "P2"], r.choice([1, 1, 2]))
            if "P2" in ps and "P1" in ps: ps = ps[:1] # the order of conversions is unspecified
            return ["param", [[p, self.atom(env)] for p in ps], E()]
        if op == "getp": return ["getp", r.choice(["P0", "P1", "P2"])]
        if op == "weh":
            x = self.fresh("c")
            return ["weh", x, ["seq", ["log", self.n, x], self.expr(d - 1, env + [(x, "any")])], E()]
        if op == "redirect":
            kind = r.choice(["out", "out", "error", "in", "in", "file", "port", "swap"])
            return ["redirect", kind, r.randrange(1 if kind == "error" else 2), E()]
        if op == "say": return self.talk()
        if op == "raise": return ["raise", self.payload(env)]
        if op == "raisec": return ["raisec", self.payload(env)]
        if op == "err": return ["err", r.randint(0, 9)]
        if op == "exit": return ["exit", r.choice(["none", "true", "false", 0, 1, 2, 77, 255]), r.random() < 0.15]
        if op == "kerr": return ["kerr", r.choice(sorted(KERNEL))]
        if op == "guard":
            x = self.fresh("c")
            inner = env + [(x, "any")]
            clauses = [[r.choice(["number", "symbol", "error", "one", "never", "true" if r.random() < 0.3 else "one"]), ["seq", ["log", self.n, x], self.expr(d - 1, inner)]] for _ in range(r.randint(0, 2))]
            return ["guard", x, clauses, self.expr(d - 1, inner) if r.random() < 0.4 or not clauses else None, E()]
        if op == "delay":
            p = self.fresh("p")
            other = self.pick(env, "promise")
            kind = r.choice(["delay", "delay", "delay", "force", "force", "make", "make", *(["chain", "chain", "chain", "same"] if other else ["delay", "force"])])
            e = ["a", other] if kind in ("chain", "same") else E()
            return ["delay", p, kind, e, self.expr(d - 1, env + [(p, "promise")])]
        if op == "force":
            p = self.pick(env, "promise")
            return ["force", p] if p else E()
        return self.leaf(env)


BASE = {"let": 3, "seq": 5, "if": 1, "add": 1, "set": 1, "loop": 1, "with": 1.5, "prim": 1, "op": 0.7, "rest": 0.5, "letrec": 0.5, "each": 0.5, "do": 0.4, "body": 0.7, "fn": 1, "leaf": 2, "callcc": 1, "throw": 1, "resume": 1, "wind": 1, "param": 0.5, "getp": 0.5,
        "weh": 0.7, "raise": 0.5, "raisec": 0.5, "err": 0.3, "kerr": 0.3, "guard": 0.7, "delay": 0.3, "force": 0.5}


def reference(s, limit=30000):
    m = Machine(s["fuel"], s["schedule"], limit, {None if i == 2 else i: t for i, t in enumerate(s.get("inputs", []))})
    ends = []
    for f in s["forms"]:
        ends.append(m.run(f))
        if isinstance(ends[-1], tuple): break
    return m, ends


def program(s):
    setup = [f"(set! fuel {s['fuel']})", "(set! plan '(" + " ".join("(" + " ".join(map(str, p)) + ")" for p in s["schedule"]) + "))"]
    return setup, ["(sim-log (list 'result (show " + scheme(f) + ")))" for f in s["forms"]]


def children(e):
    """(index path, subexpression) of the immediate subexpressions."""
    op = e[0]
    if op == "let": return [2, 3]
    if op == "seq": return list(range(1, len(e)))
    if op == "if": return [3, 4]
    if op in ("set", "loop", "callcc"): return [2]
    if op == "fn": return [2, 4]
    if op == "with": return [4, 5]
    if op == "prim": return [4]
    if op == "op": return [1]
    if op == "rest": return [5, 6]
    if op == "letrec": return [3, 4]
    if op == "each": return [4]
    if op == "do": return [3]
    if op == "body": return [2, 3]
    if op == "wind": return [2, 3, 4]
    if op == "param": return [2]
    if op == "redirect": return [3]
    if op == "weh": return [2, 3]
    if op == "guard": return ([3] if e[3] is not None else []) + [4]
    if op == "delay": return [4] if e[2] in ("chain", "same") else [3, 4]
    return []


def closed(e, env=frozenset()):
    """Whether every variable is bound (with the right use left to the generator's types)."""
    def a(x): return not isinstance(x, str) or x in env
    op = e[0]
    C = lambda x, *more: closed(x, env | set(more))
    if op == "a": return a(e[1])
    if op == "let": return C(e[2]) and C(e[3], e[1])
    if op == "seq": return len(e) > 1 and all(C(x) for x in e[1:])
    if op == "if": return a(e[1]) and C(e[3]) and C(e[4])
    if op == "add": return a(e[1]) and a(e[2])
    if op == "set": return e[1] in env and C(e[2])
    if op == "log": return a(e[2])
    if op == "loop": return C(e[2])
    if op == "with": return len(e[1]) == len(e[2]) + 1 and all(a(x) for x in e[2]) and C(e[4]) and C(e[5], *e[1])
    if op == "prim": return all(a(x) for x in e[2]) and C(e[4])
    if op == "op": return all(a(x) for x in e[2]) and C(e[1])
    if op == "rest": return all(a(x) for x in e[3]) and C(e[5]) and C(e[6], e[1], e[2])
    if op == "letrec": return C(e[3], e[1], e[2]) and C(e[4], e[1])
    if op == "each": return C(e[4], e[2])
    if op == "do": return C(e[3], e[1])
    if op == "body": return C(e[2]) and C(e[3], e[1])
    if op == "fn": return C(e[2], e[1]) and C(e[4], e[3])
    if op in ("call", "throw"): return e[1] in env and a(e[2])
    if op == "callcc": return C(e[2], e[1])
    if op == "keep": return e[2] in env
    if op in ("resume",): return a(e[2])
    if op == "wind": return C(e[2]) and C(e[3]) and C(e[4])
    if op == "param": return all(a(x) for _, x in e[1]) and C(e[2])
    if op == "redirect": return C(e[3])
    if op == "weh": return C(e[2], e[1]) and C(e[3])
    if op in ("raise", "raisec"): return a(e[1])
    if op == "guard": return all(C(b, e[1]) for _, b in e[2]) and (e[3] is None or C(e[3], e[1])) and C(e[4])
    if op == "delay": return C(e[3]) and C(e[4], e[1])
    if op == "force": return e[1] in env
    return True


def simpler(e):
    """Smaller variants of an expression."""
    if e[0] != "a" or e[1] != 0:
        yield ["a", 0]
    for i in children(e):
        yield e[i]
    if e[0] == "seq" and len(e) > 2:
        for i in range(1, len(e)):
            yield e[:i] + e[i + 1:]
    if e[0] == "guard" and e[2]:
        for i in range(len(e[2])):
            yield e[:2] + [e[2][:i] + e[2][i + 1:]] + e[3:]
            yield e[2][i][1]
            for x in simpler(e[2][i][1]):
                yield e[:2] + [e[2][:i] + [[e[2][i][0], x]] + e[2][i + 1:]] + e[3:]
    for i in children(e):
        for x in simpler(e[i]):
            yield e[:i] + [x] + e[i + 1:]
