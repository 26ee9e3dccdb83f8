"""C26: environments, and definitions that change while the program runs."""
import random

from ..common import *
from ..harness import Boot, Property, Violation, crash_check

INTS = ["i0", "i1", "i2", "i3"]
LEVELS = 4                  # p0 to p3 take nothing, q0 to q3 take a number; their bodies call those of lower levels only
MACROS = ["m0", "m1", "m2", "m3"] # a template may use a macro of a higher number
LOCALS = ["x", "y", "t", "i0", "i1", "q1", "m2"]
UNARY = {"add", "put", "call", "body", "data", "shadow"}


class Fail(Exception):
    pass


class Env:
    def __init__(self):
        self.vars, self.macros = {}, {}


class Proc:
    def __init__(self, env, parameter, body, frame):
        self.env, self.parameter, self.body, self.frame = env, parameter, body, frame

    def __call__(self, *arguments):
        frame = self.frame
        if self.parameter is not None: frame = {**frame, self.parameter: list(arguments)}
        return evaluate(self.body, self.env, frame)


def cell(name, env, frame):
    return (frame[name], 0) if name in frame else (env.vars, name)


def evaluate(e, env, frame):
    op = e[0]
    if op == "n": return e[1]
    if op == "v":
        c, k = cell(e[1], env, frame)
        return c[k]
    if op == "+": return evaluate(e[1], env, frame) + evaluate(e[2], env, frame)
    if op == "let": return evaluate(e[3], env, {**frame, e[1]: [evaluate(e[2], env, frame)]})
    if op == "set":
        x = evaluate(e[2], env, frame)
        c, k = cell(e[1], env, frame)
        c[k] = x
        return evaluate(e[3], env, frame)
    if op == "if": return evaluate(e[2] if evaluate(e[1], env, frame) < e[4] else e[3], env, frame)
    if op == "loop": return sum(evaluate(e[2], env, frame) for _ in range(e[1]))
    if op == "p": return env.vars[e[1]]()
    if op == "q": return env.vars[e[1]](evaluate(e[2], env, frame))
    if op == "lambda": # called twice
        f = Proc(env, e[1], e[2], frame)
        f(evaluate(e[3], env, frame))
        return f(1)
    if op == "rest": # (lambda (y . x)), whose list becomes a number
        y, x = [evaluate(e[3], env, frame)], [evaluate(e[5], env, frame)]
        y[0] += evaluate(e[4], env, frame)
        return evaluate(e[6], env, {**frame, e[1]: y, e[2]: x})
    if op == "letrec":
        def f(n): return 0 if n < 1 else evaluate(e[2], env, {**frame, e[1]: [n]}) + f(n - 1)
        return f(e[3])
    if op == "syntax": return evaluate(e[3], env, {**frame, "lm%": cell(e[2], env, frame)})
    if op == "local": return evaluate(e[2], env, frame) + e[3]
    if op == "lm":
        c, k = frame["lm%"]
        return evaluate(e[1], env, frame) + c[k]
    if op == "raise": raise Fail()
    if op == "guard":
        try: return evaluate(e[1], env, frame)
        except Fail: return evaluate(e[2], env, frame)
    if op == "mac": # (name, arguments, expansion)
        kind, k = e[3]
        if kind == "add": return evaluate(e[2][0], env, frame) + env.vars[k]
        if kind == "shadow":
            x = evaluate(e[2][0], env, frame)
            return x + env.vars[k] + 5
        if kind in ("body", "data"):
            x = evaluate(e[2][0], env, frame)
            return x + env.vars[k]
        if kind == "sum": return sum(evaluate(x, env, frame) for x in e[2]) + env.vars[k]
        if kind == "each":
            inner = {x[1]: [evaluate(v, env, frame)] for x, v in e[2][0][1]}
            limit = env.vars[k]
            return evaluate(e[2][1], env, {**frame, **inner}) + limit
        if kind == "named":
            u = sum(evaluate(e[2][2], env, {**frame, e[2][0][1]: [y]}) for y in range(e[2][1][1]))
            return u + env.vars[k]
        if kind == "twice":
            x = evaluate(e[2][0], env, frame) + env.vars[k]
            return x + evaluate(e[2][1], env, frame) + env.vars[k]
        if kind == "put":
            env.vars[k] = x = evaluate(e[2][0], env, frame)
            return x
        if kind == "or":
            x = evaluate(e[2][0], env, frame)
            return evaluate(e[2][1], env, frame) if x < 0 else x
        if kind == "call": return env.vars[k](evaluate(e[2][0], env, frame))
        if kind == "swap":
            (a, i), (b, j) = cell(e[2][0][1], env, frame), cell(e[2][1][1], env, frame)
            a[i], b[j] = b[j], a[i]
            return b[j]
        if kind == "bind": # its operand sees the name it is given
            return evaluate(e[2][2], env, {**frame, e[2][0][1]: [evaluate(e[2][1], env, frame)]}) + env.vars[k]
    raise ValueError(op)


def show(e):
    op = e[0]
    if op == "n": return str(e[1])
    if op == "v": return e[1]
    if op == "+": return f"(+ {show(e[1])} {show(e[2])})"
    if op == "let": return f"(let (({e[1]} {show(e[2])})) {show(e[3])})"
    if op == "set": return f"(begin (set! {e[1]} {show(e[2])}) {show(e[3])})"
    if op == "if": return f"(if (< {show(e[1])} {e[4]}) {show(e[2])} {show(e[3])})"
    if op == "loop": return f"(let loop% ((n% {e[1]}) (s% 0)) (if (= n% 0) s% (loop% (- n% 1) (+ s% {show(e[2])}))))"
    if op == "p": return f"({e[1]})"
    if op == "q": return f"({e[1]} {show(e[2])})"
    if op == "lambda": return f"(let ((f% (lambda ({e[1]}) {show(e[2])}))) (f% {show(e[3])}) (f% 1))"
    if op == "rest": return f"((lambda ({e[1]} . {e[2]}) (set! {e[1]} (+ {e[1]} (car {e[2]}))) (set! {e[2]} (cadr {e[2]})) {show(e[6])}) {show(e[3])} {show(e[4])} {show(e[5])})"
    if op == "letrec": return f"(letrec ((f% (lambda ({e[1]}) (let ((n% {e[1]})) (if (< n% 1) 0 (let ((v% {show(e[2])})) (+ v% (f% (- n% 1))))))))) (f% {e[3]}))"
    if op == "syntax":
        rules = f"(syntax-rules () ((_ a%) (let ((u% a%)) (+ u% {e[2]}))))"
        if e[1] == "define": return f"(let () (define-syntax lm% {rules}) {show(e[3])})"
        return f"({e[1]} ((lm% {rules})) {show(e[3])})"
    if op == "local": return f"(let (({e[1]} (lambda (v%) (+ v% {e[3]})))) ({e[1]} 0) ({e[1]} {show(e[2])}))"
    if op == "lm": return f"(lm% {show(e[1])})"
    if op == "raise": return f"(raise {e[1]})"
    if op == "guard": return f"(guard (c% (#t {show(e[2])})) {show(e[1])})"
    if op == "pairs": return f"({' '.join(f'({show(x)} {show(v)})' for x, v in e[1])})"
    if op == "mac": return f"({e[1]} {' '.join(map(show, e[2]))})"


TEMPLATES = {
    "add": "((_ a) (let ((t a)) (+ t {k})))",
    "put": "((_ a) (begin (set! {k} a) {k}))",
    "or": "((_ a b) (let ((t a)) (if (< t 0) b t)))",
    "call": "((_ a) ({k} a))",
    "swap": "((_ a b) (let ((t a)) (set! a b) (set! b t) t))",
    "chain": "((_ a) ({k} a))",
    "body": "((_ a) (let () (define t a) (define (y) (+ t {k})) (y)))",
    "data": "((_ a) (if (eq? (car (assq 'y '((x 1) (y #(t))))) 'y) (case (vector-ref '#(x y) 1) ((x) 1) ((t y) (let ((u a)) (+ u {k}))) (else 2)) 3))",
    "shadow": "((_ a) (let ((u a)) (let ((if +)) (if u {k} 5))))",
    "sum": "((_) {k}) ((_ a . r) (+ a ({m} . r)))",
    "each": "((_ ((n v) ...) b) ((lambda (n ... t) (let ((u b)) (+ u t))) v ... {k}))",
    "named": "((_ n a b) (let t ((y 0) (u 0)) (if (< y a) (let ((n y)) (let ((v b)) (t (+ y 1) (+ u v)))) (+ u {k}))))",
    "twice": "((_ a b) (let-syntax ((t (syntax-rules () ((_ c) (let ((x c)) (+ x {k})))))) (let ((y (t a))) (let ((u (t b))) (+ y u)))))",
    "bind": "((_ n a b) (let ((t (let ((n a)) b))) (+ t {k})))",
}


class Machine:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.forward = bool(seed)
        self.text, self.log, self.files = [], [], []
        self.e = {0: Env(), 1: None, 2: None}
        self.held = {}
        self.failed = self.loads = self.broken = 0

    # ---- programs

    def variables(self, scope):
        return [x for x in scope if x != "lm%"]

    def simple(self, scope):
        r = self.r
        return ("n", r.randint(-9, 99)) if r.random() < 0.4 else ("v", r.choice(INTS + self.variables(scope)))

    def expr(self, env, depth, scope, level):
        """A computation of a number that calls what is below the level."""
        r = self.r
        if not depth: return self.simple(scope)
        sub = lambda **more: self.expr(env, depth - 1, more.get("scope", scope), more.get("level", level))
        k = r.random()
        if k < 0.12: return ("+", self.simple(scope), self.simple(scope))
        if k < 0.2: return ("+", sub(), ("n", r.randint(1, 9)))
        if k < 0.32:
            x = r.choice(LOCALS)
            return ("let", x, sub(), sub(scope=scope + [x]))
        if k < 0.45: return ("set", r.choice(INTS + self.variables(scope)), sub(), sub())
        if k < 0.52: return ("if", sub(), sub(), sub(), r.randint(-5, 90))
        if k < 0.55: return ("loop", r.randint(0, 4), sub(level=0))
        if k < 0.6:
            x = r.choice(LOCALS)
            return ("lambda", x, sub(scope=scope + [x], level=0), sub())
        if k < 0.58:
            x = r.choice(MACROS + ["q0", "when", "do", "define", "begin"]) # a procedure where there may be syntax
            if x not in scope: return ("local", x, self.simple(scope), r.randint(0, 9))
        if k < 0.62: return ("guard", sub(), sub())
        if k < 0.64:
            y, x = r.sample(LOCALS, 2)
            return ("rest", y, x, self.simple(scope), self.simple(scope), self.simple(scope), sub(scope=scope + [x, y]))
        if k < 0.66:
            x = r.choice(LOCALS)
            return ("letrec", x, sub(scope=scope + [x], level=0), r.randint(0, 4))
        if k < 0.69: return ("syntax", r.choice(["define", "let-syntax", "letrec-syntax"]), r.choice(INTS + self.variables(scope)), sub(scope=scope + ["lm%"]))
        if k < 0.75 and "lm%" in scope: return ("lm", sub())
        if 0.75 <= k < 0.77: return ("raise", r.randint(0, 9))
        if k < 0.87 and env.macros:
            m = r.choice(sorted(env.macros))
            kind, key = self.resolve(env, m)
            if kind is None or m in scope: return sub()
            if kind == "call" and int(key[1]) >= level: return sub()
            if kind == "sum": operands = [self.simple(scope) for _ in range(r.randint(0, 4))]
            elif kind == "each":
                xs = r.sample(LOCALS, r.randint(0, 3))
                operands = [("pairs", [(("v", x), self.simple(scope)) for x in xs]), sub(scope=scope + xs)]
            elif kind == "named":
                x = r.choice(LOCALS)
                operands = [("v", x), ("n", r.randint(0, 3)), sub(scope=scope + [x], level=0)]
            elif kind == "twice": operands = [sub(), sub()]
            elif kind == "or": operands = [sub(), sub()]
            elif kind == "swap": operands = [("v", r.choice(INTS + self.variables(scope))) for _ in range(2)]
            elif kind == "bind":
                x = r.choice(LOCALS)
                operands = [("v", x), sub(), sub(scope=scope + [x])]
            else: operands = [sub()]
            return ("mac", m, operands, (kind, key))
        if level and k < 0.96:
            i = r.randrange(level)
            return ("p", f"p{i}") if f"q{i}" in scope or r.random() < 0.5 else ("q", f"q{i}", self.expr(env, min(depth - 1, 1), scope, 0))
        return self.simple(scope)

    def resolve(self, env, m):
        """The kind of a macro and what its template refers to, after expansion of the macros in it."""
        kind, key = env.macros.get(m, (None, None))
        if kind != "chain": return kind, key
        kind, key = self.resolve(env, key)
        return (kind, key) if kind in UNARY else (None, None)

    def definition(self, env):
        """(its text, what it does)"""
        r = self.r
        k = r.random()
        if k < 0.25:
            x, e = r.choice(INTS), self.expr(env, 2, [], LEVELS)
            return f"({r.choice(['define', 'define', 'set!'])} {x} {show(e)})", lambda: env.vars.__setitem__(x, evaluate(e, env, {}))
        if k < 0.35:
            x, y = r.sample(INTS, 2)
            a, b = r.randint(0, 99), r.randint(0, 99)
            return f"(define-values ({x} {y}) (values {a} {b}))", lambda: env.vars.update({x: a, y: b})
        i = r.randrange(LEVELS)
        if k < 0.45: # a counter
            n, s = r.randint(0, 9), r.choice(LOCALS)
            e = ("set", s, ("+", ("v", s), ("n", 1)), ("v", s))
            return f"(define p{i} (let (({s} {n})) (lambda () {show(e)})))", lambda: env.vars.__setitem__(f"p{i}", Proc(env, None, e, {s: [n]}))
        if k < 0.65:
            e = self.expr(env, r.choice([1, 2, 3]), [], i)
            return f"(define (p{i}) {show(e)})", lambda: env.vars.__setitem__(f"p{i}", Proc(env, None, e, {}))
        x = r.choice(LOCALS)
        e = self.expr(env, r.choice([1, 2, 3]), [x], i)
        body = show(e)
        if r.random() < 0.3: # an internal definition
            y = r.choice([y for y in LOCALS if y != x])
            n, e = r.randint(0, 9), self.expr(env, 2, [x, y], i)
            body = f"(define {y} {n}) {show(e)}"
            e = ("let", y, ("n", n), e)
        text = f"(define (q{i} {x}) {body})" if r.random() < 0.6 else f"(set! q{i} (lambda ({x}) {body}))"
        return text, lambda: env.vars.__setitem__(f"q{i}", Proc(env, x, e, {}))

    def macro(self, env):
        r = self.r
        m, kind = r.choice(MACROS), r.choice(sorted(TEMPLATES))
        if kind == "chain":
            if m == MACROS[-1]: kind = "call"
            else: key = r.choice(MACROS[MACROS.index(m) + 1:])
        if kind == "call": key = f"q{r.randrange(LEVELS)}"
        elif kind != "chain": key = r.choice(INTS)
        return f"(define-syntax {m} (syntax-rules () {TEMPLATES[kind].replace('{k}', key).replace('{m}', m)}))", lambda: env.macros.__setitem__(m, (kind, key))

    def sequence(self, env):
        parts = [self.definition(env) for _ in range(self.r.randint(1, 4))]
        if self.r.random() < 0.25: parts.insert(self.r.randint(0, len(parts)), ("(raise 'stop)", self.stop))
        def perform():
            for _, f in parts: f()
        return f"(begin {' '.join(t for t, _ in parts)})", perform

    def stop(self):
        raise Fail()

    def attempt(self, f):
        try: return f()
        except Fail: self.failed += 1

    # ---- the history

    def within(self, n, text):
        """An expression that evaluates the text in the environment."""
        if n: return f"(eval '{text} e{n})"
        return text if self.r.random() < 0.6 else f"(eval '{text} (interaction-environment))"

    def emit(self, text):
        self.text.append(text)

    def fresh(self, n):
        """What is to be in an environment from the start, in any order: procedures and macros before or after what they refer to."""
        r, env = self.r, self.e[n]
        items = [("i", i) for i in range(len(INTS))] + [(k, i) for k in "pq" for i in range(LEVELS)]
        if self.forward: items += [("m", 0)] * r.randint(0, 4)
        r.shuffle(items)
        if not self.forward: items.sort(key=lambda x: (x[0], -x[1]))
        for kind, i in items:
            if kind == "i":
                env.vars[INTS[i]] = 10 * i
                self.emit(self.within(n, f"(define {INTS[i]} {10 * i})"))
            elif kind == "m":
                text, f = self.macro(env)
                self.emit(self.within(n, text))
                f()
            elif kind == "p":
                e = ("p", f"p{i - 1}") if i else ("v", "i0")
                if self.forward and r.random() < 0.5: e = self.expr(env, 2, [], i)
                env.vars[f"p{i}"] = Proc(env, None, e, {})
                self.emit(self.within(n, f"(define (p{i}) {show(e)})"))
            else:
                e = ("q", f"q{i - 1}", ("v", "x")) if i else ("+", ("v", "x"), ("v", "i1"))
                if self.forward and r.random() < 0.5: e = self.expr(env, 2, ["x"], i)
                env.vars[f"q{i}"] = Proc(env, "x", e, {})
                self.emit(self.within(n, f"(define (q{i} x) {show(e)})"))

    def start(self):
        self.fresh(0)
        for n in (1, 2): self.create(n)

    def create(self, n):
        self.e[n] = Env()
        self.emit(f"(define e{n} (environment '(scheme base)))")
        self.fresh(n)

    def procedure(self, level):
        return f"{self.r.choice('pq')}{level}"

    def do(self, seed):
        r = self.r = random.Random(seed)
        n = r.randrange(3)
        env = self.e[n]
        k = r.random()
        if k < 0.3:
            e = self.expr(env, r.choice([1, 2, 3]), [], LEVELS)
            text = show(e)
            if n == 0 and r.random() < 0.5: self.emit(f"(sim-log {text})")
            else: self.emit(f"(sim-log {self.within(n, text)})")
            x = self.attempt(lambda: evaluate(e, env, {}))
            if x is not None: self.log.append(str(x))
        elif k < 0.5:
            text, f = self.definition(env)
            self.emit(self.within(n, text))
            self.attempt(f)
        elif k < 0.58:
            text, f = self.sequence(env)
            self.emit(self.within(n, text))
            self.attempt(f)
        elif k < 0.68:
            text, f = self.macro(env)
            self.emit(self.within(n, text))
            f()
        elif k < 0.76: # a procedure of one environment becomes one of another
            m = r.randrange(3)
            i = r.randrange(LEVELS)
            j = r.randint(i, LEVELS - 1)
            p = r.choice("pq")
            self.emit(f"({self.within(m, f'(lambda (w) (set! {p}{j} w))')} {self.within(n, f'{p}{i}')})")
            self.e[m].vars[f"{p}{j}"] = env.vars[f"{p}{i}"]
        elif k < 0.82:
            h = f"h{r.randrange(3)}"
            p = f"p{r.randrange(LEVELS)}"
            self.emit(f"(define {h} {self.within(n, p)})")
            self.held[h] = env.vars[p]
        elif k < 0.89:
            if self.held:
                h = r.choice(sorted(self.held))
                self.emit(f"(sim-log ({h}))")
                x = self.attempt(self.held[h])
                if x is not None: self.log.append(str(x))
        elif k < 0.905: # a variable where there may be a macro
            m, x = r.choice(MACROS), r.randint(0, 99)
            self.emit(self.within(n, f"(define {m} {x})"))
            self.emit(f"(sim-log {self.within(n, f'(+ {m} 1)')})")
            self.log.append(str(x + 1))
            env.macros.pop(m, None)
        elif k < 0.92:
            if n: self.create(n)
        elif k < 0.935:
            self.emit(f"(define e{n or 1} e{3 - (n or 1)})") # both names stand for one environment
            self.e[n or 1] = self.e[3 - (n or 1)]
        else: self.load(n, env)

    def load(self, n, env):
        r = self.r
        path = f"/sim/f{len(self.files)}.scm"
        parts, broken = [], False
        again = r.random() < 0.5
        for _ in range(r.randint(1, 6)):
            part = self.definition(env) if r.random() < 0.85 else ("(raise 'stop)", self.stop)
            parts.append(part)
        text, ends = "", []
        for t, _ in parts:
            text += r.choice(["\n", " ", "\n; text ()\n"]) + t
            ends.append(len(text))
        text += "\n"
        size = r.choice([1, 2, 7, 16, 50])
        fault = None
        if r.random() < 0.5:
            fault = r.randint(0, len(text) // size + 1)
            if any(0 <= size * fault - end <= 1 for end in ends): fault = None # whether the end of a datum is seen then is left open
        self.files.append((path, text, size))
        self.loads += 1
        expression = f'(load "{path}" {f"e{n}" if n else "(interaction-environment)"})' if n or r.random() < 0.5 else f'(load "{path}")'
        for turn in range(2 if again else 1):
            if fault is not None and not turn: self.emit(f"\nfault read {path} {fault} {EIO}")
            self.emit(expression)
            if fault is not None and not turn: self.emit("\nclearfaults")
            limit = size * fault if fault is not None and not turn else len(text)
            def perform():
                for (_, f), end in zip(parts, ends):
                    if end > limit:
                        self.broken += 1
                        return
                    f()
            self.attempt(perform)

    def finish(self):
        self.r = random.Random(0)
        for n in range(3):
            for x in INTS:
                self.emit(f"(sim-log {self.within(n, x)})")
                self.log.append(str(self.e[n].vars[x]))
            for i in range(LEVELS):
                self.emit(f"(sim-log {self.within(n, f'(p{i})')})")
                x = self.attempt(self.e[n].vars[f"p{i}"])
                if x is not None: self.log.append(str(x))


class C26(Property):
    id = "C26"
    shrink = ("ops",)
    runs = {"quick": 1500, "thorough": 100000}
    wall = {"quick": 40, "thorough": 900}
    rule = ("A case is a history of up to 80 steps in the environment of the program and two others, made and dropped as it goes, where procedures and macros come before or after what they refer to: definitions, assignments, definitions of macros, expressions that call and assign, sequences that fail in the middle, procedures handed from one environment to another and kept when theirs is dropped, files that are loaded with failing reads in between and loaded again, under seeded collections and placement. "
            "Each step is performed by a reference model of environments too, and every value logged, and all variables at the end, must be those of the model. Non-trivial: at least ten steps.")
    assumptions = ["imported names are not assigned or defined again", "a datum of a file whose last byte was read has been read; two bytes around the failure are left open"]

    def scenario(self, rng, tier):
        n = rng.choice([5, 10, 20, 40, 80])
        return {"start": rng.getrandbits(40), "ops": [rng.getrandbits(40) for _ in range(n)], "gc": random_gc(rng, 2500 * n + 20000, 0.7, 16), "place": random_place(rng)}

    def simplify(self, s):
        if s["start"]: yield {**s, "start": 0}
        for key, value in (("gc", "gc off"), ("place", "place lifo")):
            if s[key] != value: yield {**s, key: value}

    def history(self, s):
        m = Machine(s["start"])
        m.start()
        m.beginning = len(m.text)
        for seed in s["ops"]: m.do(seed)
        m.finish()
        return m

    def plans(self, s):
        m = self.history(s)
        text = "cpu 20\n" + forms("(import (scheme eval) (scheme load) (scheme repl))")
        for path, data, size in m.files:
            text += f"file {path} {hexed(data)}\nrchunk {path} {size}\n"
        text += s["place"] + "\n" + s["gc"] + "\n" + "".join(x[1:] + "\n" if x[0] == "\n" else forms(x) for x in m.text)
        return [(Boot("full"), text)]

    def judge(self, s, logs, ctx):
        log = logs[0]
        crash_check(log)
        m = self.history(s)
        for i, (a, b) in enumerate(zip(log.logs, m.log)):
            if a != b: raise Violation("differs", f"value {i}: expected {b}, got {a}; {m.text[m.beginning:]}; files {m.files}")
        if len(log.logs) != len(m.log): raise Violation("differs", f"expected {len(m.log)} values, got {len(log.logs)}; the last: {log.logs[-1:]}; {m.text[m.beginning:]}; files {m.files}; errors {[x for x in log.results.values() if x[0] != 'R'][:2]}")
        ctx.probe("steps", len(s["ops"]))
        ctx.probe("steps that failed", m.failed)
        ctx.probe("files loaded", m.loads)
        ctx.probe("files whose reading failed", m.broken)

    def nontrivial(self, s, logs):
        return len(s["ops"]) >= 10


PROPERTY = C26()
