"""C01: what a program computes does not depend on when storage is reclaimed or where objects are placed."""
import re

from ..common import *
from ..harness import Boot, Property, Violation, crash_check
from ..tour import tour

ADDRESS = re.compile(r"0x[0-9a-f]+")

DEFINITIONS = [
    "(define-record-type point (make-point x y) point? (x point-x set-point-x!) (y point-y))",
    "(define p1 (make-parameter 10))",
    "(define p2 (make-parameter '(a) (lambda (x) (if (pair? x) x (list x)))))",
    "(define (iota* n) (let loop ((i n) (xs '())) (if (= i 0) xs (loop (- i 1) (cons i xs)))))",
    "(define (gen-list start end) (if (< end start) '() (cons start (gen-list (+ start 1) end))))",
    "(define (tree->generator tree) (define return #f) (define (continue) (for-each (lambda (x) (call/cc (lambda (next) (set! continue (lambda () (next #f))) (return x)))) tree) (return 'done))"
    " (lambda () (call/cc (lambda (r) (set! return r) (continue)))))",
    "(define-syntax swap! (syntax-rules () ((_ a b) (let ((tmp a)) (set! a b) (set! b tmp)))))",
    "(define-syntax while (syntax-rules () ((_ c b ...) (let loop () (if c (begin b ... (loop)) #f)))))",
    "(define-syntax my-or (syntax-rules () ((_) #f) ((_ e) e) ((_ e r ...) (let ((t e)) (if t t (my-or r ...))))))",
    "(define global 0)",
    "(define table '())",
]


class Gen:
    """Expressions of a given type. Every production only calls procedures within their domain."""

    def __init__(self, rng):
        self.rng, self.n, self.fuel = rng, 0, rng.choice([6, 12, 25, 40])

    def name(self):
        self.n += 1
        return f"v{self.n}"

    def __call__(self, t, d, env):
        self.fuel -= 1
        if d <= 0 or self.fuel < 0:
            return self.leaf(t, env)
        k = self.rng.random()
        if k < 0.30:
            return self.control(t, d - 1, env)
        return getattr(self, t)(d - 1, env)

    def leaf(self, t, env):
        r = self.rng
        vs = [v for v, u in env if u == t]
        if vs and r.random() < 0.6: return r.choice(vs)
        if t == "int": return str(r.choice([0, 1, 2, 7, -3, 255, 65536, r.randint(-10**6, 10**6), r.randint(-10**24, 10**24)]))
        if t == "small": return str(r.randint(0, 6))
        if t == "str": return '"' + "".join(r.choice("abcdeé漢") for _ in range(r.randint(0, 6))) + '"'
        if t == "sym": return "'" + r.choice(["a", "b", "foo", "bar-baz", "quux"])
        if t == "bool": return r.choice(["#t", "#f"])
        if t == "char": return r.choice(["#\\a", "#\\space", "#\\λ", "#\\z"])
        if t == "list": return r.choice(["'()", "(list 1 2 3)", "'(a (b c) \"d\" #\\e)", "(gen-list 1 5)", "(list 'x \"y\" 2/3)"])
        if t == "vec": return r.choice(["(vector)", "(vector 1 2 3)", "(make-vector 3 'z)", "#(1 (2) \"three\")"])
        if t == "bytes": return r.choice(["(bytevector)", "(bytevector 1 2 3)", "(make-bytevector 4 7)"])
        raise ValueError(t)

    def any(self):
        return self.rng.choice(["int", "str", "sym", "list", "vec", "bytes", "char", "bool"])

    # ---- control ---------------------------------------------------------------------------

    def control(self, t, d, env):
        r = self.rng
        E = lambda t, extra=(): self(t, d, env + list(extra))
        k = r.randrange(27)
        u = self.any()
        v, w = self.name(), self.name()
        if k == 0: return f"(let (({v} {E(u)}) ({w} {E(t)})) {E(t, [(v, u), (w, t)])})"
        if k == 1: return f"(let* (({v} {E(u)}) ({w} {E(t, [(v, u)])})) {E(t, [(v, u), (w, t)])})"
        if k == 2: return f"(if {E('bool')} {E(t)} {E(t)})"
        if k == 3: return f"((lambda ({v} . {w}) {E(t, [(v, u), (w, 'list')])}) {E(u)} {E(self.any())} {E(self.any())})"
        if k == 4: return f"(call/cc (lambda ({v}) {E(self.any())} (if {E('bool')} ({v} {E(t)}) {E(t)})))"
        if k == 5: return f"(guard (e (#f 0) ((string? e) {E(t)}) (else {E(t)})) {E(self.any())} (raise {E(self.any())}))"
        if k == 6: return f"(guard (e ((error-object? e) (set! global (length (error-object-irritants e))) {E(t)})) (error \"oops\" {E(u)} {E(self.any())}))"
        if k == 7: return f"(let* (({w} '()) ({v} (dynamic-wind (lambda () (set! {w} (cons 'in {w}))) (lambda () {E(t)}) (lambda () (set! {w} (cons 'out {w})))))) (sim-log {w}) {v})"
        if k == 8: return f"(parameterize ((p1 {E('int')}) (p2 {E('list')})) {E(u)} {E(t)})"
        if k == 9: return f"(force (delay {E(t)}))"
        if k == 10: return f"(let-values ((({v} {w}) (values {E(u)} {E(t)}))) {E(t, [(v, u), (w, t)])})"
        if k == 11: return f"(let loop ((i {self.leaf('small', [])}) ({v} {E(t)})) (if (= i 0) {v} (loop (- i 1) {E(t, [(v, t), ('i', 'int')])})))"
        if k == 12: return f"(letrec (({v} (lambda (n x) (if (< n 1) x ({w} (- n 1) x)))) ({w} (lambda (n x) (if (< n 1) x ({v} (- n 1) x))))) ({v} {self.leaf('small', [])} {E(t)}))"
        if k == 13: return f"(begin (define {v} {E(u)}) (set! table (list {v} {E(self.any())})) {E(t)})" if False else f"(let () (define {v} {E(u)}) (define ({w} x) {E(t, [(v, u)])}) ({w} {E(self.any())}))"
        if k == 14: return f"(with-exception-handler (lambda (e) {E(t)}) (lambda () (raise-continuable {E(u)})))"
        if k == 15: return f"(case {E('small') if r.random() < 0.5 else self.leaf('small', [])} ((0 1 2) {E(t)}) ((3) {E(t)}) (else {E(t)}))"
        if k == 16: return f"(let (({v} {E(t)}) ({w} {E(t)})) (swap! {v} {w}) {E(t, [(v, t), (w, t)])})"
        if k == 17: return f"(call-with-values (lambda () (values {E(u)} {E(t)})) (lambda ({v} {w}) {w}))"
        if k == 18: return f"(apply (lambda ({v} {w}) {E(t, [(v, u), (w, t)])}) (list {E(u)} {E(t)}))"
        if k == 19: return f"(do ((i 0 (+ i 1)) ({v} {E(t)} {E(t)})) ((= i {self.leaf('small', [])}) {v}))"
        if k == 20: return f"(let (({v} (make-point {E(u)} {E(t)}))) (set-point-x! {v} {E(self.any())}) (point-y {v}))"
        if k == 21: return f"(begin (sim-log (enc {E(u)})) {E(t)})"
        if k == 22 and t in ("int", "str", "list", "sym"): return f"(eval '{self(t, min(d, 1), [])} (interaction-environment))"
        if k == 23: return f"(let-syntax (({v} (syntax-rules () ((_ x) (let ((y x)) y)) ((_ x z ...) (begin x ({v} z ...)))))) ({v} {E(u)} {E(t)}))"
        if k == 24: return f"(cond ((assq 'a '((a . 1) (b . 2))) => (lambda ({v}) {E(t)})) (else {E(t)}))"
        if k == 25: return f"(let (({v} (make-parameter {E(t)}))) (parameterize (({v} {E(t)})) ({v})))"
        return f"(let* (({v} (lambda () {E(t)})) ({w} (vector {v} {E(u)}))) ((vector-ref {w} 0)))"

    # ---- data --------------------------------------------------------------------------------

    def small(self, d, env):
        return self.leaf("small", env)

    def int(self, d, env):
        r = self.rng
        E = lambda t: self(t, d, env)
        k = r.randrange(17)
        if k < 3: return f"({r.choice(['+', '-', '*'])} {E('int')} {E('int')})"
        if k == 3: return f"(length {E('list')})"
        if k == 4: return f"(string-length {E('str')})"
        if k == 5: return f"(vector-length {E('vec')})"
        if k == 6: return f"(apply + (map (lambda (x) (if (number? x) 1 2)) {E('list')}))"
        if k == 7: return f"(bytevector-length {E('bytes')})"
        if k == 8: return f"(numerator (/ {E('int')} 7))"
        if k == 9: return f"(quotient (* {E('int')} {E('int')}) 97)"
        if k == 10: return f"(let ((x {E('int')})) (set! global (+ global 1)) (set! x (+ x global)) x)"
        if k == 11: return f"(string->number (number->string {E('int')}))"
        if k == 12: return f"(p1)"
        if k == 13: return f"(let ((n 0)) (for-each (lambda (x) (set! n (+ n 1))) {E('list')}) n)"
        if k == 14: return f"(let ((g (tree->generator {E('list')}))) (let loop ((n 0)) (if (or (eq? (g) 'done) (< 20 n)) n (loop (+ n 1)))))"
        if k == 15: return f"(char->integer {E('char')})"
        return f"(exact (floor (* 1.5 {r.randint(-1000, 1000)})))"

    def str(self, d, env):
        r = self.rng
        E = lambda t: self(t, d, env)
        k = r.randrange(14)
        if k < 2: return f"(string-append {E('str')} {E('str')})"
        if k == 2: return f"(symbol->string {E('sym')})"
        if k == 3: return f"(number->string {E('int')})"
        if k == 4: return f"(list->string (map char-upcase (string->list {E('str')})))"
        if k == 5: return f"(let ((o (open-output-string))) (write {E(self.any())} o) (display {E('str')} o) (get-output-string o))"
        if k == 6: return f"(let ((s (make-string {self.leaf('small', [])} {E('char')}))) (string-copy s))"
        if k == 7: return f"(utf8->string (string->utf8 {E('str')}))"
        if k == 8: return f"(string-copy {E('str')})"
        if k == 9: return f"(let ((p (open-input-string {E('str')}))) (let ((s (read-string 3 p))) (if (eof-object? s) \"\" s)))"
        if k == 10: return f"(string {E('char')} {E('char')})"
        if k == 11: return f"(string-map (lambda (c) {E('char')}) {E('str')})"
        if k == 12: return f"(let ((o (open-output-string))) (for-each (lambda (x) (write x o) (write-char #\\; o)) {E('list')}) (get-output-string o))"
        return f"(guard (e ((error-object? e) (error-object-message e)) ((string? e) e)) (if {E('bool')} (error {E('str')} {E(self.any())}) (raise {E('str')})))"

    def sym(self, d, env):
        E = lambda t: self(t, d, env)
        k = self.rng.randrange(4)
        if k == 0: return f"(string->symbol (string-append \"s\" (number->string (modulo {E('int')} 1000))))"
        if k == 1: return f"(let ((x (memq {E('sym')} '(a b foo)))) (if x (car x) 'none))"
        if k == 2: return f"(if (eq? {E('sym')} {E('sym')}) 'same 'different)"
        return f"(cadr (list {E(self.any())} {E('sym')}))"

    def bool(self, d, env):
        E = lambda t: self(t, d, env)
        r = self.rng
        k = r.randrange(8)
        if k == 0: return f"(equal? {E('list')} {E('list')})"
        if k == 1: return f"(< {E('int')} {E('int')})"
        if k == 2: return f"(null? {E('list')})"
        if k == 3: return f"(string=? {E('str')} {E('str')})"
        if k == 4: return f"(my-or #f {E('bool')} {E('bool')})"
        if k == 5: return f"(pair? (member {E('int')} {E('list')}))"
        if k == 6: return f"(let ((x {E(self.any())})) (eqv? x x))"
        return f"(not {E('bool')})"

    def char(self, d, env):
        E = lambda t: self(t, d, env)
        k = self.rng.randrange(3)
        if k == 0: return f"(string-ref (string-append {E('str')} \"x\") 0)"
        if k == 1: return f"(char-upcase {E('char')})"
        return f"(integer->char (+ 97 (modulo {E('int')} 26)))"

    def list(self, d, env):
        r = self.rng
        E = lambda t: self(t, d, env)
        k = r.randrange(22)
        if k < 3: return f"(list {' '.join(E(self.any()) for _ in range(r.randint(0, 4)))})"
        if k == 3: return f"(cons {E(self.any())} {E('list')})"
        if k == 4: return f"(append {E('list')} {E('list')})"
        if k == 5: return f"(reverse {E('list')})"
        if k == 6: return f"(map (lambda (x) (cons x {E(self.any())})) {E('list')})"
        if k == 7: return f"(vector->list {E('vec')})"
        if k == 8: return f"(string->list {E('str')})"
        if k == 9: return f"(list-copy {E('list')})"
        if k == 10: return f"`(1 ,{E('int')} ,@{E('list')} #(x ,{E('sym')}))"
        if k == 11: return f"(let ((x (list 1 {E(self.any())} 3))) (set-cdr! (cddr x) {E('list')}) (set-car! x {E(self.any())}) x)"
        if k == 12: return f"(let ((p (open-input-string \"(1 (two \\\"three\\\" #\\\\x) #(4 5) . 6) foo\"))) (let* ((a (read p)) (b (read p))) (list (cadr a) b {E('int')})))"
        if k == 13: return f"(map + (gen-list 1 3) (gen-list 4 6))"
        if k == 14: return f"(let ((ks '()) (n 0)) (let ((x (call/cc (lambda (k) (set! ks (cons k ks)) 0)))) (set! n (+ n 1)) (if (< n 3) ((car ks) n) (list x n))))"
        if k == 15: return f"(let loop ((i 0) (acc {E('list')})) (if (< i {r.choice([3, 10, 40])}) (loop (+ i 1) (cons (list i {self.leaf(self.any(), env)}) acc)) (list (length acc) (car acc))))"
        if k == 16: return f"(guard (e (#t (list 'caught (if (error-object? e) (error-object-irritants e) e)))) (with-exception-handler (lambda (e) (raise (list 'again e))) (lambda () (raise {E(self.any())}))))"
        if k == 17: return f"(let ((s (delay (list {E(self.any())} {E('int')})))) (append (force s) (force s)))"
        if k == 18: return f"(p2)"
        if k == 19: return f"(let ((x (assoc {E('str')} (list (cons \"a\" 1) (cons \"bc\" {E('int')}))))) (if x (list (cdr x)) '()))"
        if k == 20: return f"(let ((v (make-vector 4 '()))) (vector-for-each (lambda (x) (vector-set! v 0 (cons x (vector-ref v 0)))) {E('vec')}) (vector->list v))"
        return f"(list {E('list')} (exact->inexact (/ {E('int')} 3)) (/ {r.randint(1, 99)} {r.randint(2, 50)}))".replace("exact->inexact", "inexact")

    def vec(self, d, env):
        E = lambda t: self(t, d, env)
        k = self.rng.randrange(8)
        if k == 0: return f"(vector {E(self.any())} {E(self.any())})"
        if k == 1: return f"(list->vector {E('list')})"
        if k == 2: return f"(vector-map (lambda (x) (list x {E(self.any())})) {E('vec')})"
        if k == 3: return f"(vector-append {E('vec')} {E('vec')})"
        if k == 4: return f"(let ((v (make-vector 3 {E(self.any())}))) (vector-set! v 1 {E(self.any())}) v)"
        if k == 5: return f"(vector-copy {E('vec')})"
        if k == 6: return f"(let ((v (vector 1 2 3))) (vector-fill! v {E(self.any())}) v)"
        return f"(let* ((v (vector 1 2 3)) (p (make-point v {E(self.any())}))) (vector-set! (point-x p) 2 (point-y p)) v)"

    def bytes(self, d, env):
        E = lambda t: self(t, d, env)
        k = self.rng.randrange(5)
        if k == 0: return f"(string->utf8 {E('str')})"
        if k == 1: return f"(bytevector-append {E('bytes')} {E('bytes')})"
        if k == 2: return f"(bytevector-copy {E('bytes')})"
        if k == 3: return f"(let ((o (open-output-bytevector))) (write-bytevector {E('bytes')} o) (write-u8 9 o) (get-output-bytevector o))"
        return f"(let* ((p (open-input-bytevector {E('bytes')})) (x (read-bytevector 2 p))) (if (eof-object? x) (bytevector) x))"


class C01(Property):
    id = "C01"
    shrink = ("forms", "at", "imports")
    runs = {"quick": 450, "thorough": 60000}
    wall = {"quick": 45, "thorough": 900}
    rule = ("A case is a generated program of 1-5 top-level forms over lists, vectors, strings, bignums, closures, macros, records, parameters, promises, string ports, eval, exceptions and continuations, executed once without "
            "the collector and once or twice more with seeded collections at allocation requests, seeded placement of objects and another base address; freed storage is poisoned. Non-trivial: at least one collection happened while the program ran.")
    assumptions = ["addresses that appear in the printed form of opaque objects are not part of a program's result"]

    def scenario(self, rng, tier):
        g = Gen(rng)
        out = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            t = g.any()
            k = rng.random()
            if k < 0.2: out.append(f"(define {rng.choice(['ga', 'gb'])} {g('list', 3, [])})")
            elif k < 0.3: out.append(f"(define (gf x) {g(t, 3, [('x', 'list')])})")
            elif k < 0.38: out.append(f"(define-syntax gm (syntax-rules () ((_ a) (list a {g('int', 2, [])})) ((_ a b ...) (append (gm a) (gm b ...)))))")
            else: out.append(f"(sim-log (enc {g(t, rng.choice([2, 3, 4, 5]), [])}))")
        imports = []
        if rng.random() < 0.25:
            imports, more = tour(rng, rng.choice([1, 2, 3]))
            out = (out[:1] if rng.random() < 0.4 else []) + more
            rng.shuffle(out)
        k = rng.random()
        cost = rng.choice([10, 30, 60])
        span = rng.choice([300, 1500, 6000])
        at = []
        if k < 0.35: gc = ["every", rng.choice([37, 61, 101, 211]), rng.randrange(37)]
        elif k < 0.65: gc = ["window", rng.randrange(span), cost]
        elif k < 0.9:
            gc = ["at"]
            at = sorted(rng.randrange(span * 2) for _ in range(cost))
        else: gc = ["usual"]
        if gc == ["usual"]:
            out.insert(0, f"(sim-log (let loop ((i 0) (x '())) (if (< i {rng.choice([30000, 60000])}) (loop (+ i 1) (list i x (vector i))) (length x))))".replace("(list i x (vector i))", "(cons i (if (< 50 (remainder i 100)) '() x))"))
        return {"forms": out, "imports": imports, "gc": gc, "at": at, "place": random_place(rng), "arena": rng.choice([0, 0, 1, 2, 3]), "teardown": rng.random() < 0.3}

    def simplify(self, s):
        if s["arena"]: yield {**s, "arena": 0}
        if s["place"] != "place lifo": yield {**s, "place": "place lifo"}
        if s["teardown"]: yield {**s, "teardown": False}
        if s["gc"][0] == "window":
            a, n = s["gc"][1:]
            if n > 1:
                yield {**s, "gc": ["window", a, n // 2]}
                yield {**s, "gc": ["window", a + n // 2, n - n // 2]}
        if s["gc"][0] == "every":
            _, n, o = s["gc"]
            yield {**s, "gc": ["at"], "at": [k for k in range(o % n, 20000, n)][:400]}

    def schedule(self, s):
        if s["gc"][0] == "at":
            return "gc at " + " ".join(map(str, s["at"])) if s["at"] else "gc off"
        if s["gc"][0] == "every":
            return f"gc every {s['gc'][1]} {s['gc'][2] % s['gc'][1]}"
        return "gc " + " ".join(map(str, s["gc"]))

    def plans(self, s):
        head = "cpu 60\nsteps 4000000\n"
        common = prelude() + forms(*DEFINITIONS)
        boot = "full" if s.get("imports") else "lite"
        if boot == "full": common += "gc off\n" + forms(*[f"(import {x})" for x in s["imports"]])
        body = forms("(sim-log 'begin)", *s["forms"], "(sim-log (enc (list table global)))")
        tail = "form (sim-log 'end)\n"
        baseline = head + common + "gc off\n" + body + tail
        variant = head + common + s["place"] + "\n" + self.schedule(s) + "\n" + body + "gc off\n" + "form (sim-collect)\n" + "form (sim-collect)\n" + tail
        if s["teardown"]: variant += "teardown\n"
        return [(Boot(boot), baseline), (Boot(boot, arena=s["arena"]), variant)]

    def visible(self, log):
        out, on = [], False
        for line in log.lines:
            if line == "L begin": on = True
            if on and line[:2] in ("L ", "E ", "O ", "X ", "F "): out.append(ADDRESS.sub("0x", line))
            if line == "L end": break
        return out

    def judge(self, s, logs, ctx):
        base, log = logs
        if base.end == "budget" or base.crashed():
            if base.crashed() and (not log.crashed() or base.end != log.end):
                raise Violation("crash", f"without the collector the interpreter died: {base.end}")
            return
        if base.end != "done": return
        if log.end == "budget":
            if int(base.counters["G.requests"]) < 2000000: raise Violation("hang", f"the program ends after {base.counters['G.requests']} requests without the collector, but not after 4000000 with it")
            return
        crash_check(log)
        a, b = self.visible(base), self.visible(log)
        for x, y in zip(a + ["(end)"], b + ["(end)"]):
            if x != y:
                raise Violation("differs", f"without the collector: {x[:200]!r}; with it: {y[:200]!r}")
        ctx.probe("collections in programs", log.count("G.collections"))
        if any(x.startswith("E ") for x in a): ctx.probe("program ended with an error")

    def nontrivial(self, s, logs):
        return logs[1].count("G.collections") > 2


PROPERTY = C01()
