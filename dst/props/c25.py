"""C25: objects with state, shared between threads of control."""
import random

from ..common import *
from ..harness import Boot, Property, Violation, crash_check

GLOBALS = [f"g{i}" for i in range(6)]
LOCALS = ["a", "b", "c"]

DEFINITIONS = [
    "(define-record-type <cell> (make-cell left right) cell? (left cell-left set-cell-left!) (right cell-right set-cell-right!))",
    "(define-record-type <other> (make-other left) other? (left other-left set-other-left!))",
    # everything that can be reached from the globals: each object once, with references to it from then on
    "(define (dump . roots) (let ((seen '()) (n 0)) (define (all xs) (if (pair? xs) (let ((x (walk (car xs)))) (cons x (all (cdr xs)))) '()))"
    " (define (walk x) (if (or (pair? x) (vector? x) (string? x) (bytevector? x) (cell? x) (other? x) (procedure? x) (port? x) (box? x) (s16vector? x)) (let ((s (assq x seen))) (if s (list 'ref (cdr s)) (begin (set! seen (cons (cons x n) seen)) (set! n (+ n 1))"
    " (cond ((cell? x) (let ((y (walk (cell-left x)))) (list 'cell y (walk (cell-right x))))) ((other? x) (list 'other (walk (other-left x)))) ((pair? x) (let ((y (walk (car x)))) (list 'p y (walk (cdr x))))) ((vector? x) (cons 'v (all (vector->list x)))) ((string? x) (cons 's (map char->integer (string->list x)))) ((bytevector? x) (cons 'u8 (enc-bytes x 0)))"
    " ((port? x) 'port) ((box? x) (list 'box (walk (unbox x)))) ((s16vector? x) (cons 's16 (s16vector->list x))) (else 'closure))))) (enc x))) (all roots)))",
    "(define (make-counter n) (lambda (step) (set! n (+ n step)) n))",
    "(define (exhausted f) (call-with-current-continuation (lambda (k) (with-exception-handler (lambda (e) (k (if (error-object? e) 'failed 'other))) f))))",
    "(define resume (make-vector 4 #f))",
    "(define back #f)",
    "(define (yielder i) (lambda () (call-with-current-continuation (lambda (k) (vector-set! resume i k) (back #t)))))",
    "(define (step i) (call-with-current-continuation (lambda (b) (set! back b) ((vector-ref resume i) #t))))",
]


class Obj:
    """An object with identity: kind and contents."""

    def __init__(self, kind, xs):
        self.kind, self.xs = kind, xs


class Ch(int):
    """A character."""


NIL = ()
PORTS = ("in", "out", "bin", "bout")


def e_atom(x):
    if isinstance(x, Ch): return f"(c {int(x)})"
    if x is NIL: return "()"
    if isinstance(x, Sym): return e_symbol(x)
    return encode(x)


def literal(x):
    if isinstance(x, Ch): return f"#\\x{int(x):x}"
    if x is NIL: return "'()"
    if isinstance(x, Sym): return f"'|{x}|"
    return encode(x)


def dump(roots):
    seen = {}

    def walk(x):
        if not isinstance(x, Obj): return e_atom(x)
        if id(x) in seen: return f"(ref {seen[id(x)]})"
        seen[id(x)] = len(seen)
        if x.kind == "closure": return "closure"
        if x.kind in ("s", "u8", "s16"): return "(" + " ".join([x.kind, *(str(int(y)) for y in x.xs)]) + ")"
        if x.kind in PORTS: return "port"
        parts = []
        for y in x.xs: parts.append(walk(y))
        return "(" + " ".join([x.kind, *parts]) + ")"
    return "(" + " ".join(walk(x) for x in roots) + ")"


def plist(x, limit=40):
    """The elements of a proper list, or None."""
    out = []
    while isinstance(x, Obj) and x.kind == "p":
        out.append(x.xs[0])
        x = x.xs[1]
        if len(out) > limit: return None
    return out if x is NIL else None


def tails(x):
    out = []
    while isinstance(x, Obj) and x.kind == "p" and not any(x is y for y in out):
        out.append(x)
        x = x.xs[1]
    return out


def mlist(xs, tail=NIL):
    for x in reversed(xs): tail = Obj("p", [x, tail])
    return tail


def reach(x):
    """The number of objects that equal? looks into from x; None if there are records, or vectors and a cycle."""
    seen, open_, vectors, cycle = set(), set(), False, False
    stack = [(x, False)]
    while stack:
        y, leaving = stack.pop()
        if not isinstance(y, Obj): continue
        if leaving:
            open_.discard(id(y))
            continue
        if y.kind in ("cell", "other"): return None
        if id(y) in seen:
            cycle = cycle or id(y) in open_
            continue
        seen.add(id(y))
        open_.add(id(y))
        stack.append((y, True))
        vectors = vectors or y.kind == "v"
        if y.kind in ("p", "v"): stack += [(z, False) for z in y.xs]
    return None if cycle and vectors else len(seen) or 1


def same(a, b, assumed=None):
    """equal? of a and b: their unfoldings are the same."""
    assumed = set() if assumed is None else assumed
    stack = [(a, b)]
    while stack:
        a, b = stack.pop()
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a is b or (id(a), id(b)) in assumed: continue
            if a.kind != b.kind or a.kind not in ("p", "v", "s", "u8", "s16") or len(a.xs) != len(b.xs): return False
            assumed.add((id(a), id(b)))
            stack += zip(a.xs, b.xs)
        elif isinstance(a, Obj) or isinstance(b, Obj) or not identical(a, b): return False
    return True


def identical(a, b):
    if isinstance(a, Obj) or isinstance(b, Obj): return a is b
    return type(a) is type(b) and a == b


def number_like(x):
    """A number or character, which eq? need not recognise."""
    return isinstance(x, int) and not isinstance(x, bool)


WIDE = [97, 10, 98, 99, 122, 65, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x6f22, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]


class Machine:
    def __init__(self, tasks):
        self.g = {x: 0 for x in GLOBALS}
        self.l = [{x: 0 for x in LOCALS} for _ in range(tasks)]

    def do(self, task, seed):
        """Perform an operation: (its expression, what it logs)."""
        self.r, self.t, self.out = random.Random(seed), task, []
        r = self.r
        names = GLOBALS + LOCALS
        if r.random() < 0.12: return f"(begin (sim-log (dump {' '.join(GLOBALS)})))", [dump(self.g[x] for x in GLOBALS)]
        if r.random() < 0.03:
            self.exhausted = getattr(self, "exhausted", 0) + 1
            return f"(sim-log (exhausted (lambda () ({r.choice(['make-vector 1000000 0', 'make-string 4000000 #\\a', 'make-bytevector 10000000 7', 'make-vector 10000000 0'])}))))", ["failed"]
        v, w = r.choice(names), r.choice(names)
        if r.random() < 0.06: return self.graphs(v, w)
        x = self.get(v)
        if r.random() < 0.2 or not isinstance(x, Obj):
            expr, value = self.construct()
            return self.assign(v, expr, value)
        f = getattr(self, "on_" + x.kind, None)
        out = f(v, x, w)
        if out is None:
            k = r.random()
            u = r.choice(names)
            y = self.get(u)
            if k < 0.4: return f"(sim-log (eq? {v} {u}))", [encode(x is y)] if isinstance(y, Obj) else [encode(False)]
            if k < 0.7 and reach(x) and (not isinstance(y, Obj) or reach(y)): return f"(sim-log (equal? {v} {u}))", [encode(same(x, y))]
            return self.assign(w, v, x)
        return out

    def graphs(self, v, w):
        """Two graphs of pairs, of which one is an unfolding of the other or nearly so, are compared."""
        r = self.r
        n = r.choice([1, 2, 3, 4, 6])
        nodes = [[r.randrange(n) if r.random() < 0.65 else -1 - r.randrange(3) for _ in range(2)] for _ in range(n)]
        atoms = [self.atom() for _ in range(3)]
        copies = [r.choice([1, 1, 2, 3]) for _ in range(n)] # of each node, in the second graph
        base = [sum(copies[:i]) for i in range(n)]
        other = [[y if y < 0 else base[y] + r.randrange(copies[y]) for y in nodes[i]] for i in range(n) for _ in range(copies[i])]
        if r.random() < 0.5:
            x = r.choice(other)
            x[r.randrange(2)] = r.choice([-1 - r.randrange(3), r.randrange(len(other))])
        groups = [(nodes, 0), (other, n)] if r.random() < 0.5 else [(other, n), (nodes, 0)]
        mixed = 0.2 if r.random() < 0.4 else 0
        made = [Obj("p", [0, 0]) for _ in nodes + other]
        owner = [i for i in range(n) for _ in range(copies[i])] # the node that a copy stands for
        graph, text = [], []
        for group, offset in groups:
            for i, y in enumerate(group):
                for f, z in zip(("car", "cdr"), y):
                    q = None if z < 0 else owner[z] if offset and r.random() < mixed else offset + z # or that node itself
                    made[offset + i].xs[f == "cdr"] = atoms[-1 - z] if q is None else made[q]
                    text.append(f"(set-{f}! n{offset + i} {literal(atoms[-1 - z]) if q is None else f'n{q}'})")
            graph.append(made[offset:offset + len(group)])
        names = [f"(n{i} (cons 0 0))" for i in range(len(made))]
        i, j = r.randrange(len(graph[0])), r.randrange(len(graph[1]))
        if r.random() < 0.7: i = j = 0
        (self.g if v in self.g else self.l[self.t])[v] = graph[0][i]
        (self.g if w in self.g else self.l[self.t])[w] = graph[1][j]
        return f"(let ({' '.join(names)}) {' '.join(text)} (set! {v} n{groups[0][1] + i}) (set! {w} n{groups[1][1] + j}) (sim-log (equal? n{groups[0][1] + i} n{groups[1][1] + j})))", [encode(same(graph[0][i], graph[1][j]))]

    def get(self, v):
        return self.g[v] if v in self.g else self.l[self.t][v]

    def assign(self, v, expr, value):
        (self.g if v in self.g else self.l[self.t])[v] = value
        return f"(set! {v} {expr})", []

    def value(self):
        """An operand: (expression, value)."""
        r = self.r
        if r.random() < 0.45:
            v = r.choice(GLOBALS + LOCALS)
            return v, self.get(v)
        x = self.atom()
        return literal(x), x

    def atom(self):
        r = self.r
        return r.choice([r.randint(-9, 99), r.randint(0, 255), Ch(r.choice(WIDE)), True, False, NIL, Sym(r.choice(["x", "yy", "a b"])), 10**20 + r.randint(0, 9)])

    def char(self):
        return Ch(self.r.choice(WIDE))

    def construct(self):
        r = self.r
        k = r.randrange(17)
        n = r.choice([0, 1, 2, 3, 4, 5, 7])
        if k == 14: return ("(open-output-string)", Obj("out", [])) if r.random() < 0.6 else ("(open-output-bytevector)", Obj("bout", []))
        if k == 15:
            cs = [self.char() for _ in range(3 * n)]
            return "(open-input-string (string " + " ".join(map(literal, cs)) + "))", Obj("in", [cs, 0])
        if k == 16:
            bs = [r.randint(0, 255) for _ in range(3 * n)]
            return "(open-input-bytevector (bytevector " + " ".join(map(str, bs)) + "))", Obj("bin", [bs, 0])
        if k == 0:
            e, x = self.value()
            return f"(make-vector {n} {e})", Obj("v", [x] * n)
        if k == 1:
            xs = [self.value() for _ in range(n)]
            return "(" + " ".join(["vector", *(e for e, _ in xs)]) + ")", Obj("v", [x for _, x in xs])
        if k == 2:
            c = self.char()
            return f"(make-string {n} {literal(c)})", Obj("s", [c] * n)
        if k in (3, 12):
            cs = [self.char() for _ in range(n)]
            return "(" + " ".join(["string", *map(literal, cs)]) + ")", Obj("s", cs)
        if k == 4:
            b = r.randint(0, 255)
            return f"(make-bytevector {n} {b})", Obj("u8", [b] * n)
        if k in (5, 13):
            bs = [r.randint(0, 255) for _ in range(n)]
            return "(" + " ".join(["bytevector", *map(str, bs)]) + ")", Obj("u8", bs)
        if k == 6:
            (e, x), (f, y) = self.value(), self.value()
            return f"(cons {e} {f})", Obj("p", [x, y])
        if k == 7:
            xs = [self.value() for _ in range(n + 1)]
            return "(list " + " ".join(e for e, _ in xs) + ")", mlist([x for _, x in xs])
        if k == 8:
            (e, x), (f, y) = self.value(), self.value()
            return f"(make-cell {e} {f})", Obj("cell", [x, y])
        if k == 9:
            e, x = self.value()
            return (f"(make-other {e})", Obj("other", [x])) if r.random() < 0.5 else (f"(box {e})", Obj("box", [x]))
        if k == 10:
            return f"(make-counter {n})", Obj("closure", [n])
        xs = [r.randint(-32768, 32767) for _ in range(n)]
        return "(" + " ".join(["s16vector", *map(str, xs)]) + ")", Obj("s16", xs)

    def span(self, n):
        """Optional start and end: (text, start, end)"""
        r = self.r
        k = r.random()
        if k < 0.3: return "", 0, n
        a = r.randint(0, n)
        if k < 0.55: return f" {a}", a, n
        b = r.randint(a, n)
        return f" {a} {b}", a, b

    def other(self, kind):
        """A variable with an object of the kind: (name, object)"""
        names = [x for x in GLOBALS + LOCALS if isinstance(self.get(x), Obj) and self.get(x).kind == kind]
        v = self.r.choice(names)
        return v, self.get(v)

    def ranged(self, v, x, w, names, element):
        """What vectors, strings, bytevectors have in common: names of set!, ref, fill!, copy!, copy, append, ->list, length"""
        r, n = self.r, len(x.xs)
        op = r.choice([o for o in names if names[o]])
        f = names[op]
        if op == "set":
            if not n: return None
            i = r.randrange(n)
            e, y = element()
            x.xs[i] = y
            return f"({f} {v} {i} {e})", []
        if op == "ref":
            if not n: return None
            i = r.randrange(n)
            return self.assign(w, f"({f} {v} {i})", x.xs[i])
        if op == "fill":
            t, a, b = self.span(n)
            e, y = element()
            x.xs[a:b] = [y] * (b - a)
            return f"({f} {v} {e}{t})", []
        if op == "copy!":
            u, y = self.other(x.kind)
            if r.random() < 0.4: u, y = v, x
            t, a, b = self.span(len(y.xs))
            if b - a > n:
                b = a + r.randint(0, n)
                t = f" {a} {b}"
            at = r.randint(0, n - (b - a))
            x.xs[at:at + b - a] = y.xs[a:b]
            return f"({f} {v} {at} {u}{t})", []
        if op == "copy":
            t, a, b = self.span(n)
            return self.assign(w, f"({f} {v}{t})", Obj(x.kind, x.xs[a:b]))
        if op == "append":
            us = [self.other(x.kind) for _ in range(r.randint(0, 2))]
            xs = sum((y.xs for _, y in us), list(x.xs))
            if len(xs) > 24: return None
            return self.assign(w, " ".join([f"({f} {v}", *(u for u, _ in us)]) + ")", Obj(x.kind, xs))
        if op == "list":
            t, a, b = self.span(n) if x.kind != "s16" else ("", 0, n)
            return self.assign(w, f"({f} {v}{t})", mlist(x.xs[a:b]))
        if op == "length": return f"(sim-log ({f} {v}))", [str(n)]

    def on_v(self, v, x, w):
        r = self.r
        if r.random() < 0.25:
            k = r.randrange(6)
            if k == 0: return self.assign(w, f"(vector-map (lambda (x) (cons x 1)) {v})", Obj("v", [Obj("p", [y, 1]) for y in x.xs]))
            if k == 1: return self.assign(w, f"(let ((o '())) (vector-for-each (lambda (x) (set! o (cons x o))) {v}) o)", mlist(list(reversed(x.xs))))
            if k == 2 and x.xs and all(isinstance(y, Ch) for y in x.xs):
                t, a, b = self.span(len(x.xs))
                return self.assign(w, f"(vector->string {v}{t})", Obj("s", x.xs[a:b]))
            if k == 3: return self.assign(w, f"(apply vector (vector->list {v}))", Obj("v", list(x.xs)))
            if k == 4:
                (u, y), (q, z) = self.other("v"), self.other("v")
                if r.random() < 0.3: return self.assign(w, f"(vector-map (lambda (x y) x) {v} {u})", Obj("v", x.xs[:len(y.xs)]))
                if r.random() < 0.5: return self.assign(w, f"(vector-map (lambda (x y z) (list x y z)) {v} {u} {q})", Obj("v", [mlist(e) for e in zip(x.xs, y.xs, z.xs)]))
                return self.assign(w, f"(let ((o '())) (vector-for-each (lambda (x y z) (set! o (cons z (cons y o)))) {v} {u} {q}) o)", mlist([a for e in reversed(list(zip(x.xs, y.xs, z.xs))) for a in (e[2], e[1])]))
            return self.assign(w, f"(list->vector (vector->list {v}))", Obj("v", list(x.xs)))
        return self.ranged(v, x, w, {"set": "vector-set!", "ref": "vector-ref", "fill": "vector-fill!", "copy!": "vector-copy!", "copy": "vector-copy", "append": "vector-append", "list": "vector->list", "length": "vector-length"}, self.value)

    def on_s(self, v, x, w):
        r = self.r
        if r.random() < 0.35:
            k = r.randrange(10)
            t, a, b = self.span(len(x.xs))
            if k > 7:
                (u, y), (q, z) = self.other("s"), self.other("s")
                es = list(zip(x.xs, y.xs, z.xs))
                if k == 8: return self.assign(w, f"(string-map (lambda (x y z) (if (char<? x y) y z)) {v} {u} {q})", Obj("s", [f if e < f else g for e, f, g in es]))
                return self.assign(w, f"(let ((o '())) (string-for-each (lambda (x y z) (set! o (cons (string x y z) o))) {v} {u} {q}) o)", mlist([Obj("s", list(e)) for e in reversed(es)]))
            if k == 0: return self.assign(w, f"(string->vector {v}{t})", Obj("v", x.xs[a:b]))
            if k == 1: return self.assign(w, f"(string->utf8 {v}{t})", Obj("u8", list("".join(map(chr, x.xs[a:b])).encode())))
            if k == 2: return self.assign(w, f"(string-map (lambda (c) (if (char=? c #\\a) #\\x6f22 c)) {v})", Obj("s", [Ch(0x6f22) if c == 97 else c for c in x.xs]))
            if k == 3: return self.assign(w, f"(symbol->string (string->symbol {v}))", Obj("s", list(x.xs)))
            if k == 4: return self.assign(w, f"(list->string (string->list {v}))", Obj("s", list(x.xs)))
            if k == 5:
                u, y = self.other("s")
                name, test = r.choice([("string=?", lambda p, q: p == q), ("string<?", lambda p, q: p < q), ("string>=?", lambda p, q: p >= q)])
                return f"(sim-log ({name} {v} {u}))", [encode(test([int(c) for c in x.xs], [int(c) for c in y.xs]))]
            if k == 6: return self.assign(w, f"(let ((o '())) (string-for-each (lambda (x) (set! o (cons x o))) {v}) o)", mlist(list(reversed(x.xs))))
            return self.assign(w, f"(let ((o (open-output-string))) (write-string {v} o{t}) (get-output-string o))", Obj("s", x.xs[a:b]))
        element = lambda: (lambda c: (literal(c), c))(self.char())
        return self.ranged(v, x, w, {"set": "string-set!", "ref": "string-ref", "fill": "string-fill!", "copy!": "string-copy!", "copy": "string-copy", "append": "string-append", "list": "string->list", "length": "string-length"}, element)

    def on_u8(self, v, x, w):
        r = self.r
        if r.random() < 0.2:
            t, a, b = self.span(len(x.xs))
            if all(y < 128 for y in x.xs[a:b]) and r.random() < 0.5: return self.assign(w, f"(utf8->string {v}{t})", Obj("s", [Ch(y) for y in x.xs[a:b]]))
            return self.assign(w, f"(let ((o (open-output-bytevector))) (write-bytevector {v} o{t}) (get-output-bytevector o))", Obj("u8", x.xs[a:b]))
        element = lambda: (lambda c: (str(c), c))(r.randint(0, 255))
        return self.ranged(v, x, w, {"set": "bytevector-u8-set!", "ref": "bytevector-u8-ref", "fill": None, "copy!": "bytevector-copy!", "copy": "bytevector-copy", "append": "bytevector-append", "list": None, "length": "bytevector-length"}, element)

    def on_s16(self, v, x, w):
        element = lambda: (lambda c: (str(c), c))(self.r.randint(-32768, 32767))
        return self.ranged(v, x, w, {"set": "s16vector-set!", "ref": "s16vector-ref", "fill": None, "copy!": None, "copy": None, "append": None, "list": "s16vector->list", "length": "s16vector-length"}, element)

    def on_p(self, v, x, w):
        r = self.r
        k = r.random()
        if k < 0.12:
            e, y = self.value()
            x.xs[0] = y
            return f"(set-car! {v} {e})", []
        if k < 0.24:
            e, y = self.value()
            x.xs[1] = y
            return f"(set-cdr! {v} {e})", []
        if k < 0.32: return self.assign(w, f"(car {v})", x.xs[0])
        if k < 0.4: return self.assign(w, f"(cdr {v})", x.xs[1])
        xs = plist(x)
        if xs is None: return None
        n = len(xs)
        op = r.randrange(22)
        if op > 18:
            lists = [(u, plist(self.get(u))) for u in GLOBALS + LOCALS if isinstance(self.get(u), Obj) and self.get(u).kind == "p"]
            lists = [(u, ys) for u, ys in lists if ys is not None and len(ys) < 10]
            if not lists or n > 10: return None
            (u, ys), (q, zs) = r.choice(lists), r.choice(lists)
            es = list(zip(xs, ys, zs))
            if op == 19: return self.assign(w, f"(map (lambda (x y z) (vector x y z)) {v} {u} {q})", mlist([Obj("v", list(e)) for e in es]))
            if op == 20:
                if r.random() < 0.5: return self.assign(w, f"(let ((o '())) (for-each (lambda (x y z) (set! o (cons y o))) {v} {u} {q}) o)", mlist([e[1] for e in reversed(es)]))
                return self.assign(w, f"(apply list '0 {v} '() {u})", mlist([0, x, NIL, *ys]))
            return self.assign(w, f"(append {v} {u} '() {q})", mlist(xs + ys, self.get(q)))
        if op == 14:
            i = r.randint(0, n)
            return self.assign(w, f"(l:take {v} {i})", mlist(xs[:i]))
        if op == 15:
            y = x
            while y.xs[1] is not NIL: y = y.xs[1]
            return self.assign(w, f"(l:last-pair {v})", y)
        if op == 16 and n < 16:
            e, y = self.value()
            return self.assign(w, f"(l:append-reverse {v} {e})", mlist(xs[::-1], y))
        if op == 17: return self.assign(w, f"(l:fold (lambda (x o) (cons x o)) 'x {v})", mlist(xs[::-1], Sym("x")))
        if op == 18:
            e, y = self.value()
            return self.assign(w, f"(let loop ((l {v})) (if (pair? l) (cons (car l) (loop (cdr l))) {e}))", mlist(xs, y)) if n < 16 else None
        if op == 0:
            i, y = r.randrange(n), x
            e, z = self.value()
            for _ in range(i): y = y.xs[1]
            y.xs[0] = z
            return f"(list-set! {v} {i} {e})", []
        if op == 1: return self.assign(w, f"(list-copy {v})", mlist(xs))
        if op == 2 and n < 16:
            e, y = self.value()
            return self.assign(w, f"(append {v} {e})", mlist(xs, y))
        if op == 3: return self.assign(w, f"(reverse {v})", mlist(xs[::-1]))
        if op == 4:
            i, y = r.randint(0, n), x
            for _ in range(i): y = y.xs[1]
            return self.assign(w, f"(list-tail {v} {i})", y)
        if op == 5:
            i = r.randrange(n)
            return self.assign(w, f"(list-ref {v} {i})", xs[i])
        if op == 6:
            e, y = self.value()
            z = x
            while isinstance(z, Obj) and not identical(z.xs[0], y): z = z.xs[1]
            return self.assign(w, f"({'memv' if number_like(y) else r.choice(['memq', 'memv'])} {e} {v})", z if isinstance(z, Obj) else False)
        if op == 7:
            e, y = self.value()
            if not (all(reach(z) or not isinstance(z, Obj) for z in xs) and (reach(y) or not isinstance(y, Obj))): return None
            z = x
            while isinstance(z, Obj) and not same(z.xs[0], y): z = z.xs[1]
            return self.assign(w, f"(member {e} {v})", z if isinstance(z, Obj) else False)
        if op == 8:
            if r.random() < 0.3: # a ring
                y = x
                while y.xs[1] is not NIL: y = y.xs[1]
                y.xs[1] = z = x if r.random() < 0.5 else r.choice([q for q in tails(x)])
                return f"(set-cdr! (list-tail {v} {n - 1}) (list-tail {v} {list(map(id, tails(x))).index(id(z))}))", []
            if not all(isinstance(z, Obj) and z.kind == "p" for z in xs): return None
            key = r.choice([z.xs[0] for z in xs] + [Sym("x")])
            if isinstance(key, Obj): return None
            found = next((z for z in xs if identical(z.xs[0], key)), False)
            return self.assign(w, f"({'assv' if number_like(key) else r.choice(['assq', 'assv'])} {literal(key)} {v})", found)
        if op == 9: return f"(sim-log (length {v}))", [str(n)]
        if op == 10: return self.assign(w, f"(list->vector {v})", Obj("v", list(xs)))
        if op == 11: return self.assign(w, f"(map (lambda (x) (vector x)) {v})", mlist([Obj("v", [y]) for y in xs]))
        if op == 12 and all(isinstance(y, Ch) for y in xs): return self.assign(w, f"(list->string {v})", Obj("s", list(xs)))
        return self.assign(w, f"(apply list {v})", mlist(xs))

    def on_cell(self, v, x, w):
        r = self.r
        i, side = r.choice([(0, "left"), (1, "right")])
        if r.random() < 0.5:
            e, y = self.value()
            x.xs[i] = y
            return f"(set-cell-{side}! {v} {e})", []
        if r.random() < 0.2: return f"(sim-log (list (cell? {v}) (other? {v}) (pair? {v}) (string? {v})))", ["(#t #f #f #f)"]
        return self.assign(w, f"(cell-{side} {v})", x.xs[i])

    def on_other(self, v, x, w):
        if self.r.random() < 0.5:
            e, y = self.value()
            x.xs[0] = y
            return f"(set-other-left! {v} {e})", []
        if self.r.random() < 0.2: return f"(sim-log (list (cell? {v}) (other? {v}) (pair? {v}) (string? {v})))", ["(#f #t #f #f)"]
        return self.assign(w, f"(other-left {v})", x.xs[0])

    def on_box(self, v, x, w):
        if self.r.random() < 0.5:
            e, y = self.value()
            x.xs[0] = y
            return f"(set-box! {v} {e})", []
        return self.assign(w, f"(unbox {v})", x.xs[0])

    def on_out(self, v, x, w):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            c = self.char()
            x.xs.append(c)
            return f"(write-char {literal(c)} {v})", []
        if k == 1:
            n = r.randint(-99, 10**12)
            x.xs += [Ch(ord(c)) for c in str(n)]
            return f"({r.choice(['write', 'display'])} {n} {v})", []
        if k == 2:
            x.xs.append(Ch(10))
            return f"(newline {v})", []
        if k == 3 and any(isinstance(self.get(u), Obj) and self.get(u).kind == "s" for u in GLOBALS + LOCALS):
            u, y = self.other("s")
            t, a, b = self.span(len(y.xs))
            x.xs += y.xs[a:b]
            return f"(write-string {u} {v}{t})", []
        return self.assign(w, f"(get-output-string {v})", Obj("s", list(x.xs)))

    def on_bout(self, v, x, w):
        r = self.r
        k = r.randrange(4)
        if k == 0:
            b = r.randint(0, 255)
            x.xs.append(b)
            return f"(write-u8 {b} {v})", []
        if k == 1 and any(isinstance(self.get(u), Obj) and self.get(u).kind == "u8" for u in GLOBALS + LOCALS):
            u, y = self.other("u8")
            t, a, b = self.span(len(y.xs))
            x.xs += y.xs[a:b]
            return f"(write-bytevector {u} {v}{t})", []
        return self.assign(w, f"(get-output-bytevector {v})", Obj("u8", list(x.xs)))

    def on_in(self, v, x, w):
        r = self.r
        text, i = x.xs
        k = r.randrange(5)
        if i == len(text): return f"(sim-log (enc ({r.choice(['read-char', 'peek-char', 'read-line', 'read-string 2'])} {v})))", ["eof"]
        if k == 0:
            x.xs[1] += 1
            return self.assign(w, f"(read-char {v})", text[i])
        if k == 1: return self.assign(w, f"(peek-char {v})", text[i])
        if k == 2:
            j = text.index(10, i) if 10 in text[i:] else len(text)
            x.xs[1] = min(j + 1, len(text))
            return self.assign(w, f"(read-line {v})", Obj("s", text[i:j]))
        n = r.randint(1, 6)
        x.xs[1] = min(i + n, len(text))
        return self.assign(w, f"(read-string {n} {v})", Obj("s", text[i:i + n]))

    def on_bin(self, v, x, w):
        r = self.r
        data, i = x.xs
        k = r.randrange(5)
        if i == len(data): return f"(sim-log (enc ({r.choice(['read-u8', 'peek-u8', 'read-bytevector 2'])} {v})))", ["eof"]
        if k == 0:
            x.xs[1] += 1
            return self.assign(w, f"(read-u8 {v})", data[i])
        if k == 1: return self.assign(w, f"(peek-u8 {v})", data[i])
        if k == 2 and any(isinstance(self.get(u), Obj) and self.get(u).kind == "u8" and self.get(u).xs for u in GLOBALS + LOCALS):
            u, y = self.other("u8")
            t, a, b = self.span(len(y.xs))
            if a < b:
                got = data[i:i + b - a]
                x.xs[1] += len(got)
                y.xs[a:a + len(got)] = got
                return f"(sim-log (read-bytevector! {u} {v}{t}))", [str(len(got))]
        n = r.randint(1, 6)
        x.xs[1] = min(i + n, len(data))
        return self.assign(w, f"(read-bytevector {n} {v})", Obj("u8", data[i:i + n]))

    def on_closure(self, v, x, w):
        n = self.r.randint(0, 5)
        x.xs[0] += n
        return f"(sim-log ({v} {n}))", [str(x.xs[0])]


class C25(Property):
    id = "C25"
    shrink = ("ops",)
    runs = {"quick": 1800, "thorough": 150000}
    wall = {"quick": 45, "thorough": 900}
    rule = ("A case is a history of up to 120 operations on vectors, strings, bytevectors, lists, records, boxes, string and bytevector ports and closures with state, performed by up to four threads of control (coroutines made of continuations, each with variables of its own) in a seeded order, under seeded collections and placement, with requests for more storage than there is in between. "
            "Each operation is performed on a reference model too; values read, and at seeded points and the end everything that can be reached, with its sharing, are compared. Non-trivial: at least ten operations and a collection.")
    assumptions = ["operations are used within their domain: indices in range, arguments of the type required"]

    def scenario(self, rng, tier):
        tasks = rng.choice([1, 2, 2, 3, 4])
        n = rng.choice([5, 15, 40, 80, 120])
        return {"tasks": tasks, "ops": [[rng.randrange(tasks), rng.getrandbits(40)] for _ in range(n)], "gc": f"gc every {rng.choice([499, 1999, 4999])} {rng.randrange(499)}" if rng.random() < 0.2 else random_gc(rng, 1000 * n + 500, 0.6, 20),
                "place": random_place(rng)}

    def simplify(self, s):
        for key, value in (("gc", "gc off"), ("place", "place lifo")):
            if s[key] != value: yield {**s, key: value}
        if s["tasks"] > 1: yield {**s, "tasks": 1, "ops": [[0, seed] for _, seed in s["ops"]]}

    def history(self, s):
        """(the operations of each task, the order of tasks, what is logged)"""
        m = Machine(s["tasks"])
        bodies, order, logs = [[] for _ in range(s["tasks"])], [], []
        for task, seed in s["ops"]:
            expr, out = m.do(task, seed)
            bodies[task].append(expr)
            order.append(task)
            logs += out
        logs.append(dump(m.g[x] for x in GLOBALS))
        return bodies, order, logs

    def plans(self, s):
        bodies, order, _ = self.history(s)
        text = "cpu 20\n" + prelude() + forms("(import (srfi 4) (srfi 111) (prefix (only (srfi 1) take last-pair append-reverse fold) l:))", *DEFINITIONS, *(f"(define {x} 0)" for x in GLOBALS))
        for i, body in enumerate(bodies):
            steps = " ".join(f"{expr} (yield)" for expr in body)
            text += forms(f"(vector-set! resume {i} (lambda (ignore) (let ((yield (yielder {i})) {' '.join(f'({x} 0)' for x in LOCALS)}) {steps} 'over)))")
        text += "allocabove 700000\n" + s["place"] + "\n" + s["gc"] + "\n"
        text += forms(*(f"(step {i})" for i in order), f"(sim-log (dump {' '.join(GLOBALS)}))")
        return [(Boot("full"), text)]

    def judge(self, s, logs, ctx):
        log = logs[0]
        crash_check(log)
        bodies, order, expected = self.history(s)
        for i, (a, b) in enumerate(zip(log.logs, expected)):
            if a != b: raise Violation("differs", f"event {i}: expected {b}, got {a}; order {order}; tasks {bodies}")
        if len(log.logs) != len(expected): raise Violation("differs", f"expected {len(expected)} events, got {len(log.logs)}; the last: {log.logs[-1:]}; errors {[x for x in log.results.values() if x[0] != 'R'][:2]}")
        ctx.probe("operations", len(order))
        ctx.probe("exhausted storage", log.logs.count("failed"))

    def nontrivial(self, s, logs):
        return len(s["ops"]) >= 10


PROPERTY = C25()
