"""C20: data written to storage and read back."""
import struct
from ..common import *
from ..harness import Boot, Property, Violation, crash_check

DEFINITIONS = [
    "(import (scheme complex) (srfi 4))",
    # as equal?, but with nothing left to it
    "(define (same? a b) (cond ((number? a) (and (number? b) (or (eqv? a b) (and (real? a) (inexact? a) (nan? a) (real? b) (inexact? b) (nan? b)))))"
    " ((string? a) (and (string? b) (let ((n (string-length a))) (and (= n (string-length b)) (let loop ((i 0)) (or (= i n) (and (char=? (string-ref a i) (string-ref b i)) (loop (+ i 1)))))))))"
    " ((pair? a) (and (pair? b) (same? (car a) (car b)) (same? (cdr a) (cdr b))))"
    " ((vector? a) (and (vector? b) (let ((n (vector-length a))) (and (= n (vector-length b)) (let loop ((i 0)) (or (= i n) (and (same? (vector-ref a i) (vector-ref b i)) (loop (+ i 1)))))))))"
    " ((bytevector? a) (and (bytevector? b) (let ((n (bytevector-length a))) (and (= n (bytevector-length b)) (let loop ((i 0)) (or (= i n) (and (= (bytevector-u8-ref a i) (bytevector-u8-ref b i)) (loop (+ i 1)))))))))"
    " ((f64vector? a) (and (f64vector? b) (same? (f64vector->list a) (f64vector->list b)))) ((s16vector? a) (and (s16vector? b) (same? (s16vector->list a) (s16vector->list b)))) ((u32vector? a) (and (u32vector? b) (same? (u32vector->list a) (u32vector->list b))))"
    " (else (eqv? a b))))",
    # the nodes of a graph in the order of a walk, with references to earlier ones
    "(define (graph x) (let ((seen '()) (n 0)) (define (walk x) (cond ((or (pair? x) (vector? x)) (let ((s (assq x seen))) (if s (list 'ref (cdr s)) (begin (set! seen (cons (cons x n) seen)) (set! n (+ n 1))"
    " (if (pair? x) (let* ((a (walk (car x))) (d (walk (cdr x)))) (list 'pair a d)) (let loop ((i 0) (out '())) (if (< i (vector-length x)) (let ((y (walk (vector-ref x i)))) (loop (+ i 1) (cons y out))) (cons 'vector out))))))))"
    " (else x))) (walk x)))",
    "(define (str xs) (list->string (map integer->char xs)))",
    "(define (attempt f) (call-with-current-continuation (lambda (k) (with-exception-handler (lambda (e) (k (cond ((read-error? e) 'read-error) ((file-error? e) 'file-error) (else (list 'error (if (error-object? e) (error-object-message e) e)))))) f))))",
]


def random_codepoint(rng):
    k = rng.random()
    if k < 0.35: return rng.randint(32, 126)
    if k < 0.4: return rng.choice([0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff])
    if k < 0.5: return rng.choice([0, 7, 8, 9, 10, 13, 27, 34, 35, 39, 40, 41, 44, 59, 92, 96, 124, 127, 128, 133, 160, 255])
    if k < 0.7: return rng.randint(128, 0x7ff)
    if k < 0.85: return rng.choice([rng.randint(0x800, 0xd7ff), rng.randint(0xe000, 0xffff)])
    return rng.randint(0x10000, 0x10ffff)


ODD_NAMES = ["", "1", ".", "..", "...", "+", "-", "+1", "-a", "+i", "-i", "1+", "1/2", "1e3", "-1.5e-7", ".5", "+.5", "+inf.0", "-inf.0", "+nan.0", "1+2i", "1@2", "#", "#t", "#a", "a#", "a.b", "A", "aB", "a b", " ", "a|b", "|", "\\", "a\\b", "'", "a'b", "`", ",", ",@", ";", "a;b", '"', 'x"y',
             "(", ")", "a\nb", "\t", "é漢", "😀", "x1f", "\x00", "a\x7f", "λ", "==>", "!$%&*/:<=>?^_~"]


def random_value(rng, depth, rings=False):
    k = rng.random()
    if depth and k < 0.25: return ["l"] + [random_value(rng, depth - 1, rings) for _ in range(rng.randint(0, 4))]
    if depth and k < 0.32: return ["v"] + [random_value(rng, depth - 1, rings) for _ in range(rng.randint(0, 4))]
    if depth and k < 0.38: return ["d"] + [random_value(rng, depth - 1, rings) for _ in range(rng.randint(1, 3))] + [random_atom(rng)]
    if depth and k < 0.42: return ["l", ["y", [ord(c) for c in rng.choice(["quote", "quasiquote", "unquote", "unquote-splicing"])]]] + [random_value(rng, depth - 1, rings) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
    if depth and k < 0.5 and rings: return random_ring(rng, depth - 1)
    return random_atom(rng)


def random_ring(rng, depth):
    """A list whose last pair is followed by its first; or one that occurs twice."""
    x = ["ring"] + [random_value(rng, depth, True) if rng.random() < 0.3 else random_atom(rng) for _ in range(rng.randint(1, 4))]
    return ["twice", x] if rng.random() < 0.2 else x


def has_ring(x):
    return isinstance(x, list) and bool(x) and (x[0] in ("ring", "twice", "graph") or x[0] in ("l", "v", "d") and any(map(has_ring, x[1:])))


def random_atom(rng):
    k = rng.random()
    if k < 0.12: return rng.choice([0, 1, -1, 255, 2**31, -2**31, 2**62, 2**63, -2**64, rng.randint(-10**6, 10**6), rng.randint(-10**40, 10**40)])
    if k < 0.18: return ["q", rng.randint(-10**rng.randint(1, 30), 10**20), rng.randint(2, 10**rng.randint(1, 30))]
    if k < 0.32:
        x = rng.choice([0.5, 0.1, 1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1 / 3, float("inf"), float("-inf"), float("nan"), rng.uniform(-10, 10), rng.uniform(-1, 1) * 10.0**rng.randint(-300, 300),
                        struct.unpack("d", struct.pack("Q", rng.getrandbits(64)))[0]])
        if x == x and abs(x) < 1e23 and x == int(x): x += 0.5  # see the findings
        if x == x and abs(x) < 1e23 and x == int(x): x = 0.25
        if x != x: return ["nan"]
        if x in (float("inf"), float("-inf")): return ["inf", 1 if x > 0 else -1]
        n, d = x.as_integer_ratio()
        return ["f", n, d]
    if k < 0.38: return ["z", random_part(rng), random_part(rng)]
    if k < 0.52:
        if rng.random() < 0.5: return ["y", [ord(c) for c in rng.choice(ODD_NAMES)]]
        return ["y", [random_codepoint(rng) for _ in range(rng.randint(1, 8))]]
    if k < 0.75: return ["s", [random_codepoint(rng) for _ in range(rng.choice([0, 1, 3, 12, 40]))]]
    if k < 0.87: return ["c", random_codepoint(rng)]
    if k < 0.92: return ["u8"] + [rng.randint(0, 255) for _ in range(rng.randint(0, 9))]
    if k < 0.94: return ["s16"] + [rng.randint(-32768, 32767) for _ in range(rng.randint(0, 4))]
    if k < 0.95: return ["u32"] + [rng.randint(0, 2**32 - 1) for _ in range(rng.randint(0, 4))]
    return rng.random() < 0.5


def random_part(rng):
    """The real or imaginary part of a complex number."""
    k = rng.random()
    if k < 0.4: return rng.choice([1, -1, 7, -5, rng.randint(1, 10**20), -rng.randint(1, 10**20)])
    if k < 0.6: return ["q", rng.choice([1, -1, 3, -7]), rng.choice([2, 5, 10**20 + 3])]
    if k < 0.8: return ["inf", rng.choice([1, -1])]
    x = rng.choice([0.5, -0.25, 1e-7, -1e300, rng.uniform(-1, 1)])
    n, d = x.as_integer_ratio()
    return ["f", n, d]


def construct(x):
    """An expression for x that does not go through the notation under test, save for decimal digits."""
    if x is True: return "#t"
    if x is False: return "#f"
    if isinstance(x, int): return str(x)
    tag, rest = x[0], x[1:]
    cps = lambda: "'(" + " ".join(map(str, rest[0])) + ")"
    if tag == "q": return f"(/ {rest[0]} {rest[1]})"
    if tag == "f": return f"(inexact (/ {rest[0]} {rest[1]}))"
    if tag == "inf": return f"(/ {rest[0]} (inexact 0))"
    if tag == "nan": return "(- (/ 1 (inexact 0)) (/ 1 (inexact 0)))"
    if tag == "z": return f"(make-rectangular {construct(rest[0])} {construct(rest[1])})"
    if tag == "y": return f"(string->symbol (str {cps()}))"
    if tag == "s": return f"(str {cps()})"
    if tag == "c": return f"(integer->char {rest[0]})"
    if tag == "u8": return "(bytevector " + " ".join(map(str, rest)) + ")"
    if tag in ("s16", "u32"): return f"({tag}vector " + " ".join(map(str, rest)) + ")"
    if tag == "v": return "(vector " + " ".join(map(construct, rest)) + ")"
    if tag == "l": return "(list " + " ".join(map(construct, rest)) + ")"
    if tag == "d":
        out = construct(rest[-1])
        for y in reversed(rest[:-1]): out = f"(cons {construct(y)} {out})"
        return out
    if tag == "twice": return f"(let ((x {construct(rest[0])})) (list x 0 (vector x)))"
    if tag == "ring": # ["ring", element, ...]: a list whose last pair is followed by its first
        return f"(let ((x (list {' '.join(map(construct, rest))}))) (let loop ((y x)) (if (pair? (cdr y)) (loop (cdr y)) (begin (set-cdr! y x) x))))"
    if tag == "graph": # ["graph", [[kind, size], ...], [[node, slot, what], ...]]
        nodes, edges = rest
        lets = " ".join(f"(n{i} {'(cons 0 0)' if kind == 'p' else f'(make-vector {size} 0)'})" for i, (kind, size) in enumerate(nodes))
        sets = []
        for i, slot, what in edges:
            value = f"n{what[1]}" if isinstance(what, list) and what[0] == "n" else construct(what)
            if nodes[i][0] == "p": sets.append(f"(set-{'car' if slot == 0 else 'cdr'}! n{i} {value})")
            else: sets.append(f"(vector-set! n{i} {slot} {value})")
        return f"(let ({lets}) {' '.join(sets)} n0)"
    raise ValueError(x)


def random_graph(rng):
    nodes = [["p", 2] if rng.random() < 0.7 else ["v", rng.randint(1, 3)] for _ in range(rng.randint(1, 6))]
    edges = []
    for i, (kind, size) in enumerate(nodes):
        for slot in range(size):
            edges.append([i, slot, ["n", rng.randrange(len(nodes))] if rng.random() < 0.55 else rng.choice([0, 7, True, ["s", [97, 98]], ["y", [120]]])])
    return ["graph", nodes, edges]


class C20(Property):
    id = "C20"
    shrink = ("items",)
    runs = {"quick": 2600, "thorough": 150000}
    wall = {"quick": 50, "thorough": 900}
    rule = ("A case writes a journal of up to 12 data (numbers of every kind, any characters, odd symbols, nested structures; rings; with write-shared any graph) to a file, to the terminal or to a string, under seeded short and interrupted writes, flushing at seeded points; "
            "in a third of the cases the machine stops at a seeded I/O event. A second run of the interpreter reads what the storage kept, under seeded delivery. Non-trivial: a datum came back.")
    assumptions = ["a datum is complete on the storage when the newline after it is (written data contain no newline)"]

    def scenario(self, rng, tier):
        items = []
        for _ in range(rng.choice([1, 2, 5, 12])):
            k = rng.random()
            if k < 0.15: items.append(["write", random_ring(rng, 1) if rng.random() < 0.4 else random_value(rng, 3, True)])
            elif k < 0.3: items.append(["write-shared", random_graph(rng)])
            elif k < 0.4: items.append(["write-shared", random_value(rng, 2)])
            elif k < 0.55: items.append(["write-simple", random_value(rng, 3)])
            else: items.append(["write", random_value(rng, 3)])
        return {"items": items, "flush": [rng.random() < 0.4 for _ in items], "via": rng.choice(["file", "file", "file", "stdout", "string"]), "wchunks": random_chunks(rng), "rchunks": random_chunks(rng), "pipe": rng.random() < 0.2,
                "eintr": sorted({rng.randint(0, 10) for _ in range(rng.choice([0, 0, 2]))}), "crash": [rng.randint(0, 30), rng.choice([0, 1, 2, 10, 100, 5000])] if rng.random() < 0.35 else None,
                "gc": random_gc(rng, 2500), "place": random_place(rng)}

    def valid(self, s):
        return len(s["items"]) <= len(s["flush"])

    def simplify(self, s):
        for key, value in (("gc", "gc off"), ("place", "place lifo"), ("crash", None), ("wchunks", []), ("rchunks", []), ("eintr", []), ("pipe", False), ("via", "string")):
            if s[key] != value:
                yield {**s, key: value}
        for i, (how, x) in enumerate(s["items"]):
            if isinstance(x, list) and x[0] in ("l", "v", "ring", "d"):
                for j in range(1, len(x)):
                    if len(x) > 2: yield {**s, "items": s["items"][:i] + [[how, x[:j] + x[j + 1:]]] + s["items"][i + 1:]}
                    if x[0] in ("l", "v"): yield {**s, "items": s["items"][:i] + [[how, x[j]]] + s["items"][i + 1:]}
            if isinstance(x, list) and x[0] in ("s", "y"):
                for j in range(len(x[1])):
                    yield {**s, "items": s["items"][:i] + [[how, [x[0], x[1][:j] + x[1][j + 1:]]]] + s["items"][i + 1:]}

    def plans(self, s):
        out = ["cpu 20", "steps 8000000"]
        path = {"file": "/sim/home/journal", "stdout": "/sim/dev/stdout"}.get(s["via"])
        if path:
            if s["via"] == "file": out.append(f"file {path} -")
            if s["wchunks"]: out.append(f"wchunk {path} " + " ".join(map(str, s["wchunks"])))
            for n in s["eintr"] if s["via"] == "file" else []: out.append(f"fault write {path} {n} EINTR")
            if s["crash"] and s["via"] == "file": out.append(f"crash {s['crash'][0]} {s['crash'][1]}")
        text = "\n".join(out) + "\n" + prelude() + forms(*DEFINITIONS)
        text += forms({"file": '(define p (open-output-file "home/journal"))', "stdout": "(define p (current-output-port))", "string": "(define p (open-output-string))"}[s["via"]])
        text += s["place"] + "\n" + s["gc"] + "\n"
        for n, (how, x) in enumerate(s["items"]):
            text += forms(f"({how} {construct(x)} p)", "(newline p)")
            if s["flush"][n]: text += forms("(flush-output-port p)", f"(sim-log '(flushed {n + 1}))")
        if s["via"] == "string": text += forms("(sim-log (cons 'text (map char->integer (string->list (get-output-string p)))))")
        else: text += forms("(flush-output-port p)", f"(sim-log '(flushed {len(s['items'])}))")
        if s["via"] == "file": text += forms("(close-port p)")
        return [(Boot(), text)]

    def stored(self, s, log):
        if s["via"] == "file": return log.files.get("/sim/home/journal") or b""
        if s["via"] == "stdout": return log.out
        for line in log.logs:
            if line.startswith("(text"): return "".join(chr(int(x)) for x in line.strip("()").split()[1:]).encode()
        return b""

    def followup(self, s, logs):
        if len(logs) == 2 or logs[0].crashed(): return ()
        data = self.stored(s, logs[0])
        out = ["cpu 20", "steps 8000000"]
        path = "/sim/home/journal"
        if s["via"] == "stdout":
            path = "/sim/dev/stdin"
            out.append(f"stdin {hexed(data)}")
        elif s["via"] == "file": out.append(f"file {path} {hexed(data)}")
        if s["via"] != "string":
            if s["rchunks"]: out.append(f"rchunk {path} " + " ".join(map(str, s["rchunks"])))
            for n in s["eintr"] if s["via"] == "file" else []: out.append(f"fault read {path} {n} EINTR")
            if s["pipe"] and s["via"] == "file": out.append(f"pipe {path}")
        text = "\n".join(out) + "\n" + prelude() + forms(*DEFINITIONS)
        if s["via"] == "string":
            text += forms("(define p (open-input-string (str '(" + " ".join(str(ord(c)) for c in data.decode("utf-8", "replace")) + "))))")
        else: text += forms({"file": '(define p (open-input-file "home/journal"))', "stdout": "(define p (current-input-port))"}[s["via"]])
        text += s["place"] + "\n" + s["gc"] + "\n"
        for how, x in s["items"]:
            test = f"(equal? (graph x) (graph {construct(x)}))" if has_ring(x) else f"(same? {construct(x)} x)"
            text += forms(f"(let ((x (attempt (lambda () (read p))))) (if (eof-object? x) 'eof (if {test} 'same (if (memq x '(read-error file-error)) x 'other))))")
        text += forms("(let ((x (attempt (lambda () (read p))))) (if (eof-object? x) 'eof 'more))")
        return [(Boot(), text)]

    def judge(self, s, logs, ctx):
        crash_check(logs[0])
        base = len(PRELUDE) + len(DEFINITIONS) + 1
        for k, r in logs[0].results.items():
            if r[0] == "E": raise Violation("error", f"writing failed: form {k - base}: {r[1]} {r[2]}")
        data = self.stored(s, logs[0])
        flushed = max([0] + [int(x.strip("()").split(" ")[1]) for x in logs[0].logs if x.startswith("(flushed")])
        complete = data.count(b"\n")
        n = len(s["items"])
        if logs[0].end == "crash": ctx.probe("machine stopped")
        elif logs[0].end != "done": return # too long
        elif complete != n: raise Violation("incomplete", f"{complete} of {n} data are on the storage: {data[-200:]!r}")
        if complete < flushed: raise Violation("lost", f"{flushed} data were flushed, {complete} are on the storage")
        log = logs[1]
        crash_check(log)
        if log.end != "done":
            if log.end == "budget": return
            raise Violation("stopped", f"reading ended with {log.end}")
        lines = data.split(b"\n")
        for i in range(complete):
            got = log.results.get(base + i)
            if got != ("R", "same"):
                raise Violation("differs", f"datum {i}, {s['items'][i]} was written as {lines[i][:200]!r} and read as {got}")
            ctx.probe(s["items"][i][0])
            ctx.probe("data read back")
        if logs[0].end == "done" and log.results.get(base + n) != ("R", "eof"):
            raise Violation("more", f"after the last datum: {log.results.get(base + n)}")

    def nontrivial(self, s, logs):
        return len(logs) == 2 and b"\n" in self.stored(s, logs[0])


PROPERTY = C20()
