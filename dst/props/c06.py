"""C06: failing file operations are reported as file errors, at the operation that suffers them, and leave nothing behind."""
from ..common import *
from ..harness import Boot, Property, Violation, crash_check

DEFINITIONS = [
    "(define (try thunk) (guard (e ((file-error? e) 'file-error) ((read-error? e) 'read-error) ((error-object? e) 'error) (else 'other)) (thunk)))",
    "(define (try-handler thunk) (call/cc (lambda (k) (with-exception-handler (lambda (e) (k (cond ((file-error? e) 'file-error) ((read-error? e) 'read-error) (else 'other)))) thunk))))",
    # everything a port delivers, in pieces
    "(define (slurp p take) (let loop ((xs '())) (let ((x (take p))) (if (eof-object? x) (reverse xs) (loop (cons x xs))))))",
    "(define (slurp-text p k) (apply string-append (slurp p (lambda (p) (read-string k p)))))",
    "(define (slurp-lines p) (apply string-append (map (lambda (s) (string-append s (string #\\newline))) (slurp p read-line))))",
    "(define (slurp-chars p) (list->string (slurp p (lambda (p) (peek-char p) (read-char p)))))",
    "(define (slurp-bytes p k) (apply bytevector-append (slurp p (lambda (p) (read-bytevector k p)))))",
    "(define (flat x) (cond ((string? x) x) ((null? x) \"\") ((pair? x) (string-append (flat (car x)) (flat (cdr x)))) ((vector? x) (flat (vector->list x))) ((symbol? x) (string-append (symbol->string x) (string #\\newline))) ((number? x) (string-append (number->string x) (string #\\newline))) (else \"?\")))",
    "(define (slurp-data p) (apply string-append (map flat (slurp p read))))",
    "(define (slurp-u8 p) (apply bytevector (slurp p (lambda (p) (peek-u8 p) (read-u8 p)))))",
    # (with open f): f on the port; the port is closed whatever happens, without hiding the first failure
    "(define (with port f) (let ((r (try (lambda () (f port))))) (let ((c (try (lambda () (close-port port) 'closed)))) (if (eq? r 'file-error) r (if (eq? c 'closed) r c)))))",
    "(define (with-output port f) (let ((r (try (lambda () (f port))))) (let ((c (try (lambda () (close-output-port port) 'closed)))) (if (eq? r 'file-error) r (if (eq? c 'closed) r c)))))",
    "(define (fill p n) (let loop ((i 0)) (if (< i n) (begin (write-string \"0123456789abcde\" p) (newline p) (loop (+ i 1)))))  'written)",
    "(define (fill-write p n) (let loop ((i 0)) (if (< i n) (begin (write '0123456789abcde p) (write-char #\\newline p) (loop (+ i 1)))))  'written)",
    "(define (fill-display p n) (let loop ((i 0)) (if (< i n) (begin (display 123456789 (begin (display \"0\" p) p)) (display \"abcde\\n\" p) (loop (+ i 1)))))  'written)",
    "(define (fill-chars p n) (let loop ((i 0)) (if (< i n) (begin (for-each (lambda (c) (write-char c p)) (string->list \"0123456789abcde\\n\")) (loop (+ i 1)))))  'written)",
    "(define (fill-u8 p n) (let loop ((i 0)) (if (< i n) (begin (for-each (lambda (c) (write-u8 (char->integer c) p)) (string->list \"0123456789abcde\\n\")) (loop (+ i 1)))))  'written)",
    "(define (fill-bytes p n) (let loop ((n n)) (if (< 0 n) (begin (write-bytevector (bytevector 48 49 50 51 52 53 54 55 56 57 97 98 99 100 101 10) p) (loop (- n 1))))) 'written)",
]

TEXT = "0123456789abcde\n"

FORMS = {"tokens": ("", ""), "list": ("(", ")"), "vector": ("#(", ")"), "string": ('"', '"'), "nested": ("((", "))"), "comment": ("#| remark |#", " ; end"), "skipped": ("#;(1 2 3)", " ")}


class C06(Property):
    id = "C06"
    shrink = ("ops",)
    runs = {"quick": 2400, "thorough": 150000}
    wall = {"quick": 50, "thorough": 900}
    rule = ("A case is up to 12 file operations, each on a path of its own (reading text or bytes in different ways, writing, closing, opening through every opener, deleting, loading), each with a seeded fault "
            "(missing, unreadable, a directory, read/write/close/open/remove errors at a seeded call, full disk, no descriptors left). Non-trivial: at least one fault fired.")
    assumptions = ["an error of read(2), write(2), close(2), open(2) or unlink(2) other than EINTR counts as a failure of the operation that needed it"]

    def scenario(self, rng, tier):
        ops = []
        for _ in range(rng.choice([1, 3, 6, 12])):
            op = rng.choice(["slurp", "slurp", "slurp", "spew", "spew", "spew", "open", "open", "delete", "load", "exhaust", "stdin"])
            if op == "stdin" and any(o["op"] == "stdin" for o in ops):
                op = "slurp"
            o = {"op": op, "handler": rng.random() < 0.3}
            if op == "slurp":
                o["how"] = rng.choice(["text", "lines", "chars", "bytes", "u8", "data"])
                if o["how"] == "data": o["form"] = rng.choice(sorted(FORMS))
                o["size"] = rng.choice([0, 1, 16, 160, 480]) if o["how"] in ("chars", "u8") else rng.choice([0, 16, 160, 512, 4096, 8208]) if o["how"] == "data" else rng.choice([0, 16, 512, 1024, 8192, 8208, 16400])
                o["piece"] = rng.choice([1, 7, 100, 1000, 5000]) if o["size"] < 1000 else rng.choice([500, 1000, 5000])
                o["chunks"] = random_chunks(rng) if o["size"] < 1000 else rng.choice([[], [4096], [512, 100]])
                o["fault"] = [rng.choice([0, 0, 1, 1, 2, 3, 5, 10]), rng.choice(["EIO", "EIO", "EISDIR", "ENOMEM", "ESTALE"])] if rng.random() < 0.6 else None
            if op == "stdin":
                o["size"] = rng.choice([0, 16, 160])
                o["chunks"] = random_chunks(rng)
                o["fault"] = [rng.choice([0, 1, 2]), "EIO"] if rng.random() < 0.6 else None
            if op == "spew":
                o["how"] = rng.choice(["fill", "fill-write", "fill-display", "fill-chars", "fill-u8", "fill-bytes"])
                o["port"] = rng.choice(["with", "with", "call-with", "current", "close", "port"])
                o["lines"] = rng.choice([0, 1, 10, 100, 600])
                o["flush"] = rng.random() < 0.5
                o["chunks"] = rng.choice([[], [], [1000], [100, 3000], [511]])
                o["fault"] = rng.choice([None, ["write", rng.choice([0, 0, 1, 2]), rng.choice(["EIO", "ENOSPC", "EDQUOT", "EFBIG"])], ["close", 0, rng.choice(["EIO", "ENOSPC"])]])
            if op == "open":
                o["opener"] = rng.choice(["open-input-file", "open-binary-input-file", "open-output-file", "open-binary-output-file",
                                          "call-with-input-file", "call-with-output-file", "with-input-from-file", "with-output-to-file", "load", "file-exists?"])
                o["problem"] = rng.choice([None, "missing", "missing", "mode", "fault", "parent"] + ["stat"] * (o["opener"] == "file-exists?"))
            if op == "delete":
                o["problem"] = rng.choice([None, "missing", "fault"])
            if op == "load":
                o["forms"] = rng.randint(0, 6)
                o["chunks"] = random_chunks(rng)
                o["fault"] = [rng.choice([0, 0, 1, 2, 5]), "EIO"] if rng.random() < 0.6 else None
            if op == "exhaust":
                o["limit"] = rng.randint(1, 5)
                o["opener"] = rng.choice(["open-input-file", "open-binary-input-file", "open-output-file", "open-binary-output-file"])
            ops.append(o)
        return {"ops": ops, "quota": rng.choice([None, None, None, rng.randint(0, 12000)]), "gc": random_gc(rng, 3000), "place": random_place(rng)}

    def simplify(self, s):
        for key, value in (("gc", "gc off"), ("place", "place lifo"), ("quota", None)):
            if s[key] != value:
                yield {**s, key: value}
        for i, o in enumerate(s["ops"]):
            swap = lambda **kw: {**s, "ops": s["ops"][:i] + [{**o, **kw}] + s["ops"][i + 1:]}
            if o.get("chunks"): yield swap(chunks=[])
            if o.get("handler"): yield swap(handler=False)
            if o.get("lines", 0) > 1: yield swap(lines=o["lines"] // 2)
            if o.get("size", 0) > 16: yield swap(size=o["size"] // 2)

    def path(self, i):
        return f"/sim/home/f{i}"

    def text(self, o):
        return (TEXT * (o["size"] // 16 + 1))[:o["size"]]

    def content(self, o):
        a, b = FORMS[o["form"]] if o.get("form") else ("", "")
        return a + self.text(o) + b

    def expression(self, i, o):
        path = f'"home/f{i}"'
        op = o["op"]
        attempt = "try-handler" if o["handler"] else "try"
        if op == "slurp":
            how = {"text": f"(lambda (p) (slurp-text p {o['piece']}))", "lines": "slurp-lines", "chars": "slurp-chars",
                   "bytes": f"(lambda (p) (slurp-bytes p {o['piece']}))", "u8": "slurp-u8", "data": "slurp-data"}[o["how"]]
            opener = "open-binary-input-file" if o["how"] in ("bytes", "u8") else "open-input-file"
            return f"(let ((r ({attempt} (lambda () (with ({opener} {path}) {how}))))) (if (symbol? r) r (begin (sim-log (if (string? r) (map char->integer (string->list r)) (vector->list (u8 r)))) 'all)))"
        if op == "stdin":
            return f"(let ((r ({attempt} (lambda () (slurp-text (current-input-port) 10))))) (if (symbol? r) r (begin (sim-log (map char->integer (string->list r))) 'all)))"
        if op == "spew":
            flush = "(flush-output-port p)" if o["flush"] else ""
            binary = o["how"] in ("fill-u8", "fill-bytes")
            if o["port"] == "call-with" and not binary:
                return f"({attempt} (lambda () (call-with-output-file {path} (lambda (p) ({o['how']} p {o['lines']}) {flush} 'written))))"
            if o["port"] == "current" and not binary:
                return f"({attempt} (lambda () (with-output-to-file {path} (lambda () ({o['how']} (current-output-port) {o['lines']}) {flush.replace(' p', '')} 'written))))"
            if o["port"] == "port":
                return f"({attempt} (lambda () (call-with-port ({'open-binary-output-file' if binary else 'open-output-file'} {path}) (lambda (p) ({o['how']} p {o['lines']}) {flush} 'written))))"
            with_ = "with" if o["port"] != "close" else "with-output"
            return f"({attempt} (lambda () ({with_} ({'open-binary-output-file' if binary else 'open-output-file'} {path}) (lambda (p) ({o['how']} p {o['lines']}) {flush} 'written))))"
        if op == "open":
            f = o["opener"]
            if f == "load": return f"({attempt} (lambda () (load {path}) 'ok))"
            if f == "file-exists?": return f"({attempt} (lambda () (if (file-exists? {path}) 'ok 'absent)))"
            if f.startswith("open-"): return f"({attempt} (lambda () (close-port ({f} {path})) 'ok))"
            if f.startswith("call-"): return f"({attempt} (lambda () ({f} {path} (lambda (p) 'ok))))"
            return f"({attempt} (lambda () ({f} {path} (lambda () 'ok))))"
        if op == "delete":
            return f"({attempt} (lambda () (delete-file {path}) (if (file-exists? {path}) 'still-there 'ok)))"
        if op == "load":
            return f"({attempt} (lambda () (load {path}) 'ok))"
        if op == "exhaust":
            return (f"(let loop ((ports '()) (n 0)) (let ((p ({attempt} (lambda () ({o['opener']} {path}))))) (if (and (port? p) (< n 70)) (loop (cons p ports) (+ n 1))"
                    f" (begin (for-each close-port ports) (let ((q ({attempt} (lambda () ({o['opener']} {path}))))) (if (port? q) (close-port q)) (list n (if (symbol? p) p 'none) (port? q)))))))")
        raise ValueError(op)

    def plans(self, s):
        out = ["cpu 20", "steps 6000000"]
        for i, o in enumerate(s["ops"]):
            path = self.path(i)
            op = o["op"]
            if op == "slurp":
                out.append(f"file {path} {hexed(self.content(o))}")
                if o["chunks"]: out.append(f"rchunk {path} " + " ".join(map(str, o["chunks"])))
                if o["fault"]: out.append(f"fault read {path} {o['fault'][0]} {o['fault'][1]}")
            if op == "stdin":
                out.append(f"stdin {hexed(self.text(o))}")
                if o["chunks"]: out.append("rchunk /sim/dev/stdin " + " ".join(map(str, o["chunks"])))
                if o["fault"]: out.append(f"fault read /sim/dev/stdin {o['fault'][0]} {o['fault'][1]}")
            if op == "spew":
                if o["chunks"]:
                    out.append(f"file {path} -")
                    out.append(f"wchunk {path} " + " ".join(map(str, o["chunks"])))
                if o["fault"]: out.append(f"fault {o['fault'][0]} {path} {o['fault'][1]} {o['fault'][2]}")
            if op == "open":
                reading = "input" in o["opener"] or o["opener"] in ("load", "file-exists?")
                if o["problem"] == "parent":
                    pass
                elif o["problem"] != "missing" and (reading or o["problem"]):
                    out.append(f"file {path} {hexed('1')}")
                if o["problem"] == "mode": out.append(f"mode {path} -")
                if o["problem"] == "fault": out.append(f"fault open {path} * EACCES")
                if o["problem"] == "stat": out.append(f"fault stat {path} * {'EIO EACCES ELOOP ENAMETOOLONG'.split()[i % 4]}")
                if o["problem"] == "parent": out.append(f"dir {path}")
            if op == "delete":
                if o["problem"] != "missing": out.append(f"file {path} {hexed('1')}")
                if o["problem"] == "fault": out.append(f"fault remove {path} 0 EBUSY")
            if op == "load":
                body = "".join(f"(sim-log '(loaded {i} {k}))\n" for k in range(o["forms"]))
                out.append(f"file {path} {hexed(body)}")
                if o["chunks"]: out.append(f"rchunk {path} " + " ".join(map(str, o["chunks"])))
                if o["fault"]: out.append(f"fault read {path} {o['fault'][0]} {o['fault'][1]}")
            if op == "exhaust":
                out.append(f"file {path} {hexed('1')}")
        if s["quota"] is not None:
            used = sum(len(self.content(o)) if o["op"] in ("slurp", "stdin") else 0 for o in s["ops"])
            out.append(f"quota {used + 2000 + s['quota']}")
        text = "\n".join(out) + "\n" + prelude() + forms(*DEFINITIONS)
        text += forms("(define (u8 b) (let ((v (make-vector (bytevector-length b) 0))) (let loop ((i 0)) (if (< i (bytevector-length b)) (begin (vector-set! v i (bytevector-u8-ref b i)) (loop (+ i 1))) v))))")
        text += s["place"] + "\n" + s["gc"] + "\n"
        for i, o in enumerate(s["ops"]):
            if o["op"] == "exhaust": text += f"maxfd {o['limit']}\n"
            text += forms(self.expression(i, o))
            if o["op"] == "exhaust": text += "maxfd 64\n"
            text += forms("(sim-descriptors)")
        return [(Boot(), text)]

    def judge(self, s, logs, ctx):
        log = logs[0]
        crash_check(log)
        if log.end != "done":
            raise Violation("stopped", f"the run ended with {log.end}")
        base = len(PRELUDE) + len(DEFINITIONS) + 1
        fired = {}
        for (op, path, error), n in log.fired_last().items():
            fired[path] = fired.get(path, 0) + n
        texts = list(log.logs)
        for i, o in enumerate(s["ops"]):
            got = log.results.get(base + 2 * i)
            path = "/sim/dev/stdin" if o["op"] == "stdin" else self.path(i)
            where = f"operation {i} {({k: v for k, v in o.items() if k not in ('chunks', 'handler')})}"
            if got is None or got[0] == "E":
                raise Violation("not-catchable", f"{where}: {got}")
            result = got[1]
            hit = fired.get(path, 0)
            if o["op"] in ("slurp", "stdin"):
                if hit:
                    ctx.probe("read failed")
                    if result != "file-error":
                        raise Violation("unreported", f"{where}: the read failed but the result is {result}")
                elif result != "all":
                    raise Violation("spurious", f"{where}: {result} although nothing failed")
                else:
                    logged = texts.pop(0)
                    text = self.text(o)
                    if o.get("how") == "lines" and text and not text.endswith("\n"): text += "\n"
                    if logged != "(" + " ".join(str(ord(c)) for c in text) + ")":
                        raise Violation("differs", f"{where}: got {logged[:100]}")
            if o["op"] == "spew":
                content = log.files.get(path)
                complete = content == TEXT.encode() * o["lines"]
                if hit: ctx.probe("write or close failed")
                if result == "written":
                    if hit: raise Violation("unreported", f"{where}: the {o['fault'][0]} failed but no error was raised")
                    if not complete: raise Violation("lost", f"{where}: {len(content or b'')} bytes on the disk, no error was raised")
                elif result == "file-error":
                    if not hit and s["quota"] is None: raise Violation("spurious", f"{where}: file-error although nothing failed")
                    if not hit and complete: raise Violation("spurious", f"{where}: file-error although everything was written")
                    if not hit: ctx.probe("disk full")
                else:
                    raise Violation("wrong-class", f"{where}: {result}")
            if o["op"] == "open":
                reading = "input" in o["opener"] or o["opener"] == "load"
                if o["opener"] == "file-exists?":
                    if result != ("absent" if o["problem"] == "missing" else "file-error" if o["problem"] == "stat" else "ok"):
                        raise Violation("wrong-class", f"{where}: {result}")
                    continue
                bad = {None: False, "missing": reading, "mode": True, "fault": True, "parent": True}[o["problem"]]
                if o["problem"] == "parent" and reading and o["opener"] != "load" and result in ("ok", "file-error"):
                    continue # a directory can be opened for reading, but not read
                if bad: ctx.probe("open failed")
                if result != ("file-error" if bad else "ok"):
                    raise Violation("wrong-class" if bad else "spurious", f"{where}: {result}")
            if o["op"] == "delete":
                if o["problem"]: ctx.probe("delete failed")
                if result != ("file-error" if o["problem"] else "ok"):
                    raise Violation("unreported" if o["problem"] else "spurious", f"{where}: {result}")
                if o["problem"] == "fault" and log.files.get(path) is None:
                    raise Violation("lost", f"{where}: the file is gone")
                if not o["problem"] and log.files.get(path) is not None:
                    raise Violation("still-there", f"{where}: the file is still there")
            if o["op"] == "load":
                mine = []
                while texts and texts[0].startswith(f"(loaded {i} "):
                    mine.append(texts.pop(0))
                if mine != [f"(loaded {i} {k})" for k in range(len(mine))]:
                    raise Violation("differs", f"{where}: executed {mine}")
                if hit: ctx.probe("load failed")
                if result != ("file-error" if hit else "ok"):
                    raise Violation("unreported" if hit else "spurious", f"{where}: {result}")
                if not hit and len(mine) != o["forms"]:
                    raise Violation("differs", f"{where}: executed {mine}")
            if o["op"] == "exhaust":
                ctx.probe("descriptors exhausted")
                if result != f"({o['limit']} file-error #t)":
                    raise Violation("descriptors", f"{where}: {result}, expected {o['limit']} ports and then file-error")
            left = log.results.get(base + 2 * i + 1)
            if left is None or left[1] != "0":
                # ports opened by procedures that failed are closed when they are collected
                if o["op"] in ("load",) or o["op"] == "open" and not o["opener"].startswith("open-") or o["op"] == "spew" and o["port"] in ("call-with", "current", "port") and result != "written":
                    return
                raise Violation("descriptors", f"{where}: {left} descriptors are still open")

    def nontrivial(self, s, logs):
        return sum(logs[0].fired_last().values()) > 0 or any(o.get("problem") or o["op"] == "exhaust" for o in s["ops"])


PROPERTY = C06()
