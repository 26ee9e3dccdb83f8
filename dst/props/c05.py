"""C05: what output ports leave on the disk, on the terminal and in memory, also when the machine stops."""
from ..common import *
from ..harness import Boot, Property, Violation, crash_check


def lit(s):
    """A Scheme expression for the string s that does not depend on the reader's escapes."""
    if all(32 <= ord(c) < 127 and c not in '"\\' for c in s):
        return '"' + s + '"'
    return "(string " + " ".join(f"(integer->char {ord(c)})" for c in s) + ")"


def written(d):
    if isinstance(d, list):
        return "(" + " ".join(written(x) for x in d) + ")"
    if isinstance(d, str) and d.startswith("'"):
        return d[1:]
    if isinstance(d, str):
        return '"' + d.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return str(d)


def displayed(d):
    if isinstance(d, list):
        return "(" + " ".join(displayed(x) for x in d) + ")"
    if isinstance(d, str):
        return d[1:] if d.startswith("'") else d
    return str(d)


def quoted(d):
    return written(d)


def simple(rng, depth=2, strings=True):
    k = rng.random() if strings or depth == 2 else rng.random() * 0.8
    if depth and k < 0.3: return [simple(rng, depth - 1, strings) for _ in range(rng.randint(0, 4))]
    if k < 0.6: return rng.randint(-10**rng.randint(1, 25), 10**rng.randint(1, 25))
    if k < 0.8: return "'" + "".join(rng.choice("abcxyz") for _ in range(rng.randint(1, 8)))
    return "".join(rng.choice('abc xyz"\\()') for _ in range(rng.randint(0, 10)))


def produced(op, a):
    """The bytes an operation appends."""
    if op in ("write-char", "write-u8"): return chr(a).encode() if op == "write-char" else bytes([a])
    if op == "newline": return b"\n"
    if op == "write-string":
        s, start, end = a
        return s[start:len(s) if end is None else end].encode()
    if op == "write-bytevector":
        b, start, end = a
        return bytes(b[start:len(b) if end is None else end])
    if op == "fill":
        return (("%07d\n" % a[0]) * a[1]).encode()
    if op == "fill-u8":
        return bytes([a[0]]) * a[1]
    if op == "write": return written(a).encode()
    if op == "display": return displayed(a).encode()
    return b""


class C05(Property):
    id = "C05"
    shrink = ("ops",)
    runs = {"quick": 3200, "thorough": 150000}
    wall = {"quick": 50, "thorough": 900}
    rule = ("A case is 1-3 output ports (textual or binary file, string, bytevector, terminal), up to 60 operations interleaved over them, with seeded short writes, interrupted writes, "
            "snapshots of the disk after acknowledged operations and, in half of the cases, a stop of the machine at a seeded I/O event and byte. Non-trivial: bytes reached a port's destination.")
    assumptions = ["the disk keeps what write(2) accepted", "a byte model of each port is the oracle"]

    def scenario(self, rng, tier):
        ports = []
        for i in range(rng.choice([1, 1, 2, 3])):
            kind = rng.choice(["file", "file", "file", "binary", "binary", "string", "bytevector", "stdout"])
            if kind == "stdout" and any(p["kind"] == "stdout" for p in ports):
                kind = "file"
            ports.append({"kind": kind, "old": rng.random() < 0.3, "chunks": random_chunks(rng),
                          "eintr": sorted({rng.randint(0, 10) for _ in range(rng.choice([0, 0, 2]))})})
        ops = []
        closed = set()
        for _ in range(rng.choice([2, 8, 25, 60])):
            i = rng.randrange(len(ports))
            kind = ports[i]["kind"]
            if i in closed:
                continue
            if kind in ("binary", "bytevector"):
                op = rng.choice(["write-u8", "write-bytevector", "write-bytevector", "write-bytevector", "fill-u8", "flush", "close"])
            else:
                op = rng.choice(["write-char", "write-string", "write-string", "write-string", "newline", "write", "display", "fill", "flush", "close"])
            if op == "close" and rng.random() < 0.7:
                op = "flush"
            a = None
            if op == "write-char": a = ord(random_char(rng)) if rng.random() < 0.95 else 0
            if op == "write-u8": a = rng.choice([0, 255, 10, 13, rng.randrange(256)])
            if op == "write-string":
                s = "".join(random_char(rng) for _ in range(rng.choice([0, 1, 3, 20])))
                start = rng.randint(0, len(s)) if rng.random() < 0.5 else 0
                a = [s, start, rng.choice([None, rng.randint(start, len(s))])]
            if op == "write-bytevector":
                b = [rng.choice([0, 255, 10, 200, 65, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 3, 20]))]
                start = rng.randint(0, len(b)) if rng.random() < 0.5 else 0
                a = [b, start, rng.choice([None, rng.randint(start, len(b))])]
            if op in ("write", "display"): a = simple(rng, 2, op == "write")
            if op == "fill": a = [rng.randint(0, 9999999), rng.choice([1, 100, 127, 128, 129, 1023, 1024, 2000])]
            if op == "fill-u8": a = [rng.randrange(256), rng.choice([1, 500, 511, 512, 1023, 1024, 8191, 8192, 9000])]
            if a and op in ("fill", "fill-u8") and kind in ("string", "bytevector"): a[1] = min(a[1], 40 if op == "fill" else 300)
            if op == "close" and kind != "stdout":
                closed.add(i)
            if op == "close" and kind == "stdout":
                op = "flush"
            ops.append([i, op, a])
            if op in ("flush", "close") and rng.random() < 0.8:
                ops.append([i, "look", None])
            elif kind in ("string", "bytevector") and rng.random() < 0.3:
                ops.append([i, "look", None])
        return {"ports": ports, "ops": ops, "gc": random_gc(rng, 1500), "place": random_place(rng),
                "crash": [rng.randint(0, 40), rng.choice([0, 1, 2, 100, 5000])] if rng.random() < 0.5 else None,
                "finish": rng.random() < 0.7}

    def simplify(self, s):
        for key, value in (("gc", "gc off"), ("place", "place lifo"), ("crash", None)):
            if s[key] != value:
                yield {**s, key: value}
        if s["crash"]:
            for c in ([s["crash"][0], 0], [s["crash"][0] // 2, s["crash"][1]], [max(0, s["crash"][0] - 1), s["crash"][1]]):
                if c != s["crash"]: yield {**s, "crash": c}
        for i, p in enumerate(s["ports"]):
            for key, v in (("chunks", []), ("eintr", []), ("old", False)):
                if p[key] != v:
                    yield {**s, "ports": s["ports"][:i] + [{**p, key: v}] + s["ports"][i + 1:]}
        for i, (port, op, a) in enumerate(s["ops"]):
            if op in ("fill", "fill-u8") and a[1] > 1:
                for n in (a[1] // 2, a[1] - 1):
                    yield {**s, "ops": s["ops"][:i] + [[port, op, [a[0], n]]] + s["ops"][i + 1:]}

    def expression(self, i, kind, op, a):
        p = f"p{i}"
        if op == "write-char": return f"(write-char (integer->char {a}) {p})"
        if op == "write-u8": return f"(write-u8 {a} {p})"
        if op == "newline": return f"(newline {p})"
        if op == "write-string":
            s, start, end = a
            extra = "" if start == 0 and end is None else f" {start}" if end is None else f" {start} {end}"
            return f"(write-string {lit(s)} {p}{extra})"
        if op == "write-bytevector":
            b, start, end = a
            extra = "" if start == 0 and end is None else f" {start}" if end is None else f" {start} {end}"
            return f"(write-bytevector (bytevector {' '.join(map(str, b))}) {p}{extra})"
        if op == "fill": return f'(let loop ((n {a[1]})) (if (< 0 n) (begin (write-string "{"%07d" % a[0]}" {p}) (newline {p}) (loop (- n 1)))))'
        if op == "fill-u8": return f"(write-bytevector (make-bytevector {a[1]} {a[0]}) {p})"
        if op in ("write", "display"): return f"({op} '{quoted(a)} {p})"
        if op == "flush": return f"(flush-output-port {p})"
        if op == "close": return f"(close-port {p})"
        if op == "look":
            if kind == "string": return f"(enc (get-output-string {p}))"
            if kind == "bytevector": return f"(enc (get-output-bytevector {p}))"
            return "(sim-disk 'look)"
        raise ValueError(op)

    def all_ops(self, s):
        ops = list(s["ops"])
        if s["finish"]:
            closed = {i for i, op, a in ops if op == "close"}
            for i, p in enumerate(s["ports"]):
                if i not in closed:
                    if p["kind"] in ("string", "bytevector"):
                        ops.append([i, "look", None])
                    else:
                        ops += [[i, "flush" if p["kind"] == "stdout" else "close", None], [i, "look", None]]
        return ops

    def plans(self, s):
        out = ["cpu 20", "steps 4000000"]
        opening = []
        for i, p in enumerate(s["ports"]):
            path = f"/sim/home/out{i}"
            if p["kind"] in ("file", "binary"):
                if p["old"]:
                    out.append(f"file {path} {hexed('old contents that are longer than nothing')}")
                if p["chunks"]:
                    if not p["old"]:
                        out.append(f"file {path} -")
                    out.append(f"wchunk {path} " + " ".join(map(str, p["chunks"])))
                for n in p["eintr"]:
                    out.append(f"fault write {path} {n} EINTR")
                opening.append(f'(define p{i} (open-{"binary-" if p["kind"] == "binary" else ""}output-file "home/out{i}"))')
            else:
                opening.append(f"(define p{i} " + {"string": "(open-output-string)", "bytevector": "(open-output-bytevector)", "stdout": "(current-output-port)"}[p["kind"]] + ")")
        if s["crash"]:
            out.append(f"crash {s['crash'][0]} {s['crash'][1]}")
        text = "\n".join(out) + "\n" + prelude() + forms(*opening) + s["place"] + "\n" + s["gc"] + "\n"
        for i, op, a in self.all_ops(s):
            text += forms(self.expression(i, s["ports"][i]["kind"], op, a))
        return [(Boot(), text)]

    def judge(self, s, logs, ctx):
        log = logs[0]
        crash_check(log)
        if not s["crash"] and log.end != "done":
            raise Violation("stopped", f"the run ended with {log.end}")
        base = len(PRELUDE) + len(s["ports"])
        opened = [len(PRELUDE) + i in log.results for i in range(len(s["ports"]))]
        data = [b""] * len(s["ports"])          # accepted so far
        durable = [0] * len(s["ports"])         # acknowledged by flush or close
        pending = [b""] * len(s["ports"])       # of an operation under way when the machine stopped
        looks = 0

        def compare(i, content, where, least, most):
            if content is None:
                content = b""
            if not most.startswith(content):
                at = next((k for k in range(min(len(content), len(most))) if content[k] != most[k]), min(len(content), len(most)))
                raise Violation("not-a-prefix", f"{where}: port {i} ({s['ports'][i]['kind']}) has {content[at:at + 24]!r} at byte {at} of {len(content)}, expected {most[at:at + 24]!r}")
            if len(content) < least:
                raise Violation("lost", f"{where}: port {i} ({s['ports'][i]['kind']}) has {len(content)} bytes, {least} were acknowledged")

        def content_of(i, disk, out):
            return out if s["ports"][i]["kind"] == "stdout" else disk.get(f"/sim/home/out{i}")

        ops = self.all_ops(s)
        for n, (i, op, a) in enumerate(ops):
            got = log.results.get(base + n)
            kind = s["ports"][i]["kind"]
            more = produced(op, a)
            if got is None:
                pending[i] = more
                break
            if got[0] == "E":
                raise Violation("error", f"operation {n}, {op} on port {i} ({kind}): {got[1]} {got[2]}")
            data[i] += more
            if op in ("flush", "close"):
                durable[i] = len(data[i])
            if op == "look":
                ctx.probe("snapshot")
                if kind == "string":
                    if got[1] != e_string(data[i].decode()):
                        raise Violation("differs", f"operation {n}: the string port {i} has {got[1][:120]}, expected {e_string(data[i].decode())[:120]}")
                elif kind == "bytevector":
                    if got[1] != e_bytes(data[i]):
                        raise Violation("differs", f"operation {n}: the bytevector port {i} has {got[1][:120]}, expected {e_bytes(data[i])[:120]}")
                else:
                    disk = log.disks[looks][1]
                    looks += 1
                    for j, p in enumerate(s["ports"]):
                        if p["kind"] in ("file", "binary"):
                            compare(j, disk.get(f"/sim/home/out{j}"), f"snapshot after operation {n}", durable[j], data[j])
        stopped = log.end == "crash"
        ctx.probe("machine stopped" if stopped else "ran to the end")
        for j, p in enumerate(s["ports"]):
            if p["kind"] in ("file", "binary"):
                content = log.files.get(f"/sim/home/out{j}")
                if not opened[j] and (content is None or content == b"" or p["old"] and content == b"old contents that are longer than nothing"):
                    continue
                compare(j, content, "where the machine stopped" if stopped else "at the end", durable[j], data[j] + pending[j])
            if p["kind"] == "stdout":
                compare(j, log.out, "on the terminal", durable[j], data[j] + pending[j])

    def nontrivial(self, s, logs):
        return bool(logs[0].out) or any(v for k, v in logs[0].files.items() if "/out" in k) or any(p["kind"] in ("string", "bytevector") for p in s["ports"])


PROPERTY = C05()
