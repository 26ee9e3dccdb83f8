"""C04: what binary input ports deliver."""
from ..common import *
from ..harness import Boot, Property, Violation, crash_check


class Source:
    def __init__(self, d):
        self.data = bytes(d["data"]) if "data" in d else bytes(d["seed"] * k * 7 + (k >> 3) & 255 for k in range(d["size"]))
        self.at = 0

    def apply(self, op, k):
        rest = self.data[self.at:self.at + 1]
        if op == "read-u8":
            self.at += len(rest)
            return str(rest[0]) if rest else "eof"
        if op == "peek-u8":
            return str(rest[0]) if rest else "eof"
        if op == "u8-ready?":
            return "#t" if rest else None
        if op == "read-bytevector":
            b = self.data[self.at:self.at + k[0]]
            self.at += len(b)
            return e_bytes(b) if b else "eof" if k[0] else None
        if op == "read-bytevector!":
            size, start, end = k
            b = self.data[self.at:self.at + end - start]
            self.at += len(b)
            if not b and end > start:
                return "eof"
            if not b:
                return None
            return f"(p {len(b)} (p {e_bytes(bytes([170]) * start + b + bytes([170]) * (size - start - len(b)))} ()))"
        raise ValueError(op)


class C04(Property):
    id = "C04"
    shrink = ("ops",)
    runs = {"quick": 3500, "thorough": 150000}
    wall = {"quick": 45, "thorough": 900}
    rule = ("A case is 1-3 binary input ports (file, pipe, bytevector) with seeded bytes (all values, sizes around the stream buffers), seeded read chunking and interruptions, "
            "and up to 50 operations interleaved over the ports. Non-trivial: at least one operation delivered bytes.")
    assumptions = ["a byte model of each port is the oracle"]

    def scenario(self, rng, tier):
        ports = []
        for i in range(rng.choice([1, 1, 2, 3])):
            p = {"kind": rng.choice(["file", "file", "pipe", "bytevector"]), "chunks": random_chunks(rng),
                 "eintr": sorted({rng.randint(0, 12) for _ in range(rng.choice([0, 0, 1, 4]))})}
            if rng.random() < 0.7:
                n = rng.choice([0, 1, 2, 3, 8, 40, 200])
                p["data"] = [rng.choice([0, 255, 10, 13, 26, 128, rng.randrange(256)]) for _ in range(n)]
            else:
                p["size"] = rng.choice([511, 512, 513, 1024, 4095, 4096, 8190, 8191, 8192, 8193, 16384, 20000]) if p["kind"] != "bytevector" else rng.choice([255, 300, 1000])
                p["seed"] = rng.randrange(1, 100)
            ports.append(p)
        ops = []
        for _ in range(rng.choice([3, 12, 30, 50])):
            op = rng.choice(["read-u8", "peek-u8", "u8-ready?", "read-bytevector", "read-bytevector", "read-bytevector!", "read-bytevector!"])
            size = rng.choice([1, 2, 3, 7, 40, 500, 4096])
            k = []
            if op == "read-bytevector":
                k = [rng.choice([0, size, size])]
            if op == "read-bytevector!":
                size = min(size, 500)
                start = rng.randint(0, size)
                k = [size, start, rng.randint(start, size)]
                if rng.random() < 0.3: k = [size, 0, size]
            ops.append([rng.randrange(len(ports)), op, k])
        if rng.random() < 0.5:
            for i in range(len(ports)):
                ops += [[i, "read-bytevector", [30000]], [i, rng.choice(["read-u8", "peek-u8", "read-bytevector"]), [5]]]
        return {"ports": ports, "ops": ops, "gc": random_gc(rng), "place": random_place(rng)}

    def simplify(self, s):
        for key, value in (("gc", "gc off"), ("place", "place lifo")):
            if s[key] != value:
                yield {**s, key: value}
        for i, p in enumerate(s["ports"]):
            swap = lambda q: {**s, "ports": s["ports"][:i] + [q] + s["ports"][i + 1:]}
            for key in ("chunks", "eintr"):
                if p[key]:
                    yield swap({**p, key: []})
            if p.get("data"):
                d = p["data"]
                for x in (d[:len(d) // 2], d[1:], d[:-1]):
                    yield swap({**p, "data": x})
            if p.get("size"):
                for n in (p["size"] // 2, p["size"] - 1):
                    yield swap({**p, "size": n})

    def plans(self, s):
        out = ["cpu 20", "steps 4000000"]
        opening = []
        for i, p in enumerate(s["ports"]):
            data = Source(p).data
            path = f"/sim/home/in{i}"
            if p["kind"] == "bytevector":
                opening.append(f"(define p{i} (open-input-bytevector (apply bytevector '({' '.join(map(str, data))}))))")
            else:
                out.append(f"file {path} {hexed(data)}")
                if p["kind"] == "pipe":
                    out.append(f"pipe {path}")
                if p["chunks"]:
                    out.append(f"rchunk {path} " + " ".join(map(str, p["chunks"])))
                for n in p["eintr"]:
                    out.append(f"fault read {path} {n} EINTR")
                opening.append(f'(define p{i} (open-binary-input-file "home/in{i}"))')
        text = "\n".join(out) + "\n" + prelude() + forms(*opening) + s["place"] + "\n" + s["gc"] + "\n"
        for i, op, k in s["ops"]:
            if op == "read-bytevector":
                text += forms(f"(enc (read-bytevector {k[0]} p{i}))")
            elif op == "read-bytevector!":
                extra = "" if k[1] == 0 and k[2] == k[0] else f" {k[1]}" if k[2] == k[0] else f" {k[1]} {k[2]}"
                text += forms(f"(let* ((b (make-bytevector {k[0]} 170)) (n (read-bytevector! b p{i}{extra}))) (enc (if (eof-object? n) n (list n b))))")
            else:
                text += forms(f"(enc ({op} p{i}))")
        return [(Boot(), text)]

    def judge(self, s, logs, ctx):
        log = logs[0]
        crash_check(log)
        sources = [Source(p) for p in s["ports"]]
        base = len(PRELUDE) + len(s["ports"])
        for n, (i, op, k) in enumerate(s["ops"]):
            at = sources[i].at
            expected = sources[i].apply(op, k)
            got = log.results.get(base + n)
            where = f"operation {n}, {op} {k or ''} at byte {at} of {len(sources[i].data)} of the {s['ports'][i]['kind']} port {i}"
            if got is None:
                raise Violation("stopped", f"{where}: no result ({log.end})")
            if got[0] == "E":
                raise Violation("error", f"{where}: {got[1]} {got[2]}")
            if expected is not None and got[1] != expected:
                raise Violation("differs", f"{where}: expected {expected[:200]}, got {got[1][:200]}")
            ctx.probe(op)
            if expected == "eof":
                ctx.probe("end of file")

    def nontrivial(self, s, logs):
        return any(r[0] == "R" and r[1] not in ("eof", "#t") for k, r in logs[0].results.items() if k >= len(PRELUDE) + len(s["ports"]))


PROPERTY = C04()
