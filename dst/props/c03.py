"""C03: what textual input ports deliver."""
from ..common import *
from ..harness import Boot, Property, Violation, crash_check


class Source:
    """Reference model of one textual input port: a position in a list of characters."""

    def __init__(self, d):
        self.text = ""
        self.datum_at = {}
        for item in d["items"]:
            if item[0] == "t":
                self.text += item[1]
            else:
                self.datum_at[len(self.text)] = (len(self.text) + len(item[1]), item[2])
                self.text += item[1] + item[3]
        self.at = 0

    def left(self):
        return self.text[self.at:]

    def apply(self, op, k):
        """The expected encoding, None when any answer is right, or False when the operation is not allowed here."""
        rest = self.text[self.at:self.at + 1]
        if op == "read-char":
            self.at += len(rest)
            return e_char(rest) if rest else "eof"
        if op == "peek-char":
            return e_char(rest) if rest else "eof"
        if op == "char-ready?":
            return "#t" if rest else None
        if op == "read-string":
            if not rest:
                return "eof" if k else None
            s = self.text[self.at:self.at + k]
            self.at += len(s)
            return e_string(s)
        if op == "read-line":
            if not rest:
                return "eof"
            end = self.text.find("\n", self.at)
            line = self.text[self.at:] if end < 0 else self.text[self.at:end]
            self.at = len(self.text) if end < 0 else end + 1
            return e_string(line)
        if op == "read":
            i = self.at
            while i < len(self.text) and self.text[i] in " \n\t":
                i += 1
            if i == len(self.text):
                self.at = i
                return "eof"
            if i not in self.datum_at:
                return False
            self.at, value = self.datum_at[i]
            return encode(unjson(value))
        raise ValueError(op)


class C03(Property):
    id = "C03"
    shrink = ("ops",)
    runs = {"quick": 2400, "thorough": 120000}
    wall = {"quick": 60, "thorough": 900}
    rule = ("A case is 1-3 textual input ports (file, pipe, string, standard input) with seeded contents (1- to 4-byte characters, data, texts longer than the stream buffers), "
            "a seeded chunking of every read and interruptions by signals, and up to 60 operations interleaved over the ports. "
            "Non-trivial: at least one operation delivered data; distinct by scenario and by I/O and collector history.")
    assumptions = ["a character model of each port (position in a list of characters) is the oracle", "texts contain no carriage return"]

    def scenario(self, rng, tier):
        ports = []
        for i in range(rng.choice([1, 1, 2, 3])):
            kind = rng.choice(["file", "file", "pipe", "string", "stdin"])
            if kind == "stdin" and any(p["kind"] == "stdin" for p in ports):
                kind = "file"
            items = []
            if rng.random() < 0.25:
                # what follows straddles the end of a stream buffer
                pad = rng.choice([511, 1023, 4095, 8190, 8191, 8192, 1021, 16382]) - rng.randint(0, 6)
                items.append(["t", ("0123456789abcde\n" * (pad // 16 + 1))[-pad:]])
            for _ in range(rng.choice([0, 1, 3, 6, 12])):
                if rng.random() < 0.45:
                    d = random_datum(rng)
                    items.append(["d", external(d, rng), d, rng.choice([" ", "\n", "  ", "\n\n"])])
                else:
                    items.append(["t", "".join("\n" if rng.random() < 0.1 else random_char(rng) for _ in range(rng.randint(0, 30)))
                                  + rng.choice(["", "\n", " ", "\0", "\n\n"])])
            if items and rng.random() < 0.3:
                items.append(["t", rng.choice(["λ", "last line", "漢", " ", "\n"])])
            size = sum(len(x[1].encode()) for x in items)
            ports.append({"kind": kind, "items": items, "chunks": random_chunks(rng),
                          "eintr": sorted({rng.randint(1, 12) for _ in range(rng.choice([0, 0, 1, 4]))}) if kind in ("file", "pipe") else [],
                          "open": rng.choice(["open-input-file", "open-input-file", "call"])})
        sources = [Source(p) for p in ports]
        ops = []
        for _ in range(rng.choice([3, 12, 30, 60])):
            i = rng.randrange(len(ports))
            s = sources[i]
            for _ in range(4):
                op = rng.choice(["read-char", "peek-char", "read-line", "read-string", "read", "read", "char-ready?"])
                k = rng.choice([1, 2, 5, 17, 100, 600, 5000]) if op == "read-string" else 0
                was = s.at
                if s.apply(op, k) is False:
                    s.at = was
                    continue
                ops.append([i, op, k])
                break
        if rng.random() < 0.5:
            for i in range(len(ports)):
                ops += [[i, "read-string", 100000], [i, rng.choice(["read-char", "peek-char", "read-line", "read"]), 0]]
        return {"ports": ports, "ops": ops, "gc": random_gc(rng), "place": random_place(rng)}

    def valid(self, s):
        sources = [Source(p) for p in s["ports"]]
        return all(sources[i].apply(op, k) is not False for i, op, k in s["ops"])

    def simplify(self, s):
        for key, value in (("gc", "gc off"), ("place", "place lifo")):
            if s[key] != value:
                yield {**s, key: value}
        for i, p in enumerate(s["ports"]):
            for change in ({"chunks": []}, {"eintr": []}, {"kind": "string"}):
                if all(p[k] != v for k, v in change.items()):
                    yield {**s, "ports": s["ports"][:i] + [{**p, **change}] + s["ports"][i + 1:]}
            for j, x in enumerate(p["items"]):
                yield {**s, "ports": s["ports"][:i] + [{**p, "items": p["items"][:j] + p["items"][j + 1:]}] + s["ports"][i + 1:]}
                if x[0] == "t" and len(x[1]) > 1:
                    for t in (x[1][:len(x[1]) // 2], x[1][len(x[1]) // 2:], x[1][1:], x[1][:-1]):
                        yield {**s, "ports": s["ports"][:i] + [{**p, "items": p["items"][:j] + [["t", t]] + p["items"][j + 1:]}] + s["ports"][i + 1:]}

    def plans(self, s):
        out = ["cpu 20", "steps 4000000"]
        opening = []
        for i, p in enumerate(s["ports"]):
            text = Source(p).text
            path = f"/sim/home/in{i}"
            if p["kind"] == "string":
                out_text = "".join(f" {ord(c)}" for c in text)
                opening.append(f"(define p{i} (open-input-string (list->string (map integer->char '({out_text})))))")
            elif p["kind"] == "stdin":
                out.append(f"stdin {hexed(text)}")
                if p["chunks"]:
                    out.append("rchunk /sim/dev/stdin " + " ".join(map(str, p["chunks"])))
                opening.append(f"(define p{i} (current-input-port))")
            else:
                out.append(f"file {path} {hexed(text)}")
                if p["kind"] == "pipe":
                    out.append(f"pipe {path}")
                if p["chunks"]:
                    out.append(f"rchunk {path} " + " ".join(map(str, p["chunks"])))
                for n in p["eintr"]:
                    out.append(f"fault read {path} {n} {EINTR}")
                opening.append(f'(define p{i} (open-input-file "home/in{i}"))' if p["open"] == "open-input-file" else
                               f'(define p{i} (call-with-input-file "home/in{i}" (lambda (p) (sim-log (enc (input-port? p))) p)))'
                               if False else f'(define p{i} (open-input-file "/sim/home/in{i}"))')
        text = "\n".join(out) + "\n" + prelude() + forms(*opening)
        text += s["place"] + "\n" + s["gc"] + "\n"
        for i, op, k in s["ops"]:
            text += forms(f"(enc (read-string {k} p{i}))" if op == "read-string" else f"(enc ({op} p{i}))")
        return [(Boot(), text)]

    def judge(self, s, logs, ctx):
        log = logs[0]
        crash_check(log)
        sources = [Source(p) for p in s["ports"]]
        base = len(PRELUDE) + len(s["ports"])
        for n, (i, op, k) in enumerate(s["ops"]):
            at = sources[i].at
            expected = sources[i].apply(op, k)
            got = log.results.get(base + n)
            if got is None:
                raise Violation("stopped", f"no result of operation {n} {op} ({log.end})")
            where = f"operation {n}, {op} {k or ''} at character {at} of {len(sources[i].text)} of the {s['ports'][i]['kind']} port {i}"
            if got[0] == "E":
                raise Violation("error", f"{where}: {got[1]} {got[2]}")
            if expected is not None and got[1] != expected:
                raise Violation("differs", f"{where}: expected {expected[:200]}, got {got[1][:200]}")
            ctx.probe(op)
            if expected == "eof":
                ctx.probe("end of file")

    def nontrivial(self, s, logs):
        return any(r[0] == "R" and r[1] not in ("eof", "#t") for k, r in logs[0].results.items() if k >= len(PRELUDE) + len(s["ports"]))


PROPERTY = C03()
