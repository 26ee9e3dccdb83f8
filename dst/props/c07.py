"""C07: reading data from damaged sources."""
import re
from fractions import Fraction

from ..common import *
from ..harness import Boot, Property, Violation, crash_check

DEFINITIONS = [
    "(define (attempt f) (call-with-current-continuation (lambda (k) (with-exception-handler (lambda (e) (k (cond ((read-error? e) 'read-error) ((file-error? e) 'file-error) ((error-object? e) 'error) (else 'raised)))) f))))",
    "(define (next p) (let ((x (attempt (lambda () (read p))))) (if (memq x '(read-error file-error error raised)) (if (eq? x 'read-error) '(failed read-error) (list 'failed x)) (enc x))))",
    "(define (drain p n) (if (= n 0) 'endless (let ((x (next p))) (sim-log x) (if (eq? x 'eof) 'end (drain p (- n 1))))))",
]

BLANK = " \t\n\r"
DELIMITER = BLANK + '()";|'


class Cut(Exception):
    """The text ends inside a datum (strict), or where a reader may also see the end of the file."""

    def __init__(self, strict):
        self.strict = strict


class Reader:
    """A reader of what `external` writes, and of its prefixes."""

    def __init__(self, text):
        self.t, self.i = text, 0
        self.fold, self.labels = False, {}

    def gap(self, nested):
        while self.i < len(self.t):
            c = self.t[self.i]
            if c in BLANK: self.i += 1
            elif c == ";":
                while self.i < len(self.t) and self.t[self.i] != "\n": self.i += 1
            elif self.t.startswith("#|", self.i):
                depth, self.i = 1, self.i + 2
                while depth:
                    if self.i >= len(self.t): raise Cut(nested)
                    if self.t.startswith("|#", self.i): depth, self.i = depth - 1, self.i + 2
                    elif self.t.startswith("#|", self.i): depth, self.i = depth + 1, self.i + 2
                    else: self.i += 1
            elif self.t.startswith("#!", self.i):
                a = self.i
                while self.i < len(self.t) and self.t[self.i] not in DELIMITER: self.i += 1
                if self.t[a:self.i] not in ("#!fold-case", "#!no-fold-case"): raise Cut(nested)
                self.fold = self.t[a:self.i] == "#!fold-case"
            elif self.t.startswith("#;", self.i):
                self.i += 2
                try: self.datum(False)
                except (Cut, StopIteration): raise Cut(nested)
            else: return

    def token(self):
        a = self.i
        while self.i < len(self.t) and self.t[self.i] not in DELIMITER: self.i += 1
        return self.t[a:self.i]

    def quoted(self, mark):
        self.i += 1
        out = ""
        while True:
            if self.i >= len(self.t): raise Cut(True)
            c = self.t[self.i]
            self.i += 1
            if c == mark: return out
            if c != "\\":
                out += c
                continue
            if self.i >= len(self.t): raise Cut(True)
            c = self.t[self.i]
            self.i += 1
            if c == "x":
                a = self.i
                while self.i < len(self.t) and self.t[self.i] != ";": self.i += 1
                if self.i >= len(self.t): raise Cut(True)
                out += chr(int(self.t[a:self.i], 16))
                self.i += 1
            elif c == "\n":
                while self.i < len(self.t) and self.t[self.i] in BLANK: self.i += 1
            else: out += {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v"}.get(c, c)

    def datum(self, nested=False):
        """The next datum; StopIteration at the end of the text."""
        self.gap(nested)
        if self.i >= len(self.t):
            if nested: raise Cut(True)
            raise StopIteration
        c = self.t[self.i]
        if c == "'":
            self.i += 1
            try: return ["l", ["y", "quote"], self.datum(True)]
            except Cut as e: raise Cut(True)
        if c == "`" or c == ",":
            self.i += 1
            if c == "," and self.i >= len(self.t): raise Cut(True)
            name = "quasiquote" if c == "`" else "unquote"
            if c == "," and self.t[self.i] == "@":
                self.i += 1
                name = "unquote-splicing"
            try: return ["l", ["y", name], self.datum(True)]
            except Cut as e: raise Cut(True)
        if c == "(":
            self.i += 1
            xs = self.items()
            return xs
        if c == '"':
            return self.quoted('"')
        if c == "|":
            return ["y", self.quoted("|")]
        if c == "#":
            self.i += 1
            if self.i >= len(self.t): raise Cut(True)
            c = self.t[self.i]
            if c == "(":
                self.i += 1
                return ["v"] + self.items()[1:]
            if c == "\\":
                self.i += 1
                if self.i >= len(self.t): raise Cut(True)
                a = self.i
                self.i += 1
                while self.i < len(self.t) and self.t[self.i] not in DELIMITER: self.i += 1
                name = self.t[a:self.i]
                if len(name) == 1: return ["c", name]
                if name in NAMES: return ["c", NAMES[name]]
                if name[0] == "x":
                    try: return ["c", chr(int(name[1:], 16))]
                    except ValueError: pass
                raise Cut(True)
            if c.isdigit() and c.isascii():
                a = self.i
                while self.i < len(self.t) and self.t[self.i].isdigit(): self.i += 1
                n = self.t[a:self.i]
                if self.i >= len(self.t): raise Cut(True)
                self.i += 1
                if self.t[self.i - 1] == "#":
                    return self.labels[n]
                try: x = self.datum(True)
                except Cut as e: raise Cut(True)
                self.labels[n] = x
                return x
            if c in "xobdei" and len(self.t) > self.i:
                self.i += 1
                if c in "ei":
                    try: x = self.datum(True)
                    except Cut as e: raise Cut(True)
                    return exactly(x, c)
                exactness = None
                if self.t.startswith("#", self.i):
                    exactness = self.t[self.i + 1:self.i + 2]
                    self.i += 2
                    if not exactness or exactness not in "ei": raise Cut(True)
                x = number(self.token(), {"x": 16, "o": 8, "b": 2, "d": 10}[c])
                if x is None: raise Cut(True)
                return exactly(x, exactness) if exactness else x
            name = self.token()
            # any beginning of #true and #false stands for the same datum here
            if name and "true".startswith(name): return True
            if name and "false".startswith(name): return False
            if name == "u8" and self.i < len(self.t) and self.t[self.i] == "(":
                self.i += 1
                return ["u8"] + self.items()[1:]
            raise Cut(True)
        name = self.token()
        if self.fold: name = name.lower()
        x = number(name, 10)
        return ["y", name] if x is None else x

    def items(self):
        xs = []
        while True:
            self.gap(True)
            if self.i >= len(self.t): raise Cut(True)
            if self.t[self.i] == ")":
                self.i += 1
                return ["l"] + xs
            a = self.i
            x = self.datum(True)
            if x == ["y", "."] and self.t[a] == ".":
                y = self.datum(True)
                self.gap(True)
                if self.i >= len(self.t): raise Cut(True)
                self.i += 1
                return ["d"] + xs + [y]
            xs.append(x)


DIGITS = "0123456789abcdef"


def number(name, radix):
    """The exact integer, ["q", numerator, denominator] or ["r", four times the flonum] that name stands for, or None."""
    sign = -1 if name[:1] == "-" else 1
    name = name[1:] if name[:1] and name[0] in "+-" else name
    natural = lambda t: t and all(c in DIGITS[:radix] for c in t.lower())
    if natural(name): return sign * int(name, radix)
    if "/" in name:
        n, d = name.split("/", 1)
        if natural(n) and natural(d) and int(d, radix): return rational(sign * Fraction(int(n, radix), int(d, radix)))
    if radix == 10 and re.fullmatch(r"(\d+\.?\d*|\.\d+)(e[+-]?\d{1,3})?", name, re.ASCII) and re.search(r"[.e]", name):
        return ["r", sign * 4 * float(name)]
    return None


def rational(x):
    return int(x) if x.denominator == 1 else ["q", x.numerator, x.denominator]


def exactly(x, c):
    """x after #e or #i."""
    if isinstance(x, bool) or not (isinstance(x, int) or x[0] in ("q", "r")): raise Cut(True)
    if c == "e": return rational(Fraction(x[1]) / 4) if isinstance(x, list) and x[0] == "r" else x
    return x if isinstance(x, list) and x[0] == "r" else ["r", float((x if isinstance(x, int) else Fraction(x[1], x[2])) * 4)]


NAMES = {"alarm": "\a", "backspace": "\b", "delete": "\x7f", "escape": "\x1b", "newline": "\n", "null": "\0", "return": "\r", "space": " ", "tab": "\t"}


def spell(x, rng, labels):
    """How x is written by somebody who uses all of the notation; labels: those in scope, and the next."""
    gap = lambda: rng.choice([" ", " ", " ", "\n", " #| gap |# ", " ; remark\n", " #;(skip me) ", " #;#x1F ", " #!fold-case ", " #!no-fold-case "])
    if isinstance(x, bool): return external(x, rng)
    if isinstance(x, int):
        sign, n = "-" if x < 0 else rng.choice(["", "", "+"]) , abs(x)
        return rng.choice([f"{sign}{n}", f"#x{sign}{n:x}", f"#x{sign}{n:X}", f"#o{sign}{n:o}", f"#b{sign}{n:b}", f"#d{sign}{n}", f"#e{sign}{n}", f"#e#x{sign}{n:x}",
                           f"#x#e{sign}{n:x}", f"#o#e{sign}{n:o}", f"#b#e{sign}{n:b}", f"#d#e{sign}{n}", f"#e#o{sign}{n:o}", f"#e#b{sign}{n:b}"])
    if isinstance(x, str): return '"' + spell_in(x, '"', rng) + '"'
    tag, rest = x[0], x[1:]
    if tag == "y":
        if rest[0].isalpha() and rest[0].isascii() and rest not in ABBREVIATED and rng.random() < 0.2: return "".join(rng.choice([c, c.upper()]) for c in rest[0])
        return "|" + spell_in(rest[0], "|", rng) + "|" if rng.random() < 0.3 or not (rest[0] in PECULIAR or rest[0][:1].isalpha() and rest[0].isalnum()) else rest[0]
    if tag == "c":
        c = rest[0]
        return rng.choice([f"#\\x{ord(c):x}", f"#\\x{ord(c):X}"] + [f"#\\{k}" for k, v in NAMES.items() if v == c] * 3 + ["#\\" + c] * (2 * (c not in NAMES.values())))
    if tag == "q":
        n, d = rest
        sign, n = "-" if n < 0 else rng.choice(["", "", "+"]), abs(n)
        return rng.choice([f"{sign}{n}/{d}", f"{sign}{n}/{d}", f"#x{sign}{n:x}/{d:x}", f"#x{sign}{n:X}/{d:X}", f"#b{sign}{n:b}/{d:b}", f"#o#e{sign}{n:o}/{d:o}", f"#e{sign}{n}/{d}"])
    if tag == "r":
        n = Fraction(rest[0]) / 4
        sign, n = "-" if n < 0 else rng.choice(["", "", "+"]), abs(n)
        whole, decimal = n.denominator == 1, f"{float(n)}"
        out = [sign + decimal, f"#i{sign}{decimal}", f"#d{sign}{decimal}", f"#i#x{sign}{n.numerator:x}/{n.denominator:x}", f"#b#i{sign}{n.numerator:b}/{n.denominator:b}", f"{sign}{decimal}e0", f"{sign}{float(n * 1000)}e-3"]
        if whole: out += [f"{sign}{int(n)}.", f"#i{sign}{int(n)}", f"#x#i{sign}{int(n):x}", f"#i#o{sign}{int(n):o}", f"{sign}{int(n)}e0", f"{sign}{int(n)}e+00"]
        if n < 1: out += [sign + decimal[1:]]
        return rng.choice(out)
    if tag == "u8": return "#u8(" + gap().join(map(str, rest)) + ")"
    key = repr(x)
    if labels is not None and key in labels["scope"] and rng.random() < 0.7: return f"#{labels['scope'][key]}#"
    if labels is not None and rng.random() < 0.3:
        n = labels["next"]
        labels["next"] += 1
        text = spell(x, rng, None)
        labels["scope"][key] = n
        return f"#{n}={text}"
    if len(rest) == 2 and tag == "l" and rest[0] in ABBREVIATIONS: return {"quote": "'", "quasiquote": "`", "unquote": ",", "unquote-splicing": ",@"}[rest[0][1]] + spell(rest[1], rng, labels)
    if tag == "v": return "#(" + gap().join(spell(y, rng, labels) for y in rest) + ")"
    if tag == "d":
        head = gap().join(spell(y, rng, labels) for y in rest[:-1])
        return "(" + head + gap() + "." + gap() + spell(rest[-1], rng, labels) + ")"
    return "(" + gap().join(spell(y, rng, labels) for y in rest) + rng.choice(["", " "]) + ")"


PECULIAR = ["...", "..", "+", "-", "->", "-a", "+a", ".a", "+.a", "a.b", "1+", "-1+", "+1a", "<=?", "!$%&*/:<=>?^_~", "a@b"]
ABBREVIATIONS = [["y", "quote"], ["y", "quasiquote"], ["y", "unquote"], ["y", "unquote-splicing"]]

ABBREVIATED = [x[1:] for x in ABBREVIATIONS]


def spell_in(x, mark, rng):
    out = ""
    for i, c in enumerate(x):
        if mark == '"' and rng.random() < 0.08 and (c.isalnum() or c in "\\\""): out += "\\\n" + rng.choice(["", "  ", "\t"])
        k = rng.random()
        names = {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\a": "\\a", "\b": "\\b", "\f": "\\f", "\v": "\\v"}
        if c in (mark, "\\"): out += "\\" + c if k < 0.6 else f"\\x{ord(c):x};"
        elif c in names: out += names[c] if k < 0.7 else f"\\x{ord(c):X};"
        elif k < 0.1: out += f"\\x{ord(c):x};"
        else: out += c
    return out


def rich_datum(rng, depth=3):
    k = rng.random()
    if depth and k < 0.18: return ["l", rng.choice(ABBREVIATIONS), rich_datum(rng, depth - 1)]
    if depth and k < 0.35: return ["l"] + [rich_datum(rng, depth - 1) for _ in range(rng.randint(0, 4))]
    if depth and k < 0.45: return ["v"] + [rich_datum(rng, depth - 1) for _ in range(rng.randint(0, 4))]
    if depth and k < 0.5:
        return ["d"] + [rich_datum(rng, depth - 1) for _ in range(rng.randint(1, 3))] + [rng.randint(0, 9)]
    if depth and k < 0.6:
        x = ["l"] + [rich_datum(rng, 0) for _ in range(rng.randint(1, 3))]
        return rng.choice([["l", x, x], ["v", x, x, x], ["l", x, ["l", x, 1]], ["d", x, x, 3], ["l", ["v", x], x]])
    if k < 0.68: return ["c", rng.choice(list(NAMES.values()) + list("axXn (;\"#|"))]
    if k < 0.76: return ["y", rng.choice(["", "a b", "x|y", "c;d", "back\\slash", "plain", "tab\there", "1", "(", "#f", "."])]
    if k < 0.84: return "".join(rng.choice("ab\\\"|;()#\n\t\r\a\b\f\v é漢") for _ in range(rng.randint(0, 8)))
    if k < 0.87: return ["q", rng.choice([1, -1]) * rng.choice([1, 5, 2**70 + 1, 10**25 + 7]), rng.choice([2, 4, 16, 2**40])]
    if k < 0.9: return ["r", rng.choice([0, 1, 2, 3, 4, 6, 40, -1, -2, -7, rng.randint(-3999, 3999)])]
    if k < 0.93: return ["y", rng.choice(PECULIAR)]
    x = random_datum(rng, 0)
    return ["y", x[1].lower()] if isinstance(x, list) and x[0] == "y" else x


def undotted(x):
    """(a . (b)) is (a b)."""
    if not isinstance(x, list) or x[0] in ("y", "c", "u8", "r", "q"): return x
    xs = [undotted(y) for y in x[1:]]
    if x[0] == "d" and isinstance(xs[-1], list) and xs[-1][0] in ("l", "d"): return [xs[-1][0]] + xs[:-1] + xs[-1][1:]
    return [x[0]] + xs


def read_all(text):
    """(encoded data, how it ends)"""
    r, out = Reader(text), []
    while True:
        try: out.append(encode(unjson(undotted(r.datum()))))
        except StopIteration: return out, "eof"
        except Cut as c: return out, "error" if c.strict else "either"


SOUP = ["(", ")", "'", "`", ",", ",@", "#(", "#u8(", '"', "|", "#|", "|#", "#;", ";", "\n", " ", ".", "...", "#t", "#f", "#\\a", "#\\", "#\\x41", "\\", "1", "-", "+", "1/2", "1/0", "1e3", "#x", "#xfg", "#e", "#i1", "#d1", "#b12",
        "abc", "#!fold-case", "#!no-fold-case", "#!eof", "#!", "#", "\x00", "é", "漢", "😀", "\\x41;", "\\x;", "[", "]", "{", "}", "+inf.0", "-nan.0", "+i", "1+2i", "256", "-1", "1.5", "#true", "#falsehood", "\\n", "\\q", "\r", "\x7f", "@", "1@2", "_", "#_", "#u8", "#f32", "#s16(", "#f64(", "#u", "#0=", "#0#", "#1=("]


class C07(Property):
    id = "C07"
    shrink = ("data", "soup")
    runs = {"quick": 4500, "thorough": 200000}
    wall = {"quick": 45, "thorough": 900}
    rule = ("A case is a text of up to 14 data of every kind, written in seeded ways, that storage damages: cut at a seeded byte, a sector of zeros, flipped bits, duplicated or lost blocks, or a failing read; or a seeded soup of tokens. "
            "It is read to its end from a file, a pipe, standard input or a string, or loaded as a program, under seeded delivery. Non-trivial: the text was damaged.")
    assumptions = ["a reference reader of the subset of the notation that the cases use decides which data are complete before the damage and how a cut must be reported"]

    def scenario(self, rng, tier):
        k = rng.random()
        s = {"damage": ["none"], "soup": [], "data": [], "via": rng.choice(["file", "file", "pipe", "string", "stdin"]), "chunks": random_chunks(rng), "style": rng.randrange(1 << 30),
             "gc": random_gc(rng, 2500), "place": random_place(rng)}
        if k < 0.2:
            s["soup"] = [rng.choice(SOUP) for _ in range(rng.choice([1, 2, 3, 5, 10, 30]))]
            return s
        if k < 0.35:
            s["data"] = [["l", ["y", "sim-log"], ["l", ["y", "quote"], n]] for n in range(rng.randint(1, 8))]
            s["via"] = "load"
            s["damage"] = ["cut", rng.random()]
            return s
        s["rich"] = rng.random() < 0.5
        s["data"] = [(rich_datum if s["rich"] else random_datum)(rng, rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 2, 4, 8, 14]))]
        k = rng.random()
        if k < 0.5: s["damage"] = ["cut", rng.random()]
        elif k < 0.6: s["damage"] = ["zeros", rng.random(), rng.choice([1, 2, 8, 64])]
        elif k < 0.75: s["damage"] = ["flip", rng.random(), rng.randrange(8)]
        elif k < 0.82: s["damage"] = ["lost", rng.random(), rng.choice([1, 2, 8, 16])]
        elif k < 0.9: s["damage"] = ["twice", rng.random(), rng.choice([1, 2, 8, 16])]
        elif k < 0.95 and s["via"] in ("file", "pipe"): s["damage"] = ["read", rng.choice([0, 1, 2, 5])]
        return s

    def simplify(self, s):
        for key, value in (("gc", "gc off"), ("place", "place lifo"), ("chunks", []), ("via", "string")):
            if s[key] != value and s["via"] != "load":
                yield {**s, key: value}

    def content(self, s):
        """(bytes, position of the damage)"""
        data, at = self.damaged(s)
        return (data if s["damage"][0] in ("none", "read", "cut") and not s["soup"] else data.replace(b"#,", b"#.")), at # "#," asks for evaluation

    def damaged(self, s):
        import random
        rng = random.Random(s["style"])
        if s["soup"]:
            return "".join(s["soup"]).encode(), 0
        text = ""
        for x in s["data"]:
            text += (spell(x, rng, {"scope": {}, "next": rng.choice([0, 0, 1, 7, 30])}) if s.get("rich") else external(x, rng)) + rng.choice([" ", "\n", "\n", " ; end\n", " #| gap |# ", " " + block_comment(rng) + " ", "\n#;(gone 1)\n"])
        data = text.encode()
        kind = s["damage"][0]
        if kind in ("none", "read"): return data, len(data)
        at = int(s["damage"][1] * len(data))
        if kind == "cut": return data[:at], at
        if kind == "zeros": return data[:at] + bytes(s["damage"][2]) + data[at + s["damage"][2]:], at
        if kind == "flip": return data[:at] + bytes([data[at] ^ 1 << s["damage"][2]]) + data[at + 1:], at
        if kind == "lost": return data[:at] + data[at + s["damage"][2]:], at
        if kind == "twice": return data[:at] + data[at - min(at, s["damage"][2]):at] + data[at:], at
        raise ValueError(kind)

    def plans(self, s):
        data, _ = self.content(s)
        out = ["cpu 20", "steps 3000000"]
        path = "/sim/home/in"
        if s["via"] == "stdin":
            out.append(f"stdin {hexed(data)}")
            path = "/sim/dev/stdin"
        elif s["via"] != "string":
            out.append(f"file {path} {hexed(data)}")
        if s["via"] == "pipe": out.append(f"pipe {path}")
        if s["via"] != "string":
            if s["chunks"]: out.append(f"rchunk {path} " + " ".join(map(str, s["chunks"])))
            if s["damage"][0] == "read": out.append(f"fault read {path} {s['damage'][1]} EIO")
        text = "\n".join(out) + "\n" + prelude() + forms(*DEFINITIONS)
        if s["via"] == "string":
            text += forms(f"(define p (open-input-string (utf8->string (apply bytevector '({' '.join(map(str, data))})))))")
        else:
            text += forms({"stdin": "(define p (current-input-port))", "load": "(define p #f)"}.get(s["via"], '(define p (open-input-file "home/in"))'))
        text += s["place"] + "\n" + s["gc"] + "\n"
        if s["via"] == "load": text += forms("(enc (attempt (lambda () (load \"home/in\") 'loaded)))")
        else: text += forms(f"(drain p {len(data) + 2})")
        return [(Boot(), text)]

    def judge(self, s, logs, ctx):
        log = logs[0]
        data, at = self.content(s)
        where = f"{data!r} by {s['via']}"
        if log.end.startswith("killed-24") or log.end.startswith("signal-24"): raise Violation("hang", f"reading does not end: {where}")
        crash_check(log)
        if log.end == "budget":
            if s["soup"] or s["damage"][0] != "cut": return
            raise Violation("hang", f"reading does not end: {where}")
        base = len(PRELUDE) + len(DEFINITIONS)
        opened, result = log.results.get(base), log.results.get(base + 1)
        try:
            text, broken = data.decode(), False
        except UnicodeDecodeError as e:
            text, broken = data[:e.start].decode(), True
        if s["via"] == "string" and broken and (opened is None or opened[0] == "E"):
            return # the string itself cannot be made; utf8->string may refuse
        if opened is None or opened[0] != "R" or result is None or result[0] != "R":
            raise Violation("error", f"{where}: {opened} {result}")
        got = log.logs
        if s["via"] == "load":
            expected, end = read_all(text)
            whole = [f"{n}" for n in range(len(expected))]
            outcome = result[1]
            if got != whole: raise Violation("executed", f"{where}: executed {got}, complete are {whole}")
            if end == "eof" and outcome != e_symbol("loaded") or end == "error" and outcome != e_symbol("read-error"):
                if not (end == "error" and expected and False):
                    raise Violation("load", f"{where}: {outcome}, the text ends with {end}")
            ctx.probe("programs loaded")
            return
        hit = sum(log.fired_last().values()) # a port that failed to read may fail forever
        if result[1] != "end" and not hit: raise Violation("endless", f"{where}: no end of file after {len(got)} data")
        failures = [x for x in got if x.startswith("(failed ")]
        for x in failures:
            if x != "(failed read-error)" and not (x == "(failed file-error)" and hit): raise Violation("class", f"{where}: {x}")
        if hit:
            ctx.probe("failing reads")
            if "(failed file-error)" not in failures: raise Violation("unreported", f"{where}: the read failed, got {got[-3:]}")
            return
        if s["soup"]:
            ctx.probe("soups")
            return
        kind = s["damage"][0]
        if kind in ("none", "cut", "read"):
            expected, end = read_all(text)
            if broken: end = "error"
            n = len(expected)
            complete = got[:n]
            if broken and complete != expected and n and complete == expected[:-1] + ["(failed read-error)"]:
                n -= 1 # the last token has a broken character next to it
            elif complete != expected:
                raise Violation("differs", f"{where}: expected {expected}, got {got}")
            rest = got[n:-1]
            if end == "eof" and rest: raise Violation("differs", f"{where}: after the last datum: {rest}")
            if end == "error" and (not rest or rest[0] != "(failed read-error)"):
                raise Violation("silent", f"{where}: cut inside of a datum, but after {n} data: {got[n:]}")
            if end != "eof" and any(x != "(failed read-error)" for x in rest): raise Violation("differs", f"{where}: after the cut: {rest}")
            ctx.probe("cut: " + end if kind == "cut" else "undamaged")
        else:
            before = data[:at]
            while before:
                try: t = before.decode(); break
                except UnicodeDecodeError as e: before = before[:e.start]
            else: t = ""
            expected, end = read_all(t)
            # a token at the edge may go on, and a comment may hide it
            if t and t[-1] not in BLANK + ")\"" and expected: expected.pop()
            if t and t[-1] in ")\"|" and expected: expected.pop()
            if got[:len(expected)] != expected: raise Violation("differs", f"{where}, damaged at {at}: expected {expected}, got {got}")
            ctx.probe(kind)

    def nontrivial(self, s, logs):
        return s["damage"][0] != "none" or bool(s["soup"])


PROPERTY = C07()
