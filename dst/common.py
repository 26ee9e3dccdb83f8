"""What several properties share: seeded schedules, text, and an encoding of Scheme values as plain data."""

from fractions import Fraction

ENOENT, EINTR, EIO, ENOMEM, EACCES, EISDIR, EMFILE, ENOSPC, EROFS, EDQUOT = 2, 4, 5, 12, 13, 21, 24, 28, 30, 122

PRELUDE = [
    # (enc x): x as a datum of integers and fixed symbols only, so that the
    # writer and the encoding of the log play no part in the comparison
    "(define (enc-string s) (map char->integer (string->list s)))",
    "(define (enc x) (cond ((null? x) '()) ((boolean? x) x) ((and (number? x) (exact? x)) x) ((number? x) (list 'inexact (number->string x)))"
    " ((char? x) (list 'c (char->integer x))) ((string? x) (cons 's (enc-string x))) ((symbol? x) (cons 'y (enc-string (symbol->string x))))"
    " ((eof-object? x) 'eof) ((pair? x) (list 'p (enc (car x)) (enc (cdr x)))) ((vector? x) (cons 'v (map enc (vector->list x))))"
    " ((bytevector? x) (cons 'u8 (enc-bytes x 0))) ((procedure? x) 'procedure) (else 'other)))",
    "(define (enc-bytes x i) (if (< i (bytevector-length x)) (cons (bytevector-u8-ref x i) (enc-bytes x (+ i 1))) '()))",
]


def forms(*xs):
    return "".join(f"form {x}\n" for x in xs)


def prelude():
    return forms(*PRELUDE)


def hexed(data):
    if isinstance(data, str):
        data = data.encode()
    return data.hex() or "-"


# ---- expected encodings ----------------------------------------------------------------

def e_char(c):
    return f"(c {ord(c)})"


def e_string(s):
    return "(s" + "".join(f" {ord(c)}" for c in s) + ")"


def e_symbol(s):
    return "(y" + "".join(f" {ord(c)}" for c in s) + ")"


def e_bytes(b):
    return "(u8" + "".join(f" {c}" for c in b) + ")"


class Sym(str):
    pass


class Char(str):
    pass


class Vec(tuple):
    pass


class Raw(str):
    """What the log shows, itself."""


class Dotted(tuple):
    """(a b . c)"""


def encode(x):
    if x is True: return "#t"
    if x is False: return "#f"
    if isinstance(x, int): return str(x)
    if isinstance(x, Raw): return str(x)
    if isinstance(x, Sym): return e_symbol(x)
    if isinstance(x, Char): return e_char(x)
    if isinstance(x, str): return e_string(x)
    if isinstance(x, bytes): return e_bytes(x)
    if isinstance(x, Vec): return "(v" + "".join(" " + encode(y) for y in x) + ")"
    if isinstance(x, Dotted):
        tail = encode(x[-1])
        for y in reversed(x[:-1]): tail = f"(p {encode(y)} {tail})"
        return tail
    if isinstance(x, (list, tuple)):
        tail = "()"
        for y in reversed(x): tail = f"(p {encode(y)} {tail})"
        return tail
    raise TypeError(x)


def unjson(x):
    """Data inside a scenario: JSON lists tagged by their first element."""
    if isinstance(x, list):
        tag, rest = x[0], x[1:]
        if tag == "y": return Sym(rest[0])
        if tag == "c": return Char(rest[0])
        if tag == "r": return Raw(f'(inexact "{rest[0] / 4:g}")')
        if tag == "q": return Raw(str(Fraction(rest[0], rest[1])))
        if tag == "u8": return bytes(rest)
        if tag == "v": return Vec(unjson(y) for y in rest)
        if tag == "d": return Dotted(unjson(y) for y in rest)
        return [unjson(y) for y in rest]
    return x


def random_char(rng, wide=True):
    k = rng.random()
    if k < 0.6 or not wide: return chr(rng.randint(97, 122))
    if k < 0.7: return rng.choice("éßλжµ¡\u07ff\u0080")
    if k < 0.8: return rng.choice("漢字あ€\u0800\uffff\ud7ff\ue000")
    if k < 0.9: return rng.choice("😀𝄞\U00010000\U0010ffff")
    return rng.choice("ABZ019 !?*")


def random_datum(rng, depth=3, wide=True):
    k = rng.random()
    if depth and k < 0.3: return ["l"] + [random_datum(rng, depth - 1, wide) for _ in range(rng.randint(0, 4))]
    if depth and k < 0.4: return ["v"] + [random_datum(rng, depth - 1, wide) for _ in range(rng.randint(0, 4))]
    if depth and k < 0.46: return ["d"] + [random_datum(rng, depth - 1, wide) for _ in range(rng.randint(1, 3))] + [rng.randint(0, 9)]
    if k < 0.6: return rng.choice([0, 1, -1, 42, rng.randint(-10**6, 10**6), rng.randint(-10**30, 10**30)])
    if k < 0.75: return ["y", "".join(rng.choice("abcdefxyz-!?*<>=0123456789"[:(9 if i == 0 else 26)]) for i in range(rng.randint(1, 9)))]
    if k < 0.88: return "".join(random_char(rng, wide) if rng.random() < 0.93 else rng.choice('"\\\n\t;)(|') for _ in range(rng.randint(0, 12)))
    if k < 0.94: return ["c", rng.choice("abcZ09λ漢😀() ;\n") if wide else rng.choice("abcZ09()")]
    if k < 0.97: return ["u8"] + [rng.randint(0, 255) for _ in range(rng.randint(1, 6))]
    return rng.random() < 0.5


def block_comment(rng, depth=3):
    """A block comment; the characters of its delimiters also stand alone inside of it."""
    body = ""
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        k = rng.random()
        # a part that would join with its neighbours to a delimiter is set apart
        part = block_comment(rng, depth - 1) if depth and k < 0.2 else rng.choice(["|", "#", "||", "##", " ", "x", ")", "(", '"', ";", "#;", "|x", "x#", "\n", "é"])
        if body and body[-1] + part[0] in ("#|", "|#"): body += " "
        body += part
    if body[:1] == "#": body = " " + body  # "#|#" ends nothing, but is left out
    if body[-1:] == "#" : body += " "
    return "#|" + body + "|#"


def external(x, rng=None):
    """How x is written; with rng, one of the ways a person may write it."""
    pick = (lambda *xs: rng.choice(xs)) if rng else (lambda *xs: xs[0])
    gap = lambda: pick(" ", " ", " ", "  ", "\n", "\t", " ; remark\n", " #| a ) | b |# ", " " + block_comment(rng) + " ", " #;(skip me) ") if rng else " "
    if x is True: return pick("#t", "#true")
    if x is False: return pick("#f", "#false")
    if isinstance(x, int): return str(x)
    if isinstance(x, str):
        out = '"'
        for c in x:
            if c == '"' or c == "\\": out += "\\" + c
            elif c == "\n": out += pick("\\n", "\n")
            elif c == "\t": out += pick("\\t", "\t")
            elif ord(c) > 126: out += pick(c, c, f"\\x{ord(c):x};")
            else: out += c
        return out + '"'
    tag, rest = x[0], x[1:]
    if tag == "y": return pick(rest[0], rest[0], rest[0], f"|{rest[0]}|") if rng else rest[0]
    if tag == "c":
        c = rest[0]
        return {" ": "#\\space", "\n": "#\\newline"}.get(c) or ("#\\" + c if ord(c) < 127 else pick("#\\" + c, f"#\\x{ord(c):x}"))
    if tag == "u8": return "#u8(" + " ".join(map(str, rest)) + ")"
    if tag == "v": return "#(" + gap().join(external(y, rng) for y in rest) + ")"
    if tag == "d": return "(" + gap().join(external(y, rng) for y in rest[:-1]) + " . " + external(rest[-1], rng) + ")"
    if len(rest) == 2 and rest[0] == ["y", "quote"]: return "'" + external(rest[1], rng)
    return "(" + pick("", "", " ", "\n") + gap().join(external(y, rng) for y in rest) + pick("", "", " ") + ")"


# ---- schedules ---------------------------------------------------------------------------

def random_gc(rng, span=4000, heavy=0.5, cost=12):
    """A collector schedule: none, its own trigger, or forced at seeded requests."""
    k = rng.random()
    if k > heavy: return "gc off"
    if k < heavy * 0.15: return "gc usual"
    if k < heavy * 0.6: return "gc at " + " ".join(map(str, sorted(rng.randrange(span) for _ in range(rng.randint(1, cost)))))
    a = rng.randrange(span)
    return f"gc window {a} {rng.randint(1, cost)}"


def random_place(rng):
    k = rng.random()
    if k < 0.4: return "place lifo"
    if k < 0.6: return "place fifo"
    if k < 0.75: return "place fresh"
    if k < 0.88: return f"place sparse {rng.randrange(1 << 30)}"
    return f"place scatter {rng.randrange(1 << 30)}"


def random_chunks(rng, big=False):
    k = rng.random()
    if k < 0.25: return [1]
    if k < 0.5: return [rng.randint(1, 7) for _ in range(rng.randint(1, 6))]
    if k < 0.8: return [rng.choice([1, 2, 3, 5, 16, 100, 511, 512, 1024, 4096]) for _ in range(rng.randint(1, 6))]
    return []
