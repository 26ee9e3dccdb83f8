"""C17: files that are included, loaded and imported are found where the program says."""
import posixpath, random, re
from ..common import *
from ..harness import Boot, Property, Violation, crash_check
from .c14 import IMPORT, TOKEN

EXTENSIONS = ["ss", "sld", "scm"]
DIRECTORIES = ["", "d0", "d0/e", "d1", "d0/e/f", "i0", "i1", "a0", "a1", "home/.local/share/meevax", "i0/d0", "a0/e"]
NAMES = ["x", "y", "z.ss", "x.scm", "y.sld", "w.ss", "x.ss", "v.1"]
EVALUATE = "(import (scheme base) (scheme write) (scheme eval) (scheme load) (scheme repl))"


class Stop(Exception):
    def __init__(self, *missing):
        self.missing = missing  # paths any of which would have been found


class Discard(Exception):
    """A circle of files, or more work than a case should have."""


class Model:
    def __init__(self, s):
        self.files = {f["path"]: f for f in s["files"]}
        self.out, self.imported, self.steps, self.opened = [], set(), 0, []
        front, back = [], []
        for o, d in s["options"]: (front.insert(0, d) if o == "I" else back.append(d))
        self.directories = front + ["/sim/home/.local/share/meevax", None] + back
        self.beside = 0     # files found beside the one that names them
        self.searched = 0   # files found in a library directory

    def locate(self, name, source):
        missing = []
        path = posixpath.normpath(posixpath.join("/sim", name))
        if path in self.files: return path
        for d in ([source] if source else []) + ["/sim"] + self.directories:
            if d is None: continue
            base = posixpath.normpath(posixpath.join(d, name))
            for p in [base] + ([base + "." + e for e in EXTENSIONS] if "." not in posixpath.basename(name) else []):
                missing.append(p)
                if p in self.files:
                    if d == source: self.beside += 1
                    elif d != "/sim": self.searched += 1
                    return p
        raise Stop(*missing)

    def read(self, path, fold):
        """Opens and reads all of a file."""
        self.opened.append(path)
        f = self.files[path]
        return [(c, posixpath.dirname(path), f["loud"] and not fold and c[0] != "garbage") for c in f["commands"]]

    def expand(self, commands, depth=0):
        """What an expression is made of, in which all that is included is read before it is evaluated."""
        if depth > 12: raise Discard()
        out, stop = [], None
        for c, source, loud in commands:
            self.steps += 1
            if self.steps > 150: raise Discard()
            if loud: out.append((["fail"], source, False))
            elif c[0] in ("include", "include-ci", "begin"):
                inner = []
                try: # the order of expansion is not specified: the others may be expanded before one fails
                    for n in c[1]: inner += self.read(self.locate(n, source), c[0] == "include-ci")
                    out += self.expand(inner, depth + 1)
                except Stop as e: stop = e
            elif c[0] == "import": raise Discard()
            else: out.append((c, source, loud))
        if stop: raise stop
        return out

    def run(self, commands, depth=0):
        if depth > 12: raise Discard()
        for c, source, loud in commands:
            self.steps += 1
            if self.steps > 150: raise Discard()
            if loud: raise Stop()
            op = c[0]
            if op == "out": self.out.append(f"t{c[1]}.")
            elif op == "begin": self.run(self.expand([(["include", c[1]], source, False)]), depth + 1)
            elif op == "fail": raise Stop()
            elif op in ("include", "include-ci", "made"):
                inner = []
                for n in c[1]: inner += self.read(self.locate(n, None if op == "made" else source), op == "include-ci")
                self.run(inner, depth + 1)
            elif op == "load":
                path = posixpath.normpath(posixpath.join("/sim", c[1]))
                if path not in self.files: raise Stop()
                for x in self.read(path, False): self.run([x], depth + 1)
            elif op == "import":
                if c[1] in self.imported: continue
                if c[1] in self.pending: raise Discard()
                self.pending.add(c[1])
                path = self.locate(f"l/{c[1]}", source)
                inner = self.read(path, False)
                self.imported.add(c[1])
                self.run(inner, depth + 1)
            elif op == "garbage": pass
            else: raise ValueError(op)

    pending = None
    missing = ()


class C17(Property):
    id = "C17"
    shrink = ("files", "options", "shadows")
    runs = {"quick": 3500, "thorough": 60000}
    wall = {"quick": 40, "thorough": 900}
    rule = ("A case is a tree of files with equal names in many directories, which include, load and import each other by relative names, library directories given by options, and a program started by a relative or absolute path, under seeded collections, deliveries and failing opens and reads. "
            "What the program writes must be what the files that a model of the search finds would write, up to the first error, and the status must tell whether there was one. Non-trivial: a file was found beside the one that names it, or in a library directory.")
    assumptions = ["there are no symbolic links"]

    def commands(self, rng, n, library=False, loaded=False):
        out = []
        for _ in range(n):
            self.k += 1
            op = rng.choice(["out", "out", "include", "include", "include", "include-ci", "begin", "load", "import", "made", "garbage"])
            if library and op in ("load", "made", "garbage"): op = "include"
            if op == "out": out.append([op, self.k])
            elif op == "load": out.append([op, rng.choice(["", "/sim/"]) + posixpath.join(rng.choice(DIRECTORIES), rng.choice(NAMES))])
            elif op == "import": out.append([op, rng.randrange(4)])
            elif op == "garbage": out.append([op])
            else:
                names = [self.name(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
                out.append([op, names])
        return out

    def name(self, rng):
        n = rng.choice(NAMES)
        k = rng.random()
        if k < 0.6: return n
        if k < 0.7: return "e/" + n
        if k < 0.8: return "../" + n
        if k < 0.85: return "./" + n
        if k < 0.92: return rng.choice(["d0/", "d1/", "d0/e/"]) + n
        return "/sim/" + posixpath.join(rng.choice(DIRECTORIES), n)

    def scenario(self, rng, tier):
        while True:
            s = self.generate(rng)
            try:
                m, status = self.expect(s)
                for _ in range(12): # what is missing is made, for the most part
                    if not m.missing or rng.random() < 0.12: break
                    p = rng.choice(m.missing)
                    if p in s["shadows"] or p in {posixpath.join("/sim", d) for d in DIRECTORIES} or not p.startswith("/sim/") or posixpath.dirname(p) in {f["path"] for f in s["files"]} or posixpath.dirname(p) + "/" not in {posixpath.join("/sim", d).rstrip("/") + e for d in DIRECTORIES for e in ("/", "/l/")}: continue
                    library = posixpath.basename(posixpath.dirname(p)) == "l" and posixpath.basename(p).split(".")[0].isdigit()
                    s["files"].append({"path": p, "library": library, "loud": False, "commands": self.commands(rng, rng.choice([0, 1, 2, 4]), library)})
                    m, status = self.expect(s)
            except Discard: continue
            if len(m.out) + status > 1 and (m.beside or m.searched or rng.random() < 0.2): return s

    def generate(self, rng):
        self.k = 0
        files = {}
        for _ in range(rng.choice([2, 4, 8, 16, 24])):
            library = rng.random() < 0.2
            d = posixpath.join("/sim", rng.choice(DIRECTORIES))
            p = posixpath.normpath(posixpath.join(d, "l/" + str(rng.randrange(4)) + rng.choice(["", ".ss", ".sld", ".scm"]) if library else rng.choice(["x", "x.ss", "x.sld", "x.scm", "y", "y.ss", "y.sld", "y.scm", "z.ss", "w.ss", "main.ss", "v.1", "v.1.ss", "v.ss"])))
            files[p] = {"path": p, "library": library, "loud": not library and rng.random() < 0.1, "commands": self.commands(rng, rng.randint(0, 4), library)}
        main = posixpath.join(rng.choice(["", "", "/sim/"]), rng.choice(DIRECTORIES), "main.ss")
        p = posixpath.normpath(posixpath.join("/sim", main))
        files[p] = {"path": p, "library": False, "loud": False, "commands": self.commands(rng, rng.randint(2, 6))}
        # the paths of directories and files are different
        used = {posixpath.join("/sim", d) for d in DIRECTORIES}
        files = [files[p] for p in sorted(files) if p not in used]
        options = [[rng.choice("IA"), rng.choice(["/sim/", ""]) + rng.choice(["i0", "i1", "a0", "a1", "none", "d1"])] for _ in range(rng.choice([0, 1, 2, 3]))]
        options = [[o, posixpath.join("/sim", d)] for o, d in options]
        fault = [rng.choice(files)["path"], rng.choice(["open", "read"]), rng.choice([0, 0, 1])] if rng.random() < 0.2 else None
        shadows = {posixpath.normpath(posixpath.join("/sim", rng.choice(DIRECTORIES), rng.choice(["x", "x.ss", "x.scm", "y", "y.ss", "y.sld", "z.ss", "w.ss", "l/0", "l/1.ss", "l/2"]))) for _ in range(rng.choice([0, 0, 2, 6]))}
        shadows = sorted(shadows - {f["path"] for f in files})
        return {"files": files, "options": options, "shadows": shadows, "main": main, "how": rng.choice(["file", "file", "load"]), "fault": fault, "style": rng.randrange(1 << 30), "eintr": rng.random() < 0.15, "chunks": random_chunks(rng),
                "gc": random_gc(rng, 12000, heavy=0.6, cost=10), "place": random_place(rng)}

    def expect(self, s):
        m = Model(s)
        m.pending = set()
        status = 0
        try:
            path = posixpath.normpath(posixpath.join("/sim", s["main"]))
            if path not in m.files: raise Stop()
            for x in m.read(path, False): m.run([x])
        except Stop as e: status, m.missing = 1, list(e.missing)
        return m, status

    def valid(self, s):
        try: self.expect(s)
        except Discard: return False
        return True

    def simplify(self, s):
        for key, value in (("gc", "gc off"), ("place", "place lifo"), ("chunks", []), ("eintr", False), ("fault", None)):
            if s[key] != value: yield {**s, key: value}
        for i, f in enumerate(s["files"]):
            for j in range(len(f["commands"])):
                yield {**s, "files": s["files"][:i] + [{**f, "commands": f["commands"][:j] + f["commands"][j + 1:]}] + s["files"][i + 1:]}

    def command_text(self, c, library):
        op = c[0]
        if op == "out": return f"(write 't{c[1]}.)"
        if op == "begin": return "(begin (include" + "".join(f' "{n}"' for n in c[1]) + "))"
        if op in ("include", "include-ci"): return f"({op}" + "".join(f' "{n}"' for n in c[1]) + ")"
        # a form that was not read from any file
        if op == "made": return "(eval (list 'include" + "".join(f' (string-append "{n}")' for n in c[1]) + ") (interaction-environment))"
        if op == "load": return f'(load "{c[1]}")'
        if op == "import": return f"(import (l {c[1]}))"
        if op == "garbage": return "'(1 2 3 (4 5 6 (7)) (8 9 10) #(11 12 (13 14)) 15 16 17 18)"
        raise ValueError(op)

    def text(self, f, rng):
        gap = lambda: rng.choice([" ", "\n", "\n", " ; remark\n"])
        if f["library"]:
            inner = "".join(gap() + self.command_text(c, True) if c[0] in ("include", "include-ci", "import") else gap() + "(begin " + self.command_text(c, True) + ")" for c in f["commands"])
            name = posixpath.basename(f["path"]).split(".")[0]
            return f"(define-library (l {name}) {EVALUATE}{inner})\n"
        data = gap().join(self.command_text(c, False) for c in f["commands"]) + "\n"
        return "".join(x if x[:1] == '"' else x.upper() for x in re.split(r'("[^"]*")', data)) if f["loud"] else data

    def plans(self, s):
        rng = random.Random(s["style"])
        out, made = ["cpu 30", "steps 6000000"], set()
        for d in sorted(DIRECTORIES):
            parts = ("/sim/" + d).rstrip("/").split("/")
            for n in range(3, len(parts) + 1):
                p = "/".join(parts[:n])
                if p not in made and p != "/sim/home": out.append(f"dir {p}")
                made.add(p)
        main = posixpath.normpath(posixpath.join("/sim", s["main"]))
        for d in s["shadows"]: # directories where a file of that name may be looked for
            for d in (posixpath.dirname(d), d):
                if d not in made and d != "/sim": out.append(f"dir {d}")
                made.add(d)
        for f in s["files"]:
            d = posixpath.dirname(f["path"])
            if d not in made and d != "/sim":
                out.append(f"dir {d}")
                made.add(d)
            data = self.text(f, rng)
            if f["path"] == main and s["how"] == "file": data = EVALUATE + "\n" + data
            out.append(f"file {f['path']} {hexed(data)}")
            if s["chunks"]: out.append(f"rchunk {f['path']} " + " ".join(map(str, s["chunks"])))
            if s["eintr"]: out.append(f"fault read {f['path']} 0 EINTR")
        if s["fault"]: out.append(f"fault {s['fault'][1]} {s['fault'][0]} {s['fault'][2]} {'EIO' if s['fault'][1] == 'read' else 'EACCES'}")
        arguments = ["-e", EVALUATE]
        for o, d in s["options"]: arguments += rng.choice([[f"-{o}", d], [{"I": "--prepend-library-directory", "A": "--append-library-directory"}[o], d]])
        arguments += [s["main"]] if s["how"] == "file" else ["-l", s["main"]]
        return [(Boot("main"), "\n".join(out) + "\n" + s["place"] + "\n" + s["gc"] + "\nmain " + "\x1f".join(arguments) + "\n")]

    def judge(self, s, logs, ctx):
        log = logs[0]
        crash_check(log)
        if log.end == "budget": raise Violation("endless", "the program does not end")
        if log.end != "exit" or "MAIN" not in log.counters: raise Violation("stopped", f"the program ended with {log.end}")
        m, status = self.expect(s)
        got = [x.decode() for x in TOKEN.findall(log.out)]
        hit = any(error in (EIO, EACCES) and n for (op, _, error), n in log.fired_last().items())
        if hit:
            # nothing but what comes before the file that could not be read
            ctx.probe("files that could not be read")
            if got != m.out[:len(got)]: raise Violation("output", f"expected a beginning of {m.out}, got {got}")
            if log.counters["MAIN"] != "1": raise Violation("status", f"{s['fault'][0]} could not be read, but the status is {log.counters['MAIN']}")
        else:
            if got != m.out: raise Violation("output", f"expected {m.out}, got {got}: {log.err[-300:]!r}")
            if log.counters["MAIN"] != str(status): raise Violation("status", f"expected {status}, got {log.counters['MAIN']}: {log.err[-300:]!r}")
        if log.counters["MAIN"] == "1" and not log.err: raise Violation("silent", "nothing was reported")
        ctx.probe("files read", len(m.opened))
        ctx.probe("files found beside the one that names them", m.beside)
        ctx.probe("files found in library directories", m.searched)
        ctx.probe("programs that stopped", status)

    def nontrivial(self, s, logs):
        m, _ = self.expect(s)
        return bool(m.beside or m.searched)


PROPERTY = C17()
