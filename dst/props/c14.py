"""C14: sessions on the command line."""
import re
from ..common import *
from ..harness import Boot, Property, Violation, crash_check

IMPORT = "(import (scheme base) (scheme write) (scheme process-context) (scheme eval) (scheme load) (scheme read) (scheme repl))"
NAMES = ["x", "y", "z"]
TOKEN = re.compile(rb"t\d+\.")


class Stop(Exception):
    def __init__(self, status):
        self.status = status


class Session:
    """What a session is expected to do."""

    def __init__(self, argc, variables):
        self.out, self.err, self.argc, self.variables = [], [], argc, variables
        self.top = {}
        self.k, self.features, self.errors = None, set(), 0

    def run(self, cmd, env, repl):
        op = cmd[0]
        put = lambda n: self.out.append(f"t{n}.")
        if op == "out": put(cmd[1])
        elif op == "val": put(cmd[1]) if repl else None
        elif op == "def": env[cmd[1]] = cmd[2]
        elif op == "inc": env[cmd[1]] += 1
        elif op == "show": put(env[cmd[1]])
        elif op == "argc": put(self.argc)
        elif op == "unseen":
            if cmd[1] in env: raise KeyError(cmd[1])
            put(cmd[2])
        elif op == "equal": put(cmd[1])
        elif op == "env": put(self.variables.get(cmd[1], 0))
        elif op == "feature": put(cmd[2] if cmd[1] in self.features else cmd[3])
        elif op in ("err", "raise", "param", "weh", "wind", "stray", "kernel", "eval"):
            if op == "weh": put(cmd[1])
            if op in ("err", "raise", "param", "wind"): self.err.append(f"t{cmd[1]}.")
            self.errors += 1
            if not repl: raise Stop(1)
        elif op == "getp": put(cmd[1])
        elif op == "guard": put(cmd[1])
        elif op == "k":
            env["k"] = cmd[1]
            put(cmd[1])
        elif op == "resume": put(env["k"])
        elif op == "exit":
            if cmd[2] is not None and not cmd[3]: put(cmd[2])
            raise Stop({"true": 0, "false": 1, "none": 0}.get(cmd[1], cmd[1]))
        else: raise ValueError(op)


def text(cmd):
    op = cmd[0]
    if op == "out": return f"(write 't{cmd[1]}.)"
    if op == "val": return f"'t{cmd[1]}."
    if op == "def": return f"(define {cmd[1]} {cmd[2]})"
    if op == "inc": return f"(set! {cmd[1]} (+ {cmd[1]} 1))"
    if op == "show": return f'(begin (write-string "t") (write {cmd[1]}) (write-string "."))'
    if op == "argc": return '(begin (write-string "t") (write (length (command-line))) (write-string "."))'
    if op == "unseen": return f"(if (integer? {cmd[1]}) (write 'u) (write 't{cmd[2]}.))"
    if op == "equal": return f"(if (= 1 1)\n(write 't{cmd[1]}.)\n(write \"=\"))"
    if op == "env": return f'(begin (write-string "t") (write-string (let ((v (get-environment-variable "{cmd[1]}"))) (if v v "0"))) (write-string "."))'
    if op == "feature": return f"(cond-expand ({cmd[1]} (write 't{cmd[2]}.)) (else (write 't{cmd[3]}.)))"
    if op == "err": return f'(error "t{cmd[1]}." 1 2)'
    if op == "raise": return f"(raise 't{cmd[1]}.)"
    if op == "param": return f'(parameterize ((p 7)) (error "t{cmd[1]}."))'
    if op == "getp": return f"(if (eqv? (p) 1) (write 't{cmd[1]}.) (write 'u))"
    if op == "weh": return f"(with-exception-handler (lambda (e) (write 't{cmd[1]}.) 0) (lambda () (raise 'oops)))"
    if op == "wind": return f'(dynamic-wind (lambda () #f) (lambda () (error "t{cmd[1]}.")) (lambda () #f))'
    if op == "kernel": return "(quotient 1 0)"
    if op == "eval": return "(eval '(no-such-procedure 1) (environment '(scheme base)))"
    if op == "stray": return ")"
    if op == "guard": return f"(guard (e (#t (write 't{cmd[1]}.))) (raise 'oops))"
    if op == "k": return f"(begin (call-with-current-continuation (lambda (c) (set! k c))) (write 't{cmd[1]}.))"
    if op == "resume": return "(k 0)"
    if op == "exit":
        status = {"true": " #t", "false": " #f", "none": ""}.get(cmd[1], f" {cmd[1]}")
        e = f"({'emergency-exit' if cmd[3] else 'exit'}{status})"
        return e if cmd[2] is None else f"(dynamic-wind (lambda () #f) (lambda () {e}) (lambda () (write 't{cmd[2]}.)))"
    raise ValueError(op)


PREPARE = ["(define p (make-parameter 1))", "(define k #f)"]


class C14(Property):
    id = "C14"
    shrink = ("units", "repl")
    runs = {"quick": 2500, "thorough": 60000}
    wall = {"quick": 40, "thorough": 900}
    rule = ("A case is a command line of up to eight options and files in seeded spellings, and up to twelve expressions on standard input, some of which fail in different ways or leave the process, under seeded delivery, interrupted and failing reads and collections. "
            "The program itself runs (main of src/main.cpp); the sequence of what is written, what is reported, and the exit status must be those of a model. Non-trivial: an error was reported or a status given.")
    assumptions = ["the boot of the libraries, which does not depend on the case, has already taken place", "the text around the values that the session prints is not compared, the values are"]

    def scenario(self, rng, tier):
        self.n = 100
        state = {"defined": set(), "k": False}

        def command(env, repl, failing):
            self.n += 1
            ops = ["out", "out", "def", "argc", "env", "feature", "guard", "getp", "k"] + ["val"] * (2 if repl else 1)
            if env["defined"]: ops += ["inc", "show", "show"]
            if env["k"]: ops += ["resume"]
            unseen = [x for x in NAMES if x not in env["defined"]]
            if unseen: ops += ["unseen"]
            ops += ["equal"]
            if rng.random() < failing: ops = ["err", "raise", "param", "weh", "wind", "kernel", "eval", "stray"] + (["exit"] if rng.random() < 0.4 else [])
            op = rng.choice(ops)
            if op == "def":
                x = rng.choice(NAMES)
                env["defined"].add(x)
                return [op, x, rng.randint(0, 99)]
            if op == "unseen": return [op, rng.choice(unseen), self.n]
            if op in ("inc", "show"): return [op, rng.choice(sorted(env["defined"]))]
            if op == "env": return [op, rng.choice(["MVX_A", "MVX_B", "MVX_C"])]
            if op == "feature":
                self.n += 1
                return [op, rng.choice(["mvx-a", "mvx-b", "r7rs-not"]), self.n - 1, self.n]
            if op == "k": env["k"] = True
            if op == "exit": return [op, rng.choice(["none", "true", "false", 0, 1, 2, 77, 255]), self.n if rng.random() < 0.5 else None, rng.random() < 0.3]
            if op in ("argc", "kernel", "eval", "stray", "resume"): return [op]
            return [op, self.n]

        units = []
        failing = rng.choice([0, 0, 0.1, 0.2])
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            self.n += 1
            k = rng.random()
            if k < 0.35: units.append(["e", [c for c in [command(state, False, failing)] if c[0] != "stray"] or [["out", self.n]]])
            elif k < 0.5: units.append(["w", [["out", self.n]]])
            elif k < 0.7: units.append(["l", [command(state, False, failing) for _ in range(rng.randint(0, 4))]])
            elif k < 0.82:
                own = {"defined": set(), "k": False}
                units.append(["f", [command(own, False, failing) for _ in range(rng.randint(0, 4))]])
            elif k < 0.88: units.append(["D", rng.choice(["mvx-a", "mvx-b"])])
            elif k < 0.9: units.append(["v"])
            elif k < 0.93: units.append(["color"])
            elif k < 0.96: units.append(["i"])
            else: units.append([rng.choice(["missing-l", "missing-f", "unknown", "no-operand"])])
        styles = rng.choice([["short", "short", "long", "equal"], ["short", "joined", "joined", "joined", "long"]])
        for u in units: u.append(rng.choice(styles))
        repl = []
        if rng.random() < 0.6:
            units.insert(rng.randint(0, len(units)), ["i", "short"])
            failing = rng.choice([0, 0.2, 0.5])
            repl = [command(state, True, failing) for _ in range(rng.randint(0, 12))]
        units = [u for i, u in enumerate(units) if u[0] != "no-operand" or i == len(units) - 1]
        fault = None
        files = [i for i, u in enumerate(units) if u[0] in ("l", "f")]
        if rng.random() < 0.15 and (files or repl):
            fault = [rng.choice(files + (["stdin"] if repl else [])), rng.randint(0, 2)]
        return {"units": units, "repl": repl, "cut": rng.random() < 0.15, "env": {x: rng.randint(1, 50) for x in ("MVX_A", "MVX_B") if rng.random() < 0.7}, "style": rng.randrange(1 << 30), "fault": fault,
                "eintr": rng.random() < 0.2, "chunks": random_chunks(rng), "wchunks": random_chunks(rng), "gc": random_gc(rng, 2500, heavy=0.3), "place": random_place(rng)}

    def valid(self, s):
        """Names are defined where they are used."""
        if s["fault"] and s["fault"][0] != "stdin" and (s["fault"][0] >= len(s["units"]) or s["units"][s["fault"][0]][0] not in ("l", "f")): return False
        for u in s["units"][:-1]:
            if u[0] == "no-operand": return False
        if s["repl"] and not any(u[0] == "i" for u in s["units"]): return False
        try: self.expect(s)
        except KeyError: return False
        return True

    def simplify(self, s):
        for key, value in (("gc", "gc off"), ("place", "place lifo"), ("chunks", []), ("wchunks", []), ("eintr", False), ("fault", None), ("cut", False), ("env", {})):
            if s[key] != value: yield {**s, key: value}
        for i, u in enumerate(s["units"]):
            if u[-1] != "short": yield {**s, "units": s["units"][:i] + [u[:-1] + ["short"]] + s["units"][i + 1:]}
            if u[0] in ("l", "f"):
                for j in range(len(u[1])): yield {**s, "units": s["units"][:i] + [[u[0], u[1][:j] + u[1][j + 1:], u[2]]] + s["units"][i + 1:]}

    def expect(self, s):
        """(session, status, limit): after `limit` of what is written, if not None, the rest may be missing"""
        m = Session(len(self.arguments(s)) + 1, s["env"])
        status, limit = 0, None
        interactive = False
        try:
            for i, u in enumerate(s["units"]):
                if s["fault"] and s["fault"][0] == i: limit = len(m.out)
                if u[0] == "i": interactive = True
                elif u[0] == "D": m.features.add(u[1])
                elif u[0] in ("missing-l", "missing-f", "unknown", "no-operand"):
                    m.errors += 1
                    raise Stop(1)
                elif u[0] in ("e", "l", "w"):
                    for c in u[1]: m.run(c, m.top, False)
                elif u[0] == "f":
                    env = {}
                    for c in u[1]: m.run(c, env, False)
            if interactive:
                if s["fault"] and s["fault"][0] == "stdin": limit = len(m.out)
                for c in s["repl"]: m.run(c, m.top, True)
        except Stop as e: status = e.status
        return m, status, limit

    def arguments(self, s):
        out = ["-e", IMPORT] + [x for d in PREPARE for x in ("-e", d)]
        cluster = None # where the letters of options that are written together are

        def option(short, long, x, style):
            nonlocal cluster
            if style == "joined" and cluster is not None:
                out[cluster] += short
                return [] if x is None else [x]
            cluster = len(out) if style in ("short", "joined") else None
            if x is None: return [f"-{short}" if style in ("short", "joined") else f"--{long}"]
            return [f"-{short}", x] if style in ("short", "joined") else [f"--{long}", x] if style == "long" else [f"--{long}={x}"]

        for i, u in enumerate(s["units"]):
            op, style = u[0], u[-1]
            if op == "e": out += option("e", "evaluate", text(u[1][0]), style)
            elif op == "w": out += option("w", "write", f"t{u[1][0][1]}.", style)
            elif op == "l": out += option("l", "load", f"/sim/f{i}", style)
            elif op == "f": out.append(f"/sim/f{i}")
            elif op == "D": out += option("D", "add-feature-identifier", u[1], style)
            elif op == "v": out += option("v", "version", None, style)
            elif op == "color": out += ["--color=#f"]
            elif op == "i": out += option("i", "interactive", None, style)
            elif op == "missing-l": out += option("l", "load", "/sim/none", style)
            elif op == "missing-f": out.append("/sim/none")
            elif op == "unknown": out.append({"short": "-q", "joined": "-q", "long": "--nope", "equal": "--nope=1"}[style])
            elif op == "no-operand": out += option("e", "evaluate", None, "short" if style == "joined" else style) # joined to others, the letter would take the operand of another one
            if op in ("f", "missing-f", "color", "unknown"): cluster = None
        return out

    def layout(self, rng, cmds, own):
        data = IMPORT + "\n" + " ".join(PREPARE) + "\n" if own else ""
        for c in cmds: data += text(c) + rng.choice([" ", "\n", "\n", "\n\n", " ; remark\n", "\n#| gap |#\n"])
        return data

    def plans(self, s):
        import random
        rng = random.Random(s["style"])
        out = ["cpu 20", "steps 8000000"]
        paths = []
        for i, u in enumerate(s["units"]):
            if u[0] in ("l", "f"):
                paths.append(f"/sim/f{i}")
                out.append(f"file /sim/f{i} {hexed(self.layout(rng, u[1], u[0] == 'f'))}")
        data = self.layout(rng, s["repl"], False) if s["repl"] else ""
        if s["cut"] and data: data += rng.choice(["(write 't9", '"abc', "(1 . ", "#(", "'", "#|", "#\\"])
        out.append(f"stdin {hexed(data)}")
        if s["chunks"]: out += [f"rchunk {p} " + " ".join(map(str, s["chunks"])) for p in paths + ["/sim/dev/stdin"]]
        if s["wchunks"]: out.append("wchunk /sim/dev/stdout " + " ".join(map(str, s["wchunks"])))
        if s["eintr"]: out += [f"fault read {p} 0 EINTR" for p in paths]
        if s["fault"]: out.append(f"fault read {'/sim/dev/stdin' if s['fault'][0] == 'stdin' else '/sim/f%d' % s['fault'][0]} {s['fault'][1]} EIO")
        for k, v in s["env"].items(): out.append(f"env {k} {v}")
        out += [s["place"], s["gc"]]
        return [(Boot("main"), "\n".join(out) + "\nmain " + "\x1f".join(self.arguments(s)).replace("\n", "\x1e") + "\n")]

    def judge(self, s, logs, ctx):
        log = logs[0]
        crash_check(log)
        if log.end == "budget": raise Violation("endless", "the session does not end")
        if log.end != "exit" or "MAIN" not in log.counters: raise Violation("stopped", f"the session ended with {log.end}")
        m, status, limit = self.expect(s)
        got = [x.decode() for x in TOKEN.findall(log.out)]
        err = [x.decode() for x in TOKEN.findall(log.err)]
        hit = any(op == "read" and error == EIO and n for (op, _, error), n in log.fired_last().items())
        where = f"{self.arguments(s)[6:]} with {[text(c) for c in s['repl']]}"
        if hit:
            ctx.probe("failing reads")
            if got[:limit] != m.out[:limit] or got != m.out[:len(got)]: raise Violation("output", f"{where}: expected a beginning of {m.out}, got {got}")
            if s["fault"][0] != "stdin" and log.counters["MAIN"] != "1" and not (got == m.out and log.counters["MAIN"] == str(status)): raise Violation("status", f"{where}: a file could not be read, but the status is {log.counters['MAIN']}")
            if not log.err: raise Violation("silent", f"{where}: nothing reports the failing read")
            return
        if got != m.out: raise Violation("output", f"{where}: expected {m.out}, got {got}: {log.out[-300:]!r} {log.err[-300:]!r}")
        if err != m.err: raise Violation("report", f"{where}: expected {m.err}, got {err}: {log.err[-300:]!r}")
        if log.counters["MAIN"] != str(status): raise Violation("status", f"{where}: expected {status}, got {log.counters['MAIN']}")
        reports = m.errors + (1 if s["cut"] and s["repl"] and status == 0 else 0)
        if bool(m.errors) and not log.err: raise Violation("silent", f"{where}: nothing was reported")
        if not m.errors and not s["cut"] and log.err: raise Violation("report", f"{where}: {log.err!r}")
        ctx.probe("errors reported", m.errors)
        ctx.probe("written", len(got))
        ctx.probe("status not zero", int(status != 0))
        if s["repl"]: ctx.probe("interactive sessions")

    def nontrivial(self, s, logs):
        m, status, _ = self.expect(s)
        return bool(m.errors or status)


PROPERTY = C14()
