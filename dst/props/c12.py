"""C12: libraries."""
from ..common import *
from ..harness import Boot, Property, Violation, crash_check

VARIABLES = ["va", "vb", "vc", "vd", "ve"]
BASE = ["(scheme base)", "(scheme base)", "(only (scheme base) define set! + list quote if not error lambda define-syntax syntax-rules ... _ begin)"]


class Failure(Exception):
    pass


class Unspecified(Exception):
    """The same binding under the same name, but renamed on two ways."""


class Cell:
    """A binding of a library: kind and value."""

    def __init__(self, kind, value):
        self.kind, self.value = kind, value


def transform(x, resolve):
    """What an import set binds: [(name, cell, identity: the cell, or what stands for it under another name)]"""
    op = x[0]
    if op == "lib": return resolve(x[1])
    inner = transform(x[1], resolve)
    if op == "only": return [b for b in inner if b[0] in x[2]]
    if op == "except": return [b for b in inner if b[0] not in x[2]]
    if op == "prefix": return [(x[2] + n, c, object()) for n, c, _ in inner]
    if op == "rename":
        table = dict(map(tuple, x[2]))
        return [(table[n], c, object()) if n in table else (n, c, d) for n, c, d in inner]
    raise ValueError(op)


def text_set(x, libs):
    op = x[0]
    if op == "lib": return libs[x[1]]["name"]
    inner = text_set(x[1], libs)
    if op in ("only", "except"): return f"({op} {inner}{''.join(' ' + n for n in x[2])})"
    if op == "prefix": return f"(prefix {inner} {x[2]})"
    return f"(rename {inner}{''.join(f' ({a} {b})' for a, b in x[2])})"


def roots(x):
    return x[1] if x[0] == "lib" else roots(x[1])


class Model:
    def __init__(self, libs):
        self.libs, self.log, self.flags = libs, [], set()
        self.state = ["new"] * len(libs)           # new, running, done
        self.known = [False] * len(libs)           # whether define-library has been evaluated
        self.env = [None] * len(libs)
        self.exports = [None] * len(libs)
        self.faulty = set()                        # files whose next reading fails
        self.supplied = set()                      # libraries whose files were absent, or defined something else, and are there now
        self.top = {}
        self.envs = {}
        self.awaited, self.kept = {}, []
        self.instances = self.failures = 0

    def resolve(self, i):
        lib = self.libs[i]
        if not self.known[i]:
            if lib["where"] == "inline": raise Failure()
            if lib["file"] in self.faulty:
                self.faulty.discard(lib["file"])
                raise Failure()
            if lib.get("appears") and i not in self.supplied: raise Failure()
            for j, l in enumerate(self.libs):
                if l["where"] == "file" and l["file"] == lib["file"]: self.known[j] = True
        if self.state[i] == "new":
            self.state[i] = "running"
            self.env[i], self.exports[i] = {}, []
            self.kept.append(self.env[i])
            try:
                for d in lib["decls"]: self.declare(i, d)
            except Failure:
                self.state[i] = "new"
                raise
            self.instances += 1
            self.state[i] = "done"
        out = []
        for e in self.exports[i]:
            if isinstance(e, list): out.append((e[1], self.env[i][e[0]][0], object()))
            else: out.append((e, *self.env[i][e]))
        return out

    def bring(self, env, sets, shadow):
        for x in sets:
            for n, c, identity in transform(x, self.resolve):
                if n in env and not shadow and env[n][1] is not identity:
                    if env[n][0] is c: raise Unspecified()
                    raise Failure()
                env[n] = (c, identity)

    def declare(self, i, d):
        op, env = d[0], self.env[i]
        if op == "import": self.bring(env, d[1], False)
        elif op == "export": self.exports[i] = d[1] + self.exports[i]
        elif op in ("begin", "included"):
            for c in d[-1]: self.command(env, c)
        elif op == "declarations":
            for x in d[-1]: self.declare(i, x)
        elif op == "cond":
            for x in d[2] if self.available(d[1]) else d[3]: self.declare(i, x)
        else: raise ValueError(op)

    def available(self, test):
        op = test[0]
        if op == "library": return self.known[test[1]]
        if op == "standard": return test[1] == "(scheme base)"
        if op == "not": return not self.available(test[1])
        if op == "and": return all(self.available(x) for x in test[1:])
        if op == "or": return any(self.available(x) for x in test[1:])
        return op == "r7rs"

    def command(self, env, c):
        op = c[0]
        if op == "log": self.log.append(f"({c[1]})")
        elif op == "var":
            cell = self.awaited.pop((id(env), c[1]), None) or Cell("var", None)
            cell.value = c[2]
            self.define(env, c[1], cell)
        elif op == "macro" and c[2] not in env: # the variable is defined later
            cell = self.awaited.setdefault((id(env), c[2]), Cell("var", None))
            self.define(env, c[1], Cell(op, cell))
        elif op in ("bump", "get", "macro"): self.define(env, c[1], Cell(op, env[c[2]][0]))
        elif op == "call": self.log.append(f"({c[1]} {self.call(env[c[2]][0])})")
        elif op == "fail":
            if c[1] not in self.flags:
                self.failures += 1
                raise Failure()
        else: raise ValueError(op)

    def define(self, env, name, cell):
        env[name] = (cell, cell)

    def call(self, cell):
        if cell.kind == "bump": cell.value.value += 1
        return cell.value.value

    def step(self, st):
        op = st[0]
        if op == "define": self.known[st[1]] = True
        elif op == "flag": self.flags.add(st[1])
        elif op == "supply": self.supplied.add(st[1])
        elif op == "env":
            env = {}
            try:
                self.bring(env, st[2], False)
                self.envs[st[1]] = env
                self.log.append("(made)")
            except Failure:
                self.envs[st[1]] = None
                self.log.append("(failed)")
        elif op == "import":
            try:
                self.bring(self.top, st[1], True)
                self.log.append("(imported)")
            except Failure: self.log.append("(failed)")
        elif op == "check":
            env = self.top if st[1] == "top" else self.envs.get(st[1])
            if env is None: self.log.append("(none)")
            elif st[2] not in env: self.log.append("(unbound)")
            else:
                c, identity = env[st[2]]
                if c.kind == "var": self.log.append(f"({c.value})" if identity is c or st[3] else "(*)")
                elif c.kind == "macro": self.log.append(f"(list {c.value.value})")
                else: self.log.append(f"(call {self.call(c)})")
        else: raise ValueError(op)


class C12(Property):
    id = "C12"
    shrink = ("steps",)
    runs = {"quick": 3000, "thorough": 80000}
    wall = {"quick": 40, "thorough": 900}
    rule = ("A case is a generated graph of libraries, in the program or in files of their own, whose bodies record their instantiation, and a program that imports them through nested import sets, calls what it imported, and looks for names it did not import, under seeded collections, failing opens and reads of the files and bodies that fail at first. "
            "The record and every value must be those of a model of libraries. Non-trivial: at least two libraries were instantiated or an instantiation failed.")
    assumptions = ["libraries do not import each other in a circle", "an imported variable that was renamed is not compared after it was assigned (see the findings)"]

    # ---- generation

    def commands(self, rng, i, env, n, depth=0):
        """Commands of a body; env: {name: kind} of what the library sees, extended."""
        out, late = [], []
        for _ in range(n):
            self.k += 1
            ops = ["log", "var", "var"]
            own = [x for x, (k, mine) in env.items() if k == "var" and mine]
            call = [x for x, (k, _) in env.items() if k in ("bump", "get")]
            if own: ops += ["bump", "get", "macro"]
            if call: ops += ["call", "call"]
            op = rng.choice(ops)
            if rng.random() < 0.1: # a macro before what its template refers to
                v, x = rng.choice(VARIABLES), rng.choice(VARIABLES).replace("v", "m", 1)
                if v in env or x in env: continue
                env[v], env[x] = ("late", True), ("macro", True)
                out.append(["macro", x, v])
                late.append(["var", v, rng.randint(0, 999)])
            elif op == "log": out.append(["log", f"l{i}-{self.k}"])
            elif op == "call": out.append(["call", f"l{i}-{self.k}", rng.choice(sorted(call))])
            elif op == "var":
                x = rng.choice(VARIABLES)
                if x in env: continue
                env[x] = ("var", True)
                out.append(["var", x, rng.randint(0, 999)])
            else:
                x = rng.choice(VARIABLES).replace("v", {"bump": "b", "get": "g", "macro": "m"}[op], 1)
                if x in env: continue
                v = rng.choice(sorted(own))
                env[x] = (op, True)
                out.append([op, x, v])
        for _, v, _ in late: env[v] = ("var", True)
        return out + late

    def import_set(self, rng, x, names, depth):
        """An import set around x, whose names are names; (set, {name: (what, direct)})"""
        while depth and names and rng.random() < 0.6:
            op = rng.choice(["only", "except", "prefix", "rename"])
            some = sorted(rng.sample(sorted(names), rng.randint(0, len(names))))
            if op == "only": x, names = [op, x, some], {n: names[n] for n in some}
            elif op == "except":
                some = some[:len(names) // 2]
                x, names = [op, x, some], {n: w for n, w in names.items() if n not in some}
            elif op == "prefix":
                p = rng.choice(["p-", "q:", "x"])
                x, names = [op, x, p], {p + n: (w[0], False) for n, w in names.items()}
            else:
                rng.shuffle(some)
                kinds = {names[n][0][0] == "macro" for n in some}
                if len(some) >= 2 and rng.random() < 0.5 and len(kinds) == 1: # a swap, a rotation, or a chain whose end gets a new name
                    some = some[:rng.choice([2, 2, 3])]
                    table = dict(zip(some, some[1:] + some[:1]))
                    if rng.random() < 0.5: table[some[-1]] = "u-" + some[-1]
                    if rng.random() < 0.5: table = dict(reversed(table.items()))
                else: table = {n: rng.choice(["r-", "s-", "t-"]) + n for n in some}
                new = {}
                for n, w in names.items(): new[table.get(n, n)] = (w[0], w[1] and n not in table)
                if len(new) != len(names): continue
                x, names = [op, x, [[a, b] for a, b in table.items()]], new
            depth -= 1
        return x, names

    def scenario(self, rng, tier):
        while True:
            s = self.generate(rng)
            if self.valid(s): return s

    def generate(self, rng):
        self.k = 0
        libs, exported = [], []
        count = rng.choice([1, 2, 3, 4, 6])
        flags = []
        for i in range(count):
            name = rng.choice(["(t a{0})", "(t{0})", "(t u{0} v)", "(t {0})"]).format(i)
            where = rng.choice(["inline", "inline", "file", "file", "file"])
            lib = {"name": name, "where": where, "file": None, "decls": []}
            if where == "file" and rng.random() < 0.1: lib["appears"] = rng.choice(["missing", "wrong", "empty"])
            if where == "file": lib["file"] = "/sim/" + name[1:-1].replace(" ", "/") + rng.choice([".ss", ".sld", ".scm", ""])
            env, direct = {}, {}
            decls = lib["decls"]
            for j in sorted(rng.sample(range(i), rng.randint(0, min(i, 3))), key=lambda _: rng.random()):
                x, names = self.import_set(rng, ["lib", j], exported[j], rng.choice([0, 0, 1, 2]))
                clash = [n for n in names if n in env and not (names[n][1] and direct.get(n) == names[n])]
                if clash and rng.random() < 0.97: continue
                decls.append(["import", [x]])
                for n, w in names.items(): env[n], direct[n] = (w[0][0], False), w
            if rng.random() < 0.3 and len(decls) > 1: decls[:] = [["import", [x for d in decls for x in d[1]]]]
            if rng.random() < 0.12:
                f = len(flags)
                flags.append(f)
            else: f = None
            for n in range(rng.choice([1, 1, 2, 3])):
                cmds = self.commands(rng, i, env, rng.randint(1, 6))
                if f is not None and rng.random() < 0.6:
                    cmds.insert(rng.randint(0, len(cmds)), ["fail", f])
                    f = None
                k = rng.random()
                if k < 0.6: d = ["begin", cmds]
                elif k < 0.75: d = ["included", f"/sim/part-{i}-{n}.ss", cmds]
                elif k < 0.88: d = ["declarations", f"/sim/declarations-{i}-{n}.ss", [["begin", cmds]]]
                else:
                    used = [roots(x) for d in decls if d[0] == "import" for x in d[1]]
                    test = ["library", rng.choice(used)] if used and rng.random() < 0.4 else rng.choice([["standard", "(scheme base)"], ["standard", "(scheme basic)"], ["and", ["standard", "(scheme base)"], ["not", ["standard", "(t)"]]], ["r7rs"], ["nothing"], ["and", ["r7rs"], ["not", ["nothing"]]], ["or", ["nothing"], ["and"]], ["not", ["r7rs"]]])
                    self.k += 1
                    d = ["cond", test, [["begin", cmds]], [["begin", [["log", f"l{i}-{self.k}"]]]]]
                    if test[0] != "library" and not Model(libs).available(test): d[2], d[3] = d[3], d[2]
                decls.append(d)
            mine = {n: w for n, (w, own) in env.items() if own}
            out, specs = {}, []
            for n, w in sorted(mine.items()):
                if rng.random() < 0.75:
                    if rng.random() < 0.2:
                        e = "e-" + n
                        specs.append([n, e])
                        out[e] = ((w, i, n), False)
                    else:
                        specs.append(n)
                        out[n] = ((w, i, n), True)
            for n, (w, d) in sorted(direct.items()): # exports what it imported
                if n not in out and n not in mine and rng.random() < 0.2:
                    specs.append(n)
                    out[n] = (w, d)
            if len(specs) > 1 and rng.random() < 0.3: decls.insert(rng.randint(0, len(decls)), ["export", [specs.pop()]])
            decls.insert(rng.randint(0, len(decls)), ["export", specs])
            libs.append(lib)
            exported.append(out)
        steps = []
        inline = [i for i in range(count) if libs[i]["where"] == "inline"]
        late = [i for i in inline if rng.random() < 0.1]
        for i in sorted(inline, key=lambda _: rng.random()):
            if i not in late: steps.append(["define", i])
        known = set(inline) - set(late)
        names = []
        for e in exported: names += [(n, False, e[n][0][0] == "macro") for n in sorted(e)]
        made = []
        for n in range(rng.choice([2, 4, 8, 12])):
            k = rng.random()
            if k < 0.3 or not made:
                sets, seen = [], {}
                for _ in range(rng.choice([1, 1, 2, 3])):
                    i = rng.randrange(count)
                    x, ns = self.import_set(rng, ["lib", i], exported[i], rng.choice([0, 1, 2, 3]))
                    if any(m in seen and not (ns[m][1] and seen[m] == ns[m]) for m in ns) and rng.random() < 0.95: continue
                    seen.update(ns)
                    sets.append(x)
                if not sets: continue
                if rng.random() < 0.4:
                    steps.append(["import", sets])
                    if "top" not in made: made.append("top")
                else:
                    steps.append(["env", f"e{n}", sets])
                    made.append(f"e{n}")
                names += [(m, False, seen[m][0][0] == "macro") for m in sorted(seen)]
                for m in sorted(seen):
                    if rng.random() < 0.5: steps.append(["check", made[-1] if steps[-1][0] != "import" else "top", m, False, seen[m][0][0] == "macro"])
            elif k < 0.5 and flags: steps.append(["flag", rng.choice(flags)])
            elif k < 0.58 and any(l.get("appears") for l in libs): steps.append(["supply", rng.choice([i for i in range(count) if libs[i].get("appears")])])
            elif k < 0.61 and known: steps.append(["define", rng.choice(sorted(known))])
            elif k < 0.65 and late: steps.append(["define", late.pop()])
            elif names: steps.append(["check", rng.choice(made), *rng.choice(names)])
        files = sorted({l["file"] for l in libs if l["file"] and not l.get("appears")})
        fault = [rng.choice(files), rng.choice(["open", "read"]), rng.choice([0, 0, 1])] if files and rng.random() < 0.25 else None
        return {"libs": libs, "steps": steps, "fault": fault, "base": [rng.choice(BASE) for _ in libs], "style": rng.randrange(1 << 30), "eintr": rng.random() < 0.15, "chunks": random_chunks(rng),
                "gc": random_gc(rng, 30000, heavy=0.7, cost=10), "place": random_place(rng)}

    def simplify(self, s):
        for key, value in (("gc", "gc off"), ("place", "place lifo"), ("chunks", []), ("eintr", False), ("fault", None)):
            if s[key] != value: yield {**s, key: value}
        for i, l in enumerate(s["libs"]):
            for j, d in enumerate(l["decls"]):
                if d[0] in ("begin", "included") and d[-1]:
                    for k in range(len(d[-1])):
                        yield {**s, "libs": s["libs"][:i] + [{**l, "decls": l["decls"][:j] + [d[:-1] + [d[-1][:k] + d[-1][k + 1:]]] + l["decls"][j + 1:]}] + s["libs"][i + 1:]}
                elif d[0] != "export": yield {**s, "libs": s["libs"][:i] + [{**l, "decls": l["decls"][:j] + l["decls"][j + 1:]}] + s["libs"][i + 1:]}
            if l.get("appears"): yield {**s, "libs": s["libs"][:i] + [{**l, "appears": None}] + s["libs"][i + 1:], "steps": [st for st in s["steps"] if st != ["supply", i]]}
            elif l["where"] == "file": yield {**s, "libs": s["libs"][:i] + [{**l, "where": "inline", "file": None}] + s["libs"][i + 1:], "steps": [["define", i]] + s["steps"]}

    def expect(self, s, faulty):
        m = Model(s["libs"])
        if faulty and s["fault"]: m.faulty.add(s["fault"][0])
        for st in s["steps"]: m.step(st)
        return m

    def valid(self, s):
        try:
            m = self.expect(s, False)
            return all(st[1] == "top" or st[1] in m.envs for st in s["steps"] if st[0] == "check")
        except (KeyError, Unspecified): return False

    # ---- text

    def command_text(self, c):
        op = c[0]
        if op == "log": return f"(sim-log (list '{c[1]}))"
        if op == "var": return f"(define {c[1]} {c[2]})"
        if op == "bump": return f"(define ({c[1]}) (set! {c[2]} (+ {c[2]} 1)) {c[2]})"
        if op == "get": return f"(define ({c[1]}) {c[2]})"
        if op == "macro": return f"(define-syntax {c[1]} (syntax-rules () ((_) (list 'list {c[2]}))))"
        if op == "call": return f"(sim-log (list '{c[1]} ({c[2]})))"
        if op == "fail": return f"(if (not (file-exists? \"/sim/flag{c[1]}\")) (error \"not yet\"))"

    def declaration_text(self, d, libs, files):
        op = d[0]
        if op == "import": return "(import " + " ".join(text_set(x, libs) for x in d[1]) + ")"
        if op == "export": return "(export" + "".join(" " + (e if isinstance(e, str) else f"(rename {e[0]} {e[1]})") for e in d[1]) + ")"
        if op == "begin": return "(begin " + " ".join(map(self.command_text, d[1])) + ")"
        if op == "included":
            files[d[1]] = "\n".join(map(self.command_text, d[2]))
            return f'(include "{d[1]}")'
        if op == "declarations":
            files[d[1]] = "\n".join(self.declaration_text(x, libs, files) for x in d[2])
            return f'(include-library-declarations "{d[1]}")'
        if op == "cond":
            return f"(cond-expand ({self.test_text(d[1], libs)} " + " ".join(self.declaration_text(x, libs, files) for x in d[2]) + ") (else " + " ".join(self.declaration_text(x, libs, files) for x in d[3]) + "))"

    def test_text(self, t, libs):
        if t[0] == "library": return f"(library {libs[t[1]]['name']})"
        if t[0] == "standard": return f"(library {t[1]})"
        if t[0] in ("and", "or", "not"): return f"({t[0]}" + "".join(" " + self.test_text(x, libs) for x in t[1:]) + ")"
        return t[0]

    def plans(self, s):
        libs, files = s["libs"], {}
        texts = []
        for i, l in enumerate(libs):
            texts.append(f"(define-library {l['name']} (import {s['base'][i]} (scheme file) (sim)) " + " ".join(self.declaration_text(d, libs, files) for d in l["decls"]) + ")")
            if l["where"] == "file":
                if not l.get("appears"): files[l["file"]] = texts[-1] + "\n"
                elif l["appears"] == "wrong": files[l["file"]] = "(define-library (t zz) (import (scheme base)) (export va) (begin (define va 1)))\n"
                elif l["appears"] == "empty": files[l["file"]] = "; nothing\n"
        out, made = ["cpu 30", "steps 6000000"], set()
        for f in sorted(set(files) | {l["file"] for l in libs if l["file"]}):
            parts = f.split("/")
            for n in range(3, len(parts)):
                d = "/".join(parts[:n])
                if d not in made: out.append(f"dir {d}")
                made.add(d)
            if f in files: out.append(f"file {f} {hexed(files[f])}")
            if s["chunks"]: out.append(f"rchunk {f} " + " ".join(map(str, s["chunks"])))
            if s["eintr"]: out.append(f"fault read {f} 0 EINTR")
        if s["fault"] and s["fault"][0] in files: out.append(f"fault {s['fault'][1]} {s['fault'][0]} {s['fault'][2]} {'EIO' if s['fault'][1] == 'read' else 'EACCES'}")
        text = "\n".join(out) + "\n" + forms("(define result #f)") + s["place"] + "\n" + s["gc"] + "\n"
        for st in s["steps"]:
            op = st[0]
            if op == "define": text += forms(texts[st[1]])
            elif op == "flag": text += forms(f'(call-with-output-file "/sim/flag{st[1]}" (lambda (p) (write 1 p)))')
            elif op == "supply":
                quoted = texts[st[1]].replace("\\", "\\\\").replace('"', '\\"')
                text += forms(f'(call-with-output-file "{libs[st[1]]["file"]}" (lambda (p) (write-string "{quoted}" p)))')
            elif op == "env": text += forms(f"(define {st[1]} #f)", "(set! result '(failed))", f"(begin (set! {st[1]} (environment " + " ".join("'" + text_set(x, libs) for x in st[2]) + ")) (set! result '(made)))", "(sim-log result)")
            elif op == "import": text += forms("(import " + " ".join(text_set(x, libs) for x in st[1]) + ")", "(sim-log '(imported))")
            elif op == "check": text += self.check_text(st)
        return [(Boot("full"), text)]

    def check_text(self, st):
        """Looks whether a name is bound, as what, and to which value."""
        env = "(interaction-environment)" if st[1] == "top" else st[1]
        n = st[2]
        if st[4]: e = f"(let ((v (eval '({n}) {env}))) (if (pair? v) v '(unbound)))"
        else: e = f"(let ((v (eval '{n} {env}))) (cond ((integer? v) (list v)) ((procedure? v) (list 'call (v))) (else '(unbound))))"
        return forms("(set! result '(unbound))", f"(set! result (if {env} {e} '(none)))", "(sim-log result)")

    # ---- judgement

    def judge(self, s, logs, ctx):
        log = logs[0]
        crash_check(log)
        if log.end != "done": raise Violation("stopped", f"the program ended with {log.end}")
        hit = any(error in (EIO, EACCES) and n for (op, _, error), n in log.fired_last().items())
        want = self.expect(s, hit)
        if hit: ctx.probe("libraries that could not be read at first")
        got = list(log.logs)
        lines = [x for x in self.plans(s)[0][1].split("\n") if x.startswith("form ")]
        results = [log.results[n][0] for n, x in enumerate(lines) if x.startswith("form (import ")]
        for i, g in enumerate(got):
            if g == "(imported)" and results.pop(0) == "E": got[i] = "(failed)"
        for i, w in enumerate(want.log):
            g = got[i] if i < len(got) else "nothing"
            if w == "(*)" and g.strip("()").lstrip("-").isdigit(): continue
            if g != w: raise Violation("differs", f"event {i}: expected {w}, got {g}; so far {got[max(0, i - 6):i]}")
        if len(got) > len(want.log): raise Violation("differs", f"more events than expected: {got[len(want.log):][:3]}")
        ctx.probe("libraries instantiated", want.instances)
        ctx.probe("bodies that failed", want.failures)
        ctx.probe("events", len(got))

    def nontrivial(self, s, logs):
        m = self.expect(s, False)
        return m.instances > 1 or m.failures > 0


PROPERTY = C12()
