"""Executes plans on the simulator and parses what it recorded."""
import hashlib, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class SimulatorError(Exception):
    pass


class Boot:
    """Which boot image a plan starts from."""

    def __init__(self, libraries="full", arena=0):
        self.libraries, self.arena = libraries, arena

    def key(self):
        return (self.libraries, self.arena)

    def env(self):
        return {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8",
                "MEEVAX_SIM_LIBRARIES": self.libraries, "MEEVAX_SIM_ARENA": str(self.arena)}


class Log:
    """A recorded history. `lines` is exact; the rest is parsed on demand."""

    def __init__(self, raw):
        self.raw = raw
        self.lines = raw.decode("utf-8", "backslashreplace").split("\n")
        self.end = "none"
        self.status = 0
        self.results = {}       # form index -> ("R", text) | ("E", kind, message)
        self.logs = []          # what the program logged, in order
        self.files = {}         # final disk: path -> bytes | None
        self.fired = []         # (op, path, errno, count)
        self.out = b""
        self.err = b""
        self.counters = {}
        self.trace = []
        self.disks = []         # snapshots taken by the program: [(tag, {path: bytes})]
        snapshot = None
        for line in self.lines:
            tag, _, rest = line.partition(" ")
            if tag == "R":
                k, _, text = rest.partition(" ")
                self.results[int(k)] = ("R", text)
            elif tag == "E":
                k, kind, message = (rest.split(" ", 2) + [""])[:3]
                self.results[int(k)] = ("E", kind, message)
            elif tag == "L":
                self.logs.append(rest)
            elif tag == "O":
                self.out += unhex(rest)
            elif tag == "X":
                self.err += unhex(rest)
            elif tag == "F":
                path, _, data = rest.partition(" ")
                value = None if data == "absent" else unhex(data)
                if snapshot is not None:
                    snapshot[path] = value
                self.files[path] = value
            elif tag == "D":
                snapshot = {}
                self.disks.append((rest, snapshot))
            elif tag == "J":
                op, path, error, n = rest.split(" ")
                self.fired.append((op, path, int(error), int(n)))
            elif tag == "T":
                self.trace.append(rest)
            elif tag in ("Q", "G", "M"):
                snapshot = None
                words = rest.split(" ")
                for i in range(0, len(words) - 1, 2):
                    self.counters[tag + "." + words[i]] = words[i + 1]
            elif tag == "MAIN":
                self.counters["MAIN"] = rest
            elif tag == "END":
                self.end, _, s = rest.partition(" ")
                self.status = int(s) if s.lstrip("-").isdigit() else 0
                if self.end == "killed":
                    self.end = "killed-" + s

    def count(self, name):
        return int(self.counters.get(name, "0"), 10)

    def fired_last(self):
        """Fault counters as of the end of the run (snapshots repeat them)."""
        last = {}
        for k, (op, path, error, n) in enumerate(self.fired):
            last[(op, path, error)] = n
        return last

    def hung(self):
        """Stopped by the limit of processor time (signal 24): where exactly is not determined by the plan."""
        return self.end in ("signal-24", "killed-24")

    def digest(self):
        if self.hung():
            return "hung " + hashlib.sha256("\n".join([l for l in self.lines if l[:2] in ("R ", "L ", "E ")][:200]).encode()).hexdigest()
        return hashlib.sha256(self.raw).hexdigest()

    def interleaving(self):
        """What the schedule was: collector decisions and I/O events with their outcomes."""
        return self.counters.get("Q.history", "") + self.counters.get("G.history", "")

    def crashed(self):
        return self.end.startswith("signal") or self.end.startswith("killed") or self.end in (
            "double-free", "bad-free", "heap-corruption", "none")


def unhex(text):
    text = text.strip()
    return b"" if text in ("-", "") else bytes.fromhex(text)


class Server:
    """A booted simulator; runs one plan at a time in a forked child."""

    def __init__(self, binary, boot):
        self.binary, self.boot = binary, boot
        self.process = subprocess.Popen([binary, "--serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                        stderr=subprocess.DEVNULL, env=boot.env(), cwd="/")
        if self.process.stdout.readline() != b"ready\n":
            raise SimulatorError(f"the simulator did not boot ({boot.key()})")

    def run(self, plan):
        data = plan.encode()
        try:
            self.process.stdin.write(b"%d\n" % len(data) + data)
            self.process.stdin.flush()
            n = int(self.process.stdout.readline())
            raw = self.process.stdout.read(n)
        except (OSError, ValueError) as e:
            raise SimulatorError(f"the simulator's server died: {e}")
        if len(raw) != n:
            raise SimulatorError("the simulator's server died")
        return Log(raw)

    def close(self):
        try:
            self.process.stdin.close()
            self.process.wait(10)
        except Exception:
            self.process.kill()


class Runner:
    """Servers by boot image, started on demand."""

    def __init__(self, binary):
        self.binary = binary
        self.servers = {}
        self.runs = 0

    def run(self, boot, plan):
        key = boot.key()
        if key not in self.servers:
            self.servers[key] = Server(self.binary, boot)
        self.runs += 1
        log = self.servers[key].run(plan)
        if log.end == "bad-plan":
            raise SimulatorError("bad plan: " + log.raw.decode(errors="replace")[:300])
        return log

    def close(self):
        for s in self.servers.values():
            s.close()
        self.servers = {}


def run_fresh(binary, boot, plan):
    """One run in a process of its own (replay)."""
    p = subprocess.run([binary, "--run"], input=plan.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       env=boot.env(), cwd="/")
    raw = p.stdout
    if p.returncode < 0:
        raw += b"\nEND killed %d\n" % -p.returncode
    return Log(raw)
