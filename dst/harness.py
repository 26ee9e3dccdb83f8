"""Seeded search, determinism gate, minimisation, replay files and evidence."""
import copy, hashlib, json, multiprocessing, os, random, sys, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim"))
import build as simbuild
from .runner import Boot, Log, Runner, SimulatorError, run_fresh

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(ROOT, "replays")
FINDINGS = os.path.join(ROOT, "known_findings.json")


class Violation(Exception):
    """kind: a stable class (used to keep minimisation on the same failure)."""

    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind, self.message = kind, message


class Context:
    """What a judged run adds to the evidence."""

    def __init__(self):
        self.probes = {}

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + n


class Property:
    id = None
    level = "exploration"
    shrink = ()                 # names of lists in the scenario that may be shortened
    runs = {"quick": 200, "thorough": 5000}
    wall = {"quick": 420, "thorough": 3000}
    rule = ""
    measure = "distinct (collector decision, I/O outcome) histories"
    real = ["interpreter kernel, reader, ports, collector and Scheme libraries built from /repo",
            "libstdc++ iostreams and filesystem code"]
    stub = ["disk, terminal, clock, environment variables (simulated at the C library boundary)",
            "operator new and delete (fixed-address arena)"]
    assumptions = []
    needs_component = False

    def scenario(self, rng, tier):
        raise NotImplementedError

    def plans(self, s):
        """[(Boot, text)]"""
        raise NotImplementedError

    def followup(self, s, logs):
        """Plans that depend on what the ones before left, as after a restart: [(Boot, text)]"""
        return ()

    def judge(self, s, logs, ctx):
        """Raises Violation."""
        raise NotImplementedError

    def nontrivial(self, s, logs):
        return True

    def valid(self, s):
        return True

    def simplify(self, s):
        """Yields simpler scenarios beyond dropping list elements."""
        return ()

    def simulated_seconds(self, s, logs):
        return 0.0

    def fixed(self):
        """Scenarios run on every check before the seeded ones."""
        return []


def crash_check(log):
    if log.hung():
        raise Violation("hang", "no progress within the limit of processor time")
    if log.crashed():
        raise Violation("crash", f"the interpreter died ({log.end}) after: {' | '.join(log.lines[-8:-1])[:300]}")


def execute(prop, run, s, record=None):
    """The histories of a scenario, including the plans that follow from them."""
    logs, plans = [], prop.plans(s)
    while plans:
        if record is not None: record.extend(plans)
        logs += [run(boot, text) for boot, text in plans]
        plans = prop.followup(s, logs)
    return logs


def attempt(prop, runner, s, ctx=None):
    """(violation or None, logs)"""
    logs = execute(prop, runner.run, s)
    try:
        prop.judge(s, logs, ctx or Context())
    except Violation as v:
        return v, logs
    return None, logs


def rng_for(prop, seed, index):
    return random.Random(f"{prop.id}/{seed}/{index}")


def worker(prop, binary, seed, tier, indices, deadline, queue, which, lowest):
    runner = Runner(binary)
    out = {"runs": 0, "executions": 0, "schedules": set(), "nontrivial": set(), "faults": {}, "probes": {}, "requests": 0, "collections": 0, "io": 0,
           "simulated": 0.0, "violation": None, "error": None, "samples": [], "crashes": 0, "skipped": 0, "clock": 0}
    try:
        for n, index in enumerate(indices):
            if index > lowest.value:
                break
            if time.time() > deadline:
                out["skipped"] = len(indices) - n
                break
            s = prop.scenario(rng_for(prop, seed, index), tier)
            ctx = Context()
            v, logs = attempt(prop, runner, s, ctx)
            out["runs"] += 1
            for k, c in ctx.probes.items():
                out["probes"][k] = out["probes"].get(k, 0) + c
            out["executions"] += len(logs)
            for log in logs:
                out["schedules"].add(hash(log.interleaving()))
                out["requests"] += log.count("G.requests")
                out["collections"] += log.count("G.collections")
                out["io"] += log.count("Q.events")
                out["clock"] += log.count("Q.clockreads")
                for (op, path, error), c in log.fired_last().items():
                    if c:
                        name = f"{op}:{os.strerror(error)}"
                        out["faults"][name] = out["faults"].get(name, 0) + c
                if log.count("M.failed"):
                    out["faults"]["allocation failure"] = out["faults"].get("allocation failure", 0) + log.count("M.failed")
                if log.end == "crash":
                    out["faults"]["machine stop"] = out["faults"].get("machine stop", 0) + 1
            out["simulated"] += prop.simulated_seconds(s, logs)
            if prop.nontrivial(s, logs):
                key = hashlib.sha1("".join(log.interleaving() for log in logs).encode() + json.dumps(s, sort_keys=True).encode()).hexdigest()[:16]
                out["nontrivial"].add(key)
            if len(out["samples"]) < 1:
                out["samples"].append({"index": index, "plan": prop.plans(s)[-1][1][:1500], "end": logs[-1].end})
            if v:
                out["violation"] = (index, s, v.kind, v.message)
                with lowest.get_lock():
                    lowest.value = min(lowest.value, index)
                break
    except SimulatorError as e:
        out["error"] = str(e)
    except Exception:
        out["error"] = traceback.format_exc()
    finally:
        runner.close()
    queue.put((which, out))


def reduce_list(items, test):
    """ddmin."""
    n = 2
    while len(items) >= 1:
        size = max(1, len(items) // n)
        shorter = None
        for i in range(0, len(items), size):
            candidate = items[:i] + items[i + size:]
            if test(candidate):
                shorter = candidate
                break
        if shorter is not None:
            items, n = shorter, max(n - 1, 2)
        elif size == 1:
            break
        else:
            n = min(len(items), n * 2)
    return items


def minimise(prop, runner, s, kind, seconds=60):
    deadline = time.time() + seconds
    tried = 0

    def fails(candidate):
        nonlocal tried
        if time.time() > deadline:
            return False
        tried += 1
        try:
            if not prop.valid(candidate):
                return False
            v, _ = attempt(prop, runner, candidate)
        except SimulatorError:
            raise
        except Exception:
            return False
        return v is not None and v.kind == kind

    progress = True
    while progress and time.time() < deadline:
        before = json.dumps(s, sort_keys=True)
        for name in prop.shrink:
            if name not in s or not isinstance(s[name], list):
                continue

            def test(candidate, name=name):
                c = dict(s)
                c[name] = candidate
                return fails(c)

            s = dict(s)
            s[name] = reduce_list(list(s[name]), test)
        simpler = True
        while simpler and time.time() < deadline:
            simpler = False
            for candidate in prop.simplify(s):
                if fails(candidate):
                    s, simpler = candidate, True
                    break
        progress = json.dumps(s, sort_keys=True) != before
    return s, tried


def gate(prop, binary, s, kind):
    """The same scenario, twice on a server and once in a fresh process each, must record the same history and the same violation."""
    digests = []
    for _ in range(2):
        runner = Runner(binary)
        try:
            v, logs = attempt(prop, runner, s)
        finally:
            runner.close()
        if not v or v.kind != kind:
            return None, "the violation did not reproduce"
        digests.append([log.digest() for log in logs])
    fresh = execute(prop, lambda boot, text: run_fresh(binary, boot, text), s)
    try:
        prop.judge(s, fresh, Context())
        return None, "the violation did not reproduce in a fresh process"
    except Violation as v:
        if v.kind != kind:
            return None, f"a fresh process failed differently: {v}"
        message = v.message
    if digests[0] != digests[1] or digests[0] != [log.digest() for log in fresh]:
        return None, "the recorded histories differ between executions"
    return message, None


def write_replay(prop, binary, s, kind, message, seed, index, binary_key):
    os.makedirs(REPLAYS, exist_ok=True)
    name = hashlib.sha1(json.dumps(s, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(REPLAYS, f"{prop.id}-{name}.json")
    plans = []
    execute(prop, lambda boot, text: run_fresh(binary, boot, text), s, plans)
    with open(path, "w") as f:
        json.dump({"property": prop.id, "violation": kind, "message": message, "seed": seed, "run": index,
                   "scenario": s, "plans": [{"boot": b.key(), "plan": t.split("\n")} for b, t in plans]}, f, indent=1)
    return path


def load_findings(prop_id):
    try:
        with open(FINDINGS) as f:
            return [x for x in json.load(f)["findings"] if x["property"] == prop_id]
    except FileNotFoundError:
        return []


def check(prop, tier, seed, workers=None):
    started = time.time()
    binary, key = simbuild.build()
    build_s = time.time() - started
    print(f"property {prop.id} tier {tier} seed {seed} build {key[:12]} ({build_s:.1f} s)", flush=True)
    violations = []
    known = []
    deadline = time.time() + prop.wall[tier]

    runner = Runner(binary)
    fixed_runs = 0
    try:
        for x in load_findings(prop.id):
            s = x["scenario"]
            v, _ = attempt(prop, runner, s)
            fixed_runs += 1
            if v and v.kind == x["kind"]:
                known.append(x["id"])
                print(f"KNOWN-FINDING: property={prop.id} {x['what']}", flush=True)
            elif v:
                violations.append((-1, s, v.kind, v.message))
        for s in prop.fixed():
            v, _ = attempt(prop, runner, s)
            fixed_runs += 1
            if v:
                violations.append((-1, s, v.kind, v.message))
                break
    finally:
        runner.close()

    total = prop.runs[tier]
    workers = workers or min(os.cpu_count() or 4, 16)
    outs = []
    if not violations:
        queue = multiprocessing.Queue()
        lowest = multiprocessing.Value("q", 1 << 60)
        processes = []
        for w in range(workers):
            p = multiprocessing.Process(target=worker, args=(prop, binary, seed, tier, list(range(w, total, workers)), deadline, queue, w, lowest))
            p.start()
            processes.append(p)
        pending = workers
        while pending:
            which, out = queue.get()
            outs.append((which, out))
            pending -= 1
        for p in processes:
            p.join()
        errors = [o["error"] for _, o in outs if o["error"]]
        if errors:
            print("error: " + errors[0], file=sys.stderr)
            return 2
        violations = sorted([o["violation"] for _, o in outs if o["violation"]], key=lambda v: v[0])
    outs = [o for _, o in sorted(outs, key=lambda x: x[0])]

    status = 0
    reports = []
    if violations:
        index, s, kind, message = violations[0]
        print(f"run {index} violates {prop.id}: {kind}: {message[:500]}", flush=True)
        runner = Runner(binary)
        try:
            s, tried = minimise(prop, runner, s, kind)
        finally:
            runner.close()
        text, why = gate(prop, binary, s, kind)
        if why:
            print(f"error: {why} (run {index}, {kind}: {message[:300]})", file=sys.stderr)
            return 3
        path = write_replay(prop, binary, s, kind, text, seed, index, key)
        print(f"minimised with {tried} runs: {kind}: {text[:500]}")
        print(f"VIOLATION property={prop.id} replay={path}", flush=True)
        reports.append({"kind": kind, "message": text[:2000], "replay": path, "seed": seed, "run": index})
        status = 1

    wall = time.time() - started
    merge = lambda name: {k: sum(o[name].get(k, 0) for o in outs) for k in sorted({k for o in outs for k in o[name]})}
    total_of = lambda name: sum(o[name] for o in outs)
    distinct = set().union(*[o["nontrivial"] for o in outs]) if outs else set()
    runs = total_of("runs") + fixed_runs
    evidence = {
        "property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(distinct),
            "rule": prop.rule,
            "measure": prop.measure,
            "simulated_executions": total_of("executions"),
            "runs_per_hour": round(total_of("executions") / max(wall - build_s, 0.001) * 3600),
            "seeds_per_hour": round(runs / max(wall - build_s, 0.001) * 3600),
            "distinct_schedule_histories": len(set().union(*[o["schedules"] for o in outs])) if outs else 0,
            "simulated_seconds": round(total_of("simulated"), 3),
            "clock_reads": total_of("clock"),
            "allocation_requests": total_of("requests"),
            "collections_scheduled": total_of("collections"),
            "io_events": total_of("io"),
            "faults_injected": merge("faults"),
            "probes": merge("probes"),
            "not_run_for_time": total_of("skipped"),
            "known_findings_reproduced": known,
            "real_components": prop.real,
            "stubbed_components": prop.stub,
            "samples": [x for o in outs for x in o["samples"]][:4] or [{"fixed": True, "plan": prop.plans(violations[0][1])[-1][1][:1500]}],
            "violation_reports": reports,
            "build": key,
        },
        "assumptions": prop.assumptions,
        "violations": len(reports),
        "wall_s": round(wall, 2),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop.id + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    print(f"{runs} runs, {len(distinct)} distinct, {total_of('skipped')} not run for time, {wall:.1f} s; faults {merge('faults')}; probes {merge('probes')}")
    return status


def replay(prop, path):
    with open(path) as f:
        data = json.load(f)
    binary, _ = simbuild.build()
    s = data["scenario"]
    logs = execute(prop, lambda boot, text: run_fresh(binary, boot, text), s)
    try:
        prop.judge(s, logs, Context())
    except Violation as v:
        print(f"{v.kind}: {v.message}")
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    print("the property holds on this replay")
    return 0


def determinism(prop, seed, n, workers):
    """Digest of every recorded history, for comparison between processes."""
    binary, _ = simbuild.build()
    runner = Runner(binary)
    result = {}
    try:
        for index in range(n):
            s = prop.scenario(rng_for(prop, seed, index), "quick")
            result[index] = [log.digest() for log in execute(prop, runner.run, s)]
    finally:
        runner.close()
    return result
