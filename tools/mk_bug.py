"""Helpers to plant bugs: bug(...) writes /verif/seeded/ID from edits of a clone of /repo."""
import atexit, json, os, shutil, subprocess, sys, tempfile

CLONE = tempfile.mkdtemp() + "/repo"
atexit.register(lambda: shutil.rmtree(os.path.dirname(CLONE)))


def base(f):
    return subprocess.run(["git", "-C", "/repo", "show", "7898cfa:" + f], capture_output=True, text=True).stdout


def bug(id, prop, edits, demo, needs, breaks, files={}):
    if not os.path.exists(CLONE): subprocess.run(["git", "clone", "-q", "/repo", CLONE], check=True)
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    for f, a, b in edits:
        p = CLONE + "/" + f
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", CLONE, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", CLONE, "checkout", "-q", "--", "."])
    f = None
    for line in diff.split("\n"):
        if line.startswith("--- a/"): f = line[6:]
        elif line.startswith("-") and line[1:].strip() and line[1:] not in base(f).split("\n"): print(f"{id}: not an original line: {line}")
    if not any(l.startswith("-") and not l.startswith("---") for l in diff.split("\n")): print(f"{id}: only adds lines")
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write("#!/bin/bash\n# run in /repo after a build\n" + demo)
    for k, v in files.items(): open(d + "/" + k, "w").write(v)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


HEAD = '''here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 9
trap 'rm -rf "$scratch"' EXIT
M=$PWD/_build/bin/meevax
'''


def scheme(program, expected, prelude="(scheme base) (scheme write)", before="", run='timeout 200 "$M" program.ss'):
    """demo: runs a program and compares its output."""
    return HEAD + f'''cat > "$scratch/program.ss" <<'EOS'
(import {prelude})
{program}
EOS
cat > "$scratch/expected" <<'EOS'
{expected}
EOS
cd "$scratch" || exit 9
{before}
{run} > got 2>&1
status=$?
[ "$(cat got)" = "$(cat expected)" ] || {{ echo "status $status, got: $(head -c 600 got)"; exit 1; }}
'''
