#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree.

The sources are copied (never configured or compiled in place), meevax's own
CMake configure step generates the embedded Scheme libraries and Unicode tables
in the copy, and everything is compiled with -DMEEVAX_SIMULATION and linked
statically at fixed addresses. Work is skipped when nothing changed.
"""
import concurrent.futures, fcntl, glob, hashlib, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("MEEVAX_REPO", "/repo")
BUILD = os.environ.get("MEEVAX_SIM_BUILD", os.path.join(ROOT, "build"))

COPIED = ("CMakeLists.txt", "LICENSE", "VERSION", "configure", "include", "library", "script", "src", "document")
WRAPPED = ("fopen fopen64 fdopen fclose fileno fflush setvbuf read write writev lseek lseek64 ioctl poll "
           "fstat fstat64 stat stat64 lstat lstat64 access realpath getcwd readlink remove unlink rmdir rename "
           "open open64 openat mkdir chdir truncate symlink link system opendir close getenv secure_getenv "
           "clock_gettime gettimeofday time isatty dlopen dlsym dlerror dlclose "
           "_ZN6meevax6kernel4bootEv _ZN6meevax6kernel11environment21load_scheme_librariesEv").split()
CXX = "g++"
FLAGS = ["-std=c++20", "-O2", "-DNDEBUG", "-DMEEVAX_SIMULATION", "-fno-pie", "-w", "-pipe"]


def run(command, **kw):
    p = subprocess.run(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def sync(source, target):
    """Copies what changed, removes what vanished. Returns a digest of the content."""
    digest = hashlib.sha256()
    wanted = set()
    for top in COPIED:
        path = os.path.join(source, top)
        names = []
        if os.path.isfile(path):
            names = [top]
        elif os.path.isdir(path):
            for base, dirs, files in os.walk(path):
                dirs[:] = sorted(d for d in dirs if d not in ("_build", ".git", "html"))
                names += [os.path.relpath(os.path.join(base, f), source) for f in sorted(files)]
        for name in names:
            # What the configure step generates is generated again in the copy.
            if is_generated(source, name):
                continue
            a, b = os.path.join(source, name), os.path.join(target, name)
            with open(a, "rb") as f:
                data = f.read()
            digest.update(name.encode() + b"\0" + hashlib.sha256(data).digest())
            wanted.add(name)
            try:
                with open(b, "rb") as f:
                    if f.read() == data:
                        continue
            except OSError:
                pass
            os.makedirs(os.path.dirname(b), exist_ok=True)
            with open(b, "wb") as f:
                f.write(data)
    for base, _, files in os.walk(target):
        for f in files:
            name = os.path.relpath(os.path.join(base, f), target)
            if name not in wanted and not is_generated(target, name) and name.split("/")[0] in COPIED:
                os.remove(os.path.join(base, f))
    return digest.hexdigest()


def is_generated(_, name):
    return name in ("src/kernel/system.cpp", "document/Doxyfile", "README.md") or name.startswith("include/meevax/unicode/")


def configure(target, cmake_dir, work):
    """Runs meevax's configure step in the copy, keeping time stamps of what it writes unchanged."""
    saved = {}
    for name in ["src/kernel/system.cpp"] + [os.path.relpath(p, target) for p in glob.glob(target + "/include/meevax/unicode/*.hpp")]:
        p = os.path.join(target, name)
        if os.path.exists(p):
            saved[name] = (open(p, "rb").read(), os.stat(p))
    code, text = run(["cmake", "-S", target, "-B", cmake_dir, "-DCMAKE_BUILD_TYPE=Release", f"-DCMAKE_CXX_COMPILER={CXX}"],
                     env=dict(os.environ, LC_ALL="C.UTF-8"))
    if code:
        raise SystemExit("configure failed:\n" + text)
    for name, (data, st) in saved.items():
        p = os.path.join(target, name)
        if os.path.exists(p) and open(p, "rb").read() == data:
            os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))


def build(quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_locked(quiet)


def build_locked(quiet):
    copy, cmake_dir, objects = (os.path.join(BUILD, d) for d in ("src", "cmake", "obj"))
    for d in (copy, objects):
        os.makedirs(d, exist_ok=True)
    key = sync(REPO, copy)
    mine = sorted(glob.glob(os.path.join(HERE, "*.cpp")) + glob.glob(os.path.join(HERE, "*.hpp")) + [os.path.abspath(__file__)])
    h = hashlib.sha256(key.encode())
    for p in mine:
        h.update(open(p, "rb").read())
    key = h.hexdigest()
    binary = os.path.join(BUILD, "mvxsim")
    stamp = os.path.join(BUILD, "stamp")
    if os.path.exists(binary) and os.path.exists(stamp) and open(stamp).read() == key:
        return binary, key
    if os.path.exists(stamp):
        os.remove(stamp)
    configure(copy, cmake_dir, BUILD)
    env = dict(os.environ, LC_ALL="C.UTF-8", CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="2G", CCACHE_BASEDIR=BUILD,
               CCACHE_NOHASHDIR="1", CCACHE_SLOPPINESS="time_macros")
    compiler = ([shutil.which("ccache")] if shutil.which("ccache") else []) + [CXX]
    sources = sorted(glob.glob(copy + "/src/*/*.cpp") + glob.glob(copy + "/src/*/*/*.cpp"))
    jobs = []
    for p in sources:
        name = os.path.relpath(p, copy).replace("/", "_")
        jobs.append((p, name, []))
    jobs.append((copy + "/src/main.cpp", "main.cpp", ["-Dmain=meevax_main"]))
    core = [os.path.join(HERE, n) for n in ("memory.cpp", "log.cpp", "io.cpp", "executor.cpp")]
    jobs += [(p, "sim_" + os.path.basename(p), ["-I" + HERE, "-Wno-prio-ctor-dtor"]) for p in core]
    optional = [os.path.join(HERE, n) for n in ("component.cpp",) if os.path.exists(os.path.join(HERE, n))]
    jobs += [(p, "opt_" + os.path.basename(p), ["-I" + HERE]) for p in optional]
    # keep only objects of current sources
    names = {n + ".o" for _, n, _ in jobs}
    for o in os.listdir(objects):
        if o not in names:
            os.remove(os.path.join(objects, o))

    def compile_one(job):
        source, name, extra = job
        out = os.path.join(objects, name + ".o")
        code, text = run(compiler + FLAGS + ["-I" + copy + "/include"] + extra + ["-c", source, "-o", out], env=env, cwd=copy)
        return name, code, text

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        results = list(pool.map(compile_one, jobs))
    skipped = []
    for name, code, text in results:
        if code:
            if name.startswith("opt_"):
                skipped.append(name)
                continue
            raise SystemExit(f"cannot compile {name}:\n{text[-4000:]}")
    linked = [os.path.join(objects, n + ".o") for _, n, _ in jobs if n not in skipped]
    code, text = run([CXX, "-static", "-no-pie", "-o", binary + ".new"] + linked + ["-Wl,--wrap=" + w for w in WRAPPED] + ["-lgmp"])
    if code:
        raise SystemExit(f"cannot link:\n{text[-6000:]}")
    os.replace(binary + ".new", binary)
    with open(os.path.join(BUILD, "skipped"), "w") as f:
        f.write("\n".join(skipped))
    with open(stamp, "w") as f:
        f.write(key)
    return binary, key


if __name__ == "__main__":
    print(build(quiet=False))
