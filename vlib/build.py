"""Builds /repo's library sources and /verif's drivers, with a content-hash cache in /verif/build.

An object is rebuilt when the command line or the content of any file it includes (outside the
system directories) changed.  Nothing is written to /repo."""
import concurrent.futures, fcntl, hashlib, json, os, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(REPO, "src/maidsafe/common")

DEFS = """-DCRYPTOPP_MAINTAIN_BACKWARDS_COMPATIBILITY -DVerifierFilter=SignatureVerificationFilter
-DAPPLICATION_VERSION_MAJOR=0 -DAPPLICATION_VERSION_MINOR=0 -DAPPLICATION_VERSION_PATCH=0
-DCOMPANY_NAME=MaidSafe -DAPPLICATION_NAME=Verif -DTARGET_PLATFORM=Linux -DTARGET_ARCHITECTURE=x86_64
-DTESTING -DASIO_HAS_MOVE -DBOOST_ASIO_HAS_MOVE -DASIO_HAS_STD_ARRAY
-DBOOST_ASIO_HAS_STD_ARRAY -DASIO_HAS_STD_ATOMIC -DBOOST_ASIO_HAS_STD_ATOMIC
-DASIO_HAS_STD_SHARED_PTR -DBOOST_ASIO_HAS_STD_SHARED_PTR -DASIO_HAS_STD_CHRONO
-DBOOST_ASIO_HAS_STD_CHRONO -DASIO_HAS_STD_SYSTEM_ERROR -DBOOST_ASIO_HAS_STD_SYSTEM_ERROR
-DASIO_HAS_VARIADIC_TEMPLATES -DBOOST_ASIO_HAS_VARIADIC_TEMPLATES -DBOOST_FILESYSTEM_NO_DEPRECATED
-DBOOST_FILESYSTEM_VERSION=3 -DBOOST_THREAD_VERSION=4 -DBOOST_RESULT_OF_USE_DECLTYPE
-D_FILE_OFFSET_BITS=64 -DHAVE_PTHREAD -DMAIDSAFE_LINUX""".split()
BASE = ["-std=c++17", "-O1", "-g1", "-w", "-fPIC", "-D_GLIBCXX_ASSERTIONS",
        "-I" + os.path.join(VERIF, "shims"), "-I" + os.path.join(REPO, "include"),
        "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "drivers"),
        "-include", os.path.join(VERIF, "shims/prelude.h")] + DEFS
VARIANTS = {
    "plain": ["-DUSE_LOGGING=0"],
    "log": ["-DUSE_LOGGING=1"],
    "asan": ["-DUSE_LOGGING=0", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "free": ["-DUSE_LOGGING=0", "-fsanitize=thread"],   # headers only
    "cov": ["-DUSE_LOGGING=0", "-fsanitize-coverage=trace-pc"],
}
LIBS = """-lcryptopp -lsqlite3 -lboost_filesystem -lboost_thread -lboost_chrono -lboost_date_time
-lboost_locale -lboost_regex -lboost_program_options -lboost_system -lpthread -lrt -ldl""".split()


class BuildError(Exception):
    pass


_hashes = {}
_hlock = threading.Lock()


def fhash(path):
    with _hlock:
        if path in _hashes:
            return _hashes[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha1(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _hlock:
        _hashes[path] = h
    return h


def parse_deps(path):
    with open(path) as f:
        s = f.read().replace("\\\n", " ")
    return [x for x in s.split(":", 1)[1].split() if x]


def compile_obj(src, obj, flags, defs=()):
    cmd = ["g++"] + flags + list(defs) + ["-MMD", "-MF", obj + ".d", "-c", src, "-o", obj]
    key = hashlib.sha1("\0".join(cmd).encode()).hexdigest()
    sig = obj + ".sig"
    try:
        with open(sig) as f:
            old = json.load(f)
        if old["key"] == key and os.path.exists(obj) and \
                all(fhash(d) == h for d, h in old["deps"].items()):
            return False
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    deps = {d: fhash(d) for d in parse_deps(obj + ".d")}
    with open(sig, "w") as f:
        json.dump({"key": key, "deps": deps}, f)
    return True


def lib_sources(variant=""):
    out = []
    if variant == "free":
        return out
    for d, dirs, files in os.walk(SRC):
        dirs[:] = [x for x in dirs if x not in ("tests", "tools")]
        for f in sorted(files):
            if f.endswith(".cc") and not (d == SRC and f == "test.cc"):
                out.append(os.path.join(d, f))
    return sorted(out)


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(drivers, jobs=None):
    """drivers: list of (name, variant, [extra sources in drivers/], [extra flags], [link flags]).
    Returns {name: path of executable}."""
    with Lock():
        _hashes.clear()
        todo = {}
        for name, variant, extra, defs, link in drivers:
            fl = BASE + VARIANTS[variant]
            for s in lib_sources(variant):
                o = os.path.join(BUILD, variant, "lib", os.path.relpath(s, SRC)[:-3] + ".o")
                todo[o] = (s, o, fl, ())
            for s in [name + ".cc"] + list(extra):
                s2 = os.path.join(VERIF, "drivers", s)
                f2, o = fl, os.path.join(BUILD, variant, "drv", name, s[:-3] + ".o")
                if s.startswith("vsched"):   # scheduler itself is never instrumented
                    f2 = [x for x in fl if not x.startswith("-fsanitize")] + ["-fno-threadsafe-statics"]
                todo[o] = (s2, o, f2, tuple(defs))
        with concurrent.futures.ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
            # biggest first
            items = sorted(todo.values(), key=lambda t: -os.path.getsize(t[0]))
            items.sort(key=lambda t: 0 if "drivers" in t[0] else 1)
            done = list(ex.map(lambda t: (t[1], compile_obj(*t)), items))
        rebuilt = {o for o, r in done if r}
        out = {}

        def link(d):
            name, variant, extra, defs, lk = d
            objs = [os.path.join(BUILD, variant, "drv", name, s[:-3] + ".o") for s in [name + ".cc"] + list(extra)]
            libo = [os.path.join(BUILD, variant, "lib", os.path.relpath(s, SRC)[:-3] + ".o") for s in lib_sources(variant)]
            ar = os.path.join(BUILD, variant, "lib.a")
            exe = os.path.join(BUILD, variant, "bin", name)
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            want = hashlib.sha1(json.dumps([[o, fhash(o)] for o in objs + libo] + [lk]).encode()).hexdigest()
            st = exe + ".sig"
            if os.path.exists(exe) and os.path.exists(st) and open(st).read() == want:
                return name, exe
            san = [x for x in VARIANTS[variant] if x in ("-fsanitize=address", "-fsanitize=thread")]
            tmp = exe + ".tmp"
            cmd = ["g++", "-o", tmp] + san + objs + ["-Wl,--start-group", ar, "-Wl,--end-group"] + list(lk) + LIBS
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
            os.replace(tmp, exe)
            with open(st, "w") as f:
                f.write(want)
            return name, exe

        for variant in {d[1] for d in drivers}:
            libo = [os.path.join(BUILD, variant, "lib", os.path.relpath(s, SRC)[:-3] + ".o") for s in lib_sources(variant)]
            ar = os.path.join(BUILD, variant, "lib.a")
            if not os.path.exists(ar) or any(o in rebuilt for o in libo) or \
                    _arlist(ar) != len(libo):
                if os.path.exists(ar):
                    os.unlink(ar)
                r = subprocess.run(["ar", "rcsP", ar] + libo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise BuildError(r.stdout)
        for o in rebuilt:
            _hashes.pop(o, None)
        with concurrent.futures.ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
            for n, e in ex.map(link, drivers):
                out[n] = e
        return out


def _arlist(ar):
    return len(subprocess.run(["ar", "tP", ar], stdout=subprocess.PIPE, text=True).stdout.split())
