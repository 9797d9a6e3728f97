"""Runs TLC on modules of /verif/spec (plus generated wrappers) in a private directory."""
import json, os, re, shutil, subprocess, tempfile, time
from .build import VERIF, BUILD

SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    eval = False    # the specification could not be evaluated, or its invariant does not hold, on what it was given


class TlcTimeout(TlcError):
    pass


class Result:
    def __init__(self):
        self.lines, self.states, self.distinct, self.out = [], 0, 0, ""
        self.violated = None    # name of violated invariant / property, if any
        self.wall = 0.0
        self.action_counts = {}


def run(module, cfg, files=(), workers=1, timeout=600, simulate=None, depth=None, seed=None,
        heap="4g", allow_violation=False, on_line=None, env=None, props=(), coverage=False):
    """module: name of a .tla in spec/ or among `files` {name: text}.  Returns Result with the
    strings printed by PrintT(ToJson(..)) decoded in .lines."""
    os.makedirs(os.path.join(BUILD, "tlc"), exist_ok=True)
    d = tempfile.mkdtemp(dir=os.path.join(BUILD, "tlc"))
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for n, text in dict(files).items():
            p = os.path.join(d, n)
            if os.path.islink(p):
                os.unlink(p)
            with open(p, "w") as f:
                f.write(text)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC"] + list(props) + [
            "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
            "-config", "run.cfg", "-metadir", os.path.join(d, "meta"), "-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += [module + ".tla"]
        t0 = time.time()
        e = dict(os.environ)
        e.update(env or {})
        r = Result()
        other = []
        p = subprocess.Popen(["timeout", "-k", "5", str(timeout)] + cmd, cwd=d, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, env=e, errors="replace")
        for line in p.stdout:
            line = line.rstrip("\n")
            if line.startswith('"') and line.endswith('"'):
                try:
                    v = json.loads(json.loads(line))
                except ValueError:
                    try:
                        v = json.loads(line[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
                    except ValueError:
                        other.append(line)
                        continue
                if on_line:
                    on_line(v)
                else:
                    r.lines.append(v)
            else:
                other.append(line)
        rc = p.wait()
        r.wall = time.time() - t0
        r.out = "\n".join(other)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
        if m:
            r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.search(r"Invariant (\S+) is violated", r.out) or \
            re.search(r"Action property (\S+) is violated", r.out) or \
            re.search(r"(Temporal properties) were violated", r.out) or \
            re.search(r"(Deadlock) reached", r.out)
        if m:
            r.violated = m.group(1)
        if rc == 124 or rc == 137:
            raise TlcTimeout("TLC timed out after %ss on %s" % (timeout, module))
        if r.violated and allow_violation:
            return r
        if rc != 0:
            e = TlcError("TLC exit %d on %s:\n%s" % (rc, module, r.out[-6000:]))
            e.eval = rc in (12, 13, 75, 76, 77) or rc == 255 and "evaluating" in r.out
            raise e
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tla(v):
    """Python value -> TLA+ text."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v) if v >= 0 else "(%d)" % v
    if isinstance(v, str):
        return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(type(v))
