"""Concurrent modules: schedules of the real code, explored under the controlled scheduler of
drivers/vsched.cc, whose event traces TLC accepts or rejects against the specification.

A specification module X defines TInit(cfg), Step(s, e) and Silent(s) (sets of successors of a state for
an observed event, and unobserved), and for model checking Init0, Events(s), Allowed(s, e), Inv(s) and
Final(s) (states in which nothing more has to happen)."""
import time
import concurrent.futures, json, os, shutil, subprocess, tempfile
from . import tlc, det
from .build import BUILD

CHECK = """---- MODULE ConcCheck ----
EXTENDS %(mod)s
%(defs)sVARIABLE st
Init == st = Init0
Next == \\/ \\E e \\in Events(st) : Allowed(st, e) /\\ st' \\in Step(st, e)
        \\/ st' \\in Silent(st)
        \\/ Final(st) /\\ UNCHANGED st
Spec == Init /\\ [][Next]_st
StateInv == Inv(st)
====
"""
TRACE = """---- MODULE ConcTrace ----
EXTENDS %(mod)s, Json
%(defs)sTraces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, st
Init == tr \\in 1..Len(Traces) /\\ l = 1 /\\ st = TInit(Traces[tr].cfg)
Next == /\\ l <= Len(Traces[tr].ev) /\\ tr' = tr
        /\\ \\/ l' = l + 1 /\\ st' \\in Step(st, Traces[tr].ev[l])
           \\/ l' = l /\\ st' \\in Silent(st)
Spec == Init /\\ [][Next]_<<tr, l, st>>
Done == l <= Len(Traces[tr].ev) \\/ PrintT(ToJson(<<"acc", tr>>))
StateInv == %(inv)s
Far == PrintT(ToJson(<<"far", tr, l, st>>))
====
"""


def model_check(ctx, mod, consts={}, workers=8, timeout=800, liveness=None, heap="8g"):
    cfg = "SPECIFICATION Spec\nINVARIANT StateInv\nCHECK_DEADLOCK TRUE\n" + det.constants(consts)
    r = tlc.run("ConcCheck", cfg, {"ConcCheck.tla": CHECK % dict(mod=mod, defs=det.constdefs(consts))},
                workers=workers, timeout=timeout, heap=heap)
    ctx.add("states", r.distinct)
    ctx.add("transitions", r.states)
    return r


def policies(rng, n):
    """A mix of scheduling policies: (pct, p_sync per mille, p_block per 10000, spurious per mille)."""
    out = []
    for _ in range(n):
        x = rng.random()
        if x < .4:
            out.append((rng.randint(1, 6), 0, 0, rng.choice([0, 0, 50])))
        else:
            out.append((0, rng.choice([50, 200, 500, 900]), rng.choice([0, 10, 50, 200, 1000]), rng.choice([0, 0, 30])))
    return out


def fmt_prog(prog):
    return "/".join(";".join(",".join(map(str, o)) for o in th) or "-" for th in prog)


def line(job):
    seed, pol, cfg, prog = job
    return "run %d %d %d %d %d %s %s" % (seed, pol[0], pol[1], pol[2], pol[3], ",".join(map(str, cfg)), fmt_prog(prog))


def run_jobs(exe, jobs, procs=8, env=None, timeout=200, chunk=100, enough=8, tmp=False):
    """Runs every job (until `enough` have ended abnormally); returns the answers (dict with end, ev, or None).
    With tmp, each process gets an empty directory of its own as argument and TMPDIR."""
    e = dict(os.environ, LC_ALL="C.UTF-8")
    e.update(env or {})
    res = [None] * len(jobs)
    bad = []

    def work(lo, hi):
        i = lo
        while i < hi and len(bad) < enough:
            inp = "\n".join(line(j) for j in jobs[i:hi]) + "\n"
            how = None
            d = tempfile.mkdtemp(prefix="verif-") if tmp else None
            try:
                p = subprocess.run([exe] + ([d] if tmp else []), input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   timeout=timeout, env=dict(e, TMPDIR=d) if tmp else e)
                out, how = p.stdout, "exit %d %s" % (p.returncode, p.stderr.decode("utf8", "replace")[-400:])
            except subprocess.TimeoutExpired as x:
                out, how = x.stdout or b"", "timeout"
            finally:
                if tmp:
                    shutil.rmtree(d, ignore_errors=True)
            lines = [x for x in out.decode("utf8", "replace").split("\n") if x]
            for x in lines:
                try:
                    res[i] = json.loads(x)
                except ValueError:
                    res[i] = {"end": "garbled", "ev": []}
                if res[i]["end"] != "ok":
                    bad.append(i)
                i += 1
                if i >= hi:
                    break
            if i < hi and (not lines or json.loads(lines[-1])["end"] == "ok"):
                res[i] = {"end": "died: " + how, "ev": []}
                bad.append(i)
                i += 1
        return True

    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        fs = [ex.submit(work, a, min(a + chunk, len(jobs))) for a in range(0, len(jobs), chunk)]
        for f in fs:
            f.result()
    return res


def trace_cfg(job):
    return job[2]


def validate(ctx, mod, exe, jobs, consts={}, label="", timeout=800, inv=True, workers=8, max_violations=3, env=None,
             procs=8, heap="12g", tcfg=None, tmp=False):
    """Runs the jobs and has TLC accept or reject each distinct event trace."""
    answers = run_jobs(exe, jobs, env=env, procs=procs, tmp=tmp)
    uniq = {}
    jobs, answers = zip(*[(j, a) for j, a in zip(jobs, answers) if a is not None])
    for j, a in zip(jobs, answers):
        ev = a["ev"] + [{"e": "end", "t": 0, "op": a["end"].split(":")[0], "a": [], "r": a["end"]}]
        key = json.dumps({"cfg": (tcfg or trace_cfg)(j), "ev": ev})
        uniq.setdefault(key, j)
    keys = list(uniq)
    ctx.add("schedules_run", len(jobs))
    ctx.add("scheduler_steps", sum(a.get("steps", 0) for a in answers))
    rej = reject(ctx, mod, keys, consts, timeout, inv, workers, heap)
    if keys:
        ctx.sample({"config": label, "trace": json.loads(keys[0])["ev"][:14]})
    for t in rej[:max_violations]:
        key = keys[t]
        far = explain(mod, key, consts, timeout)
        ev = json.loads(key)["ev"]
        ctx.violation("%s: the specification allows no event %s after %s (schedule: %s)" % (
            label, json.dumps(ev[far - 1]) if far <= len(ev) else "?",
            " ".join(short(x) for x in ev[max(0, far - 25):far - 1]), line(uniq[key])),
            {"driver": exe, "script": [line(uniq[key])], "trace": ev, "matched": far - 1})
    return rej


def short(x):
    return "%s.%s(%s)%s@%d" % (x["e"], x["op"], ",".join(map(str, x["a"])), "=" + x["r"] if x["r"] else "", x["t"])


def reject(ctx, mod, keys, consts, timeout, inv, workers, heap, chunk=250):
    """In chunks, which keeps the search in memory; what the time does not suffice for is not judged, and counted."""
    bad, a, end = [], 0, time.time() + (560 if ctx.quick else 6 * timeout)
    while a < len(keys):
        part = keys[a:a + chunk]
        cfg = "SPECIFICATION Spec\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n" + det.constants(consts)
        if inv:
            cfg += "INVARIANT StateInv\n"
        t = time.time()
        left = min(timeout, end - t)
        if a and left < 20:
            ctx.add("traces_not_judged_for_lack_of_time", len(keys) - a)
            break
        try:
            r = tlc.run("ConcTrace", cfg, {"ConcTrace.tla": TRACE % dict(mod=mod, defs=det.constdefs(consts), inv="Inv(st)" if inv else "TRUE"),
                                           "traces.ndjson": "\n".join(part) + "\n"},
                        workers=workers, timeout=max(20, int(left)), heap=heap)
        except tlc.TlcTimeout:
            if not a:
                raise
            ctx.add("traces_not_judged_for_lack_of_time", len(keys) - a)
            break
        acc = {v[1] for v in r.lines if v[0] == "acc"}
        ctx.add("states", r.distinct)
        bad += [a + i for i in range(len(part)) if i + 1 not in acc]
        a += len(part)
        if time.time() - t < 8:
            chunk = min(4000, 2 * chunk)
    ctx.add("traces_validated_against_impl", min(a, len(keys)))
    return bad


def explain(mod, key, consts, timeout):
    """How far the specification can follow a rejected trace."""
    cfg = "SPECIFICATION Spec\nINVARIANT Far\nCHECK_DEADLOCK FALSE\n" + det.constants(consts)
    r = tlc.run("ConcTrace", cfg, {"ConcTrace.tla": TRACE % dict(mod=mod, defs=det.constdefs(consts), inv="TRUE"),
                                   "traces.ndjson": key + "\n"}, workers=4, timeout=timeout)
    return max(v[2] for v in r.lines if v[0] == "far")
