"""Sequential (deterministic) modules.

A specification module X defines
  Init0          initial state (depends on the constants only)
  Ops(s)         set of operations [n |-> name, a |-> <<args>>] explored in state s
  Apply(s, o)    [s |-> next state, r |-> result]   (result: what the real object must answer)
  Inv(s)         state invariant       StepInv(s, o, a)   property of every transition
`explore` model checks X exhaustively, checking Inv/StepInv, and returns the transition graph;
`replay_graph` walks every transition of it through the real code; `validate` lets TLC decide whether
recorded histories of the real code are behaviours of X."""
import collections, json, os, subprocess, tempfile
from . import tlc
from .build import BUILD
from .core import Violation

EXPLORE = """---- MODULE Explore ----
EXTENDS %(mod)s, Json
%(defs)sVARIABLES st, act
vars == <<st, act>>
Init == st = Init0 /\\ act = [o |-> [n |-> "init", a |-> <<>>], r |-> "init"]
Next == \\E o \\in Ops(st): LET a == Apply(st, o) IN st' = a.s /\\ act' = [o |-> o, r |-> a.r]
Spec == Init /\\ [][Next]_vars
View == st
Emit == PrintT(ToJson(<<"t", st, act'.o, act'.r, st'>>))
EmitInit == TLCGet("level") # 1 \\/ PrintT(ToJson(<<"i", st>>))
Bound == %(bound)s
StateInv == Inv(st)
StepOk == [][StepInv(st, act'.o, [s |-> st', r |-> act'.r])]_vars
====
"""
VALIDATE = """---- MODULE Validate ----
EXTENDS %(mod)s, Json, Sequences, TLC, TLCExt
%(defs)sTraces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, st, got
vars == <<tr, l, st, got>>
\\* one line per history: a list of <<op, result>>
Init == /\\ tr \\in 1..Len(Traces) /\\ l = 1 /\\ st = Init0
        /\\ got = [ok |-> TRUE]
Next == /\\ got.ok /\\ l <= Len(Traces[tr])
        /\\ LET e == Traces[tr][l]
               a == Apply(st, e.o)
           IN /\\ st' = a.s /\\ l' = l + 1 /\\ tr' = tr
              /\\ got' = IF ToJson(a.r) = ToJson(e.r) \\/ TLCFP(a.r) = TLCFP(e.r) THEN [ok |-> TRUE] ELSE [ok |-> FALSE, want |-> a.r]
Spec == Init /\\ [][Next]_vars
StateInv == Inv(st)
StepOk == [][StepInv(st, Traces[tr][l].o, Apply(st, Traces[tr][l].o))]_vars
\\* a rejected history is reported with the answer the specification requires
Report == got.ok \\/ PrintT(ToJson(<<"bad", tr, l - 1, got.want>>))
Done == l <= Len(Traces[tr]) \\/ ~got.ok \\/ PrintT(ToJson(<<"acc", tr>>))
====
"""


def explore(ctx, mod, consts, bound="TRUE", workers=4, timeout=800, heap="8g"):
    cfg = "SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT Emit\nCONSTRAINT EmitInit\nCONSTRAINT Bound\n" \
          "INVARIANT StateInv\nPROPERTY StepOk\nCHECK_DEADLOCK FALSE\n" + constants(consts)
    g = Graph()
    r = tlc.run("Explore", cfg, {"Explore.tla": EXPLORE % dict(mod=mod, bound=bound, defs=constdefs(consts))}, workers=1,
                timeout=timeout, on_line=g.add, heap=heap)
    if r.violated:
        raise tlc.TlcError("specification %s violates %s" % (mod, r.violated))
    g.finish()
    ctx.add("states", r.distinct)
    ctx.add("transitions", g.ntrans)
    return g


def constants(c):
    """The constants are defined in the wrapper module (MC_x) and substituted by the configuration."""
    return "".join("CONSTANT %s <- MC_%s\n" % (k, k) for k in c)


def constdefs(c):
    return "".join("MC_%s == %s\n" % (k, tlc.tla(v)) for k, v in c.items())


class Graph:
    def __init__(self):
        self.ids, self.trans, self.init, self.ntrans = {}, collections.defaultdict(list), None, 0
        self._seen = set()

    def sid(self, s):
        k = json.dumps(s, sort_keys=True)
        if k not in self.ids:
            self.ids[k] = len(self.ids)
        return self.ids[k]

    def add(self, v):
        if v[0] == "i":
            self.init = self.sid(v[1])
        elif v[0] == "t":
            a, b = self.sid(v[1]), self.sid(v[4])
            k = (a, json.dumps(v[2], sort_keys=True))
            if k in self._seen:
                return
            self._seen.add(k)
            self.trans[a].append((v[2], v[3], b))
            self.ntrans += 1

    def finish(self):
        assert self.init is not None
        # successors outside the bound have no outgoing transitions; BFS tree for prefixes
        self.parent = {self.init: None}
        q = collections.deque([self.init])
        while q:
            s = q.popleft()
            for i, (o, r, t) in enumerate(self.trans.get(s, ())):
                if t not in self.parent:
                    self.parent[t] = (s, i)
                    q.append(t)

    def prefix(self, s):
        p = []
        while self.parent[s] is not None:
            s, i = self.parent[s]
            p.append((s, i))
        return p[::-1]

    def cover(self, maxlen=400):
        """Walks (lists of (op, result)) from the initial state covering every transition."""
        todo = {s: list(range(len(t)))[::-1] for s, t in self.trans.items() if s in self.parent}
        order = sorted(todo, key=lambda s: len(self.prefix(s))) if len(todo) < 200000 else list(todo)
        for s0 in order:
            while todo[s0]:
                walk = [self.trans[a][i][:2] for a, i in self.prefix(s0)]
                s = s0
                while len(walk) < maxlen:
                    if todo.get(s):
                        i = todo[s].pop()
                    else:
                        # one or two covered steps towards an uncovered transition
                        nxt = None
                        for j, (o, r, t) in enumerate(self.trans.get(s, ())):
                            if todo.get(t):
                                nxt = j
                                break
                        if nxt is None:
                            break
                        i = nxt
                    o, r, t = self.trans[s][i]
                    walk.append((o, r))
                    s = t
                yield walk


def _depth(x):
    return 1 + max([_depth(y) for y in x] or [0]) if isinstance(x, list) else 0


def fmt_arg(x):
    """Lists are joined with ',', lists of lists with ';', lists of those with '/'."""
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, list):
        return {1: ",", 2: ";", 3: "/"}[_depth(x)].join(fmt_arg(y) for y in x) if x else "-"
    return str(x)


def op_line(o):
    return " ".join([o["n"]] + [fmt_arg(x) for x in o["a"]])


def run_driver(exe, lines, timeout=300, env=None, args=()):
    """Feeds the lines; returns (list of decoded answers, ending) where ending is None or a text."""
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
    e = dict(os.environ, LC_ALL="C.UTF-8", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99")
    e.update(env or {})
    with tempfile.TemporaryFile("w+", dir=os.path.join(BUILD, "tmp")) as fi, \
            tempfile.TemporaryFile("w+", dir=os.path.join(BUILD, "tmp")) as fo, \
            tempfile.TemporaryFile("w+", dir=os.path.join(BUILD, "tmp"), errors="replace") as fe:
        fi.write("\n".join(lines) + "\n")
        fi.flush()
        fi.seek(0)
        ending = None
        try:
            p = subprocess.run([exe] + list(args), stdin=fi, stdout=fo, stderr=fe, timeout=timeout, env=e)
            if p.returncode:
                fe.seek(0)
                err = fe.read()
                ending = "exit %d: %s" % (p.returncode, err[-1500:])
        except subprocess.TimeoutExpired:
            ending = "timeout"
        fo.seek(0)
        out = []
        for x in fo:
            if not x.endswith("\n"):
                break
            try:
                out.append(json.loads(x))
            except ValueError:
                out.append({"unparsable": x[:200]})
        return out, ending


def replay_walks(ctx, exe, walks, reset, compare=None, label="", chunk=200000, env=None, confirm=True,
                 max_violations=3):
    """Each walk is preceded by the reset line(s); answers are compared with the specification's."""
    resets = [reset] if isinstance(reset, str) else list(reset)
    compare = compare or (lambda o, want, got: want == got)
    buf, n, sampled = [], 0, 0
    found = 0

    def flush():
        nonlocal found
        lines, idx = [], []
        for w, walk in enumerate(buf):
            for x in resets:
                lines.append(x)
                idx.append((w, -1))
            for k, (o, r) in enumerate(walk):
                lines.append(op_line(o))
                idx.append((w, k))
        start = 0
        while start < len(lines) and found < max_violations:
            out, ending = run_driver(exe, lines[start:], env=env)
            bad = None
            for j, got in enumerate(out):
                if start + j >= len(idx):
                    break
                w, k = idx[start + j]
                if k < 0:
                    continue
                o, want = buf[w][k]
                if not compare(o, want, got):
                    bad = (w, k, want, got)
                    break
            if bad is None and len(out) < len(lines) - start:
                w, k = idx[start + len(out)]
                bad = (w, k, buf[w][k][1] if k >= 0 else None, "driver ended: %s" % ending)
            if bad is None:
                break
            w, k, want, got = bad
            ops = resets + [op_line(o) for o, _ in buf[w][:k + 1]]
            if confirm:
                out2, end2 = run_driver(exe, ops, env=env)
                ok = len(out2) == len(ops) and (k < 0 or compare(buf[w][k][0], want, out2[-1]))
                if ok:   # does not repeat in isolation: retry the whole chunk once more
                    out3, end3 = run_driver(exe, lines[start:], env=env)
                    j = len(out) if got.__class__ is str else next(
                        (i for i in range(len(idx)) if idx[i] == (w, k)), None)
                    j = next(i for i in range(start, len(idx)) if idx[i] == (w, k)) - start
                    rep = j >= len(out3) or not compare(buf[w][k][0], want, out3[j]) if k >= 0 else j >= len(out3)
                    if not rep and "timeout" in str(got):   # an overloaded machine, not the code
                        raise RuntimeError("non-repeatable mismatch: %s want %s got %s" % (ops[-1], want, got))
                    ops = lines[start:start + j + 1]
            found += 1
            ctx.violation("%s after %s: expected %s, got %s" % (
                label, " ; ".join(ops[-12:]), json.dumps(want), json.dumps(got)),
                {"driver": exe, "script": ops, "expected": want, "got": got})
            # continue with the next walk
            nxt = next((i for i in range(start, len(idx)) if idx[i][0] > w), len(idx))
            start = nxt

    total = 0
    for walk in walks:
        buf.append(walk)
        n += len(walk)
        total += 1
        ctx.add("traces_validated_against_impl", 1)
        ctx.add("replayed_steps", len(walk))
        if sampled < 1:
            sampled += 1
            ctx.sample({"config": label, "walk": [[op_line(o), r] for o, r in walk[:12]]})
        if n > chunk:
            flush()
            buf.clear()
            n = 0
            if found >= max_violations:
                return
    if buf:
        flush()


def record(exe, histories, resets, env=None):
    """Runs op histories through the real code.  Returns [(ops, answers, ending)]."""
    res = []
    lines, cuts = [], []
    for ops in histories:
        rs = resets(ops) if callable(resets) else resets
        rs = [rs] if isinstance(rs, str) else list(rs)
        cuts.append((len(lines), len(rs), len(ops)))
        lines += rs + [op_line(o) for o in ops]
    pos = 0
    h = died = 0
    while h < len(histories):
        start = cuts[h][0]
        out, ending = run_driver(exe, lines[start:], env=env)
        while h < len(histories):
            a, nr, no = cuts[h]
            a -= start
            if a + nr + no <= len(out):
                res.append((histories[h], out[a + nr:a + nr + no], None))
                h += 1
            else:
                got = out[a + nr:] if len(out) > a else []
                res.append((histories[h], got, ending or "short output"))
                h += 1
                died += 1
                break
        if died >= 3:     # enough to report
            break
    return res


def validate(ctx, mod, consts, exe, histories, resets, label="", env=None, timeout=800, max_violations=3,
             canon=None, checkinv=True, seen=False):
    """Records each history and has TLC decide whether it is a behaviour of the specification."""
    recs = record(exe, histories, resets, env)
    errs = '"err"' in (s := open(os.path.join(tlc.SPEC, mod + ".tla")).read()) or "err |->" in s
    text = []
    for ops, got, end in recs:
        tr = [{"o": o, "r": canon(o, g) if canon else g} for o, g in zip(ops, got)]
        if end is not None and len(got) < len(ops):
            tr.append({"o": ops[len(got)], "r": {"died": (end or "")[:300]}})
        if seen:  # answers which are no value of the specification's: it has none to compare them with
            for x in tr:
                if isinstance(x["r"], dict) and ("died" in x["r"] or not errs):
                    x["x"] = True
        text.append(json.dumps(tr))
    cfg = "SPECIFICATION Spec\nINVARIANT Report\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n" + constants(consts)
    if checkinv:
        cfg += "INVARIANT StateInv\n"
    # records in the result must have comparable types: wrap as JSON text when they are not
    # seen: the specification allows several answers, ApplySeen judges the observed one
    text_v = VALIDATE.replace("a == Apply(st, e.o)", 'a == IF "x" \\in DOMAIN e THEN Apply(st, e.o) ELSE ApplySeen(st, e.o, e.r)') if seen else VALIDATE
    def run(which):
        return tlc.run("Validate", cfg, {"Validate.tla": text_v % dict(mod=mod, defs=constdefs(consts)),
                                         "traces.ndjson": "\n".join(text[i] for i in which) + "\n"}, workers=4, timeout=timeout)
    try:
        r = run(range(len(text)))
    except tlc.TlcError as e:
        # an answer which is no value the specification could compare: find the history with it
        if not e.eval:
            raise
        which = list(range(len(text)))
        while len(which) > 1:
            half = which[:len(which) // 2]
            try:
                run(half)
                which = which[len(half):]
            except tlc.TlcError:
                which = half
        ops, got, end = recs[which[0]]
        try:
            run(which)
        except tlc.TlcError as e:
            ctx.violation("%s: an answer of another kind than any in the specification, in %s -> %s" % (
                label, " ; ".join(op_line(o) for o in ops[-12:]), json.dumps(got[-12:])[:2000]),
                {"driver": exe, "script": [op_line(o) for o in ops], "got": got, "tlc": str(e)[-600:]})
            return
        raise
    acc = {v[1] for v in r.lines if v[0] == "acc"}
    bad = [v for v in r.lines if v[0] == "bad"]
    if len(acc) + len({b[1] for b in bad}) != len(recs):
        raise tlc.TlcError("trace validation incomplete for %s: %d accepted %d rejected of %d\n%s" % (
            mod, len(acc), len(bad), len(recs), r.out[-1500:]))
    ctx.add("states", r.distinct)
    ctx.add("traces_validated_against_impl", len(recs))
    ctx.add("validated_steps", sum(len(g) for _, g, _ in recs))
    if recs:
        ctx.sample({"config": label, "history": [[op_line(o), g] for o, g in zip(recs[0][0][:8], recs[0][1][:8])]})
    for b in bad[:max_violations]:
        _, t, l, want = b
        ops, got, end = recs[t - 1]
        rs = resets(ops) if callable(resets) else resets
        script = ([rs] if isinstance(rs, str) else list(rs)) + [op_line(o) for o in ops[:l]]
        out2, end2 = run_driver(exe, script, env=env)
        g = got[l - 1] if l <= len(got) else "driver ended: %s" % end
        if len(out2) == len(script):
            g2 = canon(ops[l - 1], out2[-1]) if canon else out2[-1]
            if g2 == want and "timeout" in str(g):
                raise RuntimeError("non-repeatable mismatch: %s want %s got %s" % (script[-1], want, g))
        ctx.violation("%s after %s: expected %s, got %s" % (
            label, " ; ".join(script[-12:]), json.dumps(want), json.dumps(g)),
            {"driver": exe, "script": script, "expected": want, "got": g})
