"""TCP connections and listeners (T01-T04): traces of real loopback connections under the controlled scheduler,
with fragmented reads and writes, validated by TLC."""
from vlib import conc
from . import build

SEND, START, CLOSE, FRAME, OVER, PART, FIN, RST = range(1, 9)
MAX = 1024 * 1024
WORK = {
    "T01": dict(raw=.3, close=.3, bad=.1, size=.25, n=5),
    "T02": dict(raw=.75, close=.2, bad=.6, size=.5, n=3),
    "T03": dict(raw=.6, close=1.2, bad=.8, size=.1, n=3),
}


def job(r, w):
    raw = r.random() < w["raw"]
    ids = iter(range(1, 200))
    prog = []
    early = r.random() < .6     # both ends started at first

    def size():
        x = r.random()
        if x > w["size"]:
            return r.choice([1, 1, 2, 3, 4, 5, 8, 20])
        return r.choice([255, 256, 257, 65535, 65536, 70000, 300000, MAX - 1, MAX, MAX, MAX + 1, MAX + 1, 0])

    for t in range(r.randint(1, 3)):
        th = []
        for i in range(r.randint(0, w["n"])):
            th.append((SEND, 1 if raw else r.randint(1, 2), next(ids), size()))
            if r.random() < .15 * w["close"]:
                th.append((CLOSE, 1 if raw else r.randint(1, 2)))
        if not early and r.random() < .6:
            th.insert(r.randint(0, len(th)), (START, 1 if raw else r.randint(1, 2), 3 + t))
        elif r.random() < .15:
            th.insert(r.randint(0, len(th)), (START, 1 if raw else r.randint(1, 2), 3 + t))
        prog.append(th)
    if raw:
        th = []
        for i in range(r.randint(0, w["n"])):
            th.append((FRAME, next(ids), r.choice([1, 2, 3, 8, 256, 5000, 20000]) if r.random() < .9 or not early else MAX))
        if r.random() < w["bad"]:
            x = r.random()
            if x < .3:
                th.append((OVER, r.randint(0, 5), r.choice([0, 1, 5, 100])))
                if r.random() < .3:
                    th.append((FRAME, next(ids), 3))
            elif x < .6:
                th.append((PART, r.randint(1, 11)))
            if r.random() < .7:
                th.append((r.choice([FIN, RST]),))
        prog.append(th)
    cfg = [r.choice([1, 2, 2, 3]), r.randint(0, 1), 1 if raw else r.choice([0, 2, 2]), r.randint(0, 1),
           (1 if early else 0) | r.choice([0, 2]) | r.choice([0, 4]) | r.choice([0, 8]), r.choice([0, 0, 1])]
    return cfg, prog


def tcfg(job):
    return {"raw": job[2][2] == 1}


def conn(ctx, prop, quick=1100, thorough=20000):
    exe = build("tcpconn")["tcpconn"]
    for raw in (False, True):
        conc.model_check(ctx, "TcpConn", {"Raw": raw, "Deep": not ctx.quick})
    r = ctx.rng
    jobs = []
    for pol in conc.policies(r, quick if ctx.quick else thorough):
        cfg, prog = job(r, WORK[prop])
        jobs.append((r.randint(1, 10 ** 9), pol, cfg, prog))
    conc.validate(ctx, "TcpConn", exe, jobs, {"Raw": False, "Deep": False}, label="connection", inv=False, tcfg=tcfg)


def T01(ctx):
    conn(ctx, "T01")


def T02(ctx):
    conn(ctx, "T02")


def T03(ctx):
    conn(ctx, "T03")


def T04(ctx):
    exe = build("tcplisten")["tcplisten"]
    conc.model_check(ctx, "TcpListener")
    r = ctx.rng
    jobs = []
    for pol in conc.policies(r, 1400 if ctx.quick else 25000):
        ids = iter(range(1, 90))
        prog = []
        stops = r.choice([0, .1, .25, .4])
        for t in range(r.randint(1, 3)):
            th = []
            for i in range(r.randint(0, 5)):
                x = r.random()
                if x < stops:
                    th.append((2, r.randint(1, 2)))
                elif x < stops + .1:
                    th.append((3, r.randint(1, 2)))
                elif x < stops + .2:
                    th.append((4,))
                else:
                    th.append((1, r.randint(1, 2), next(ids)))
            prog.append(th)
        base = r.choice([65535, 65534, 65530, 65526, 65525]) if r.random() < .3 else r.randint(2000, 30000)
        near = r.choice([0, 0, 1, 2, 5, 9, 10, 11])
        second = 0 if r.random() < .3 else max(1, min(65535, base + r.choice([0, 0, 0, -1, 1, 3])))
        mask = (1 << near) - 1 if r.random() < .6 else r.randint(0, 4095)
        cfg = [r.choice([1, 2, 3]), r.randint(0, 1), next(ids) - 1 if r.random() < .3 else 0, r.choice([0, 0, 1, 2]), base, second,
               mask, r.choice([0, 1, 2, 2])]
        if cfg[2] == 0:
            cfg[2] = -5
        jobs.append((r.randint(1, 10 ** 9), pol, cfg, prog))
    conc.validate(ctx, "TcpListener", exe, jobs, label="listener", inv=False, tcfg=lambda j: {"l": 1})
