"""The data buffer (D01-D06): DataBuffer.tla model-checked in small environments, and schedules of the real
buffer under the controlled scheduler validated against it."""
import json
from vlib import conc, tlc
from vlib.det import constants, constdefs
from . import build

STORE, GET, DEL, DELP, SETM, SETD = 1, 2, 3, 4, 5, 6
CONSTS = {"Ghost": False}


def tcfg(job):
    c = job[2]
    return {"maxm": c[0], "maxd": c[1], "pop": bool(c[2]), "keep": c[3] in (1, 3), "sz": list(c[6:])}


# ------------------------------------------------------------------ the model
def st(k, v): return ["store", [k, v]]


MODELS = {
    "pop": (dict(maxm=2, maxd=3, pop=True), [1, 1, 1, 1], [[st(1, 1), st(1, 2), ["del", [1]]], [st(2, 3), st(2, 4)]]),
    "block": (dict(maxm=2, maxd=2, pop=False), [1, 1, 1, 1, 1], [[st(1, 1), st(1, 2), st(3, 5)], [st(2, 3), st(2, 4)]]),
    "big": (dict(maxm=1, maxd=3, pop=True), [2, 3, 1, 1], [[st(1, 1), st(1, 2)], [st(2, 3), st(2, 4), ["delp", [1, 2]]]]),
    "bigblock": (dict(maxm=1, maxd=3, pop=False), [2, 3, 1, 1], [[st(1, 1), st(2, 2)], [st(3, 3), ["del", [1]], st(3, 4)]]),
    "limits": (dict(maxm=1, maxd=2, pop=False), [1, 1, 1], [[st(1, 1), st(2, 2), st(1, 3)], [["setd", [3]], ["setm", [2]], ["del", [2]]]]),
    "three": (dict(maxm=2, maxd=2, pop=True), [1, 1, 1, 1], [[st(1, 1), st(1, 2)], [st(2, 3)], [st(3, 4), ["delp", [1, 2]]]]),
}
DEEP = {
    "pop3": (dict(maxm=2, maxd=2, pop=True), [1, 1, 1, 1, 1, 1], [[st(1, 1), st(1, 2), ["del", [1]]], [st(2, 3), st(2, 4)], [st(3, 5), ["delp", [1, 2]], st(3, 6)]]),
    "block3": (dict(maxm=1, maxd=2, pop=False), [1, 1, 1, 2, 1], [[st(1, 1), st(1, 2)], [st(2, 3), ["del", [1]], st(2, 4)], [["setd", [3]], ["delp", [1, 2]]]]),
    "pop4": (dict(maxm=2, maxd=4, pop=True), [1, 3, 1, 2, 3], [[st(1, 1), st(2, 2), ["delp", [1, 2]]], [st(3, 3), st(3, 4), st(3, 5)]]),
}


def model(ctx, which=None):
    todo = dict(MODELS)
    if not ctx.quick:
        todo.update(DEEP)
    for name in which or todo:
        if name not in todo:
            continue
        lim, sz, progs = todo[name]
        keys = sorted({o[1][0] for p in progs for o in p if o[0] == "store"})
        consts = {"Ghost": True, "Cfg": dict(lim, sz=sz, keep=False), "Threads": set(range(1, len(progs) + 1)),
                  "Keys": set(keys), "Programs": progs, "NGet": 1 if len(progs) < 3 else (0 if ctx.quick else 1)}
        defs = constdefs(consts)
        wrap = "---- MODULE DbCheck ----\nEXTENDS DataBufferMC\n" + defs + "====\n"
        cfg = "SPECIFICATION Spec\nINVARIANT StateInv\nPROPERTY PopOnce\nCHECK_DEADLOCK FALSE\n" + constants(consts)
        r = tlc.run("DbCheck", cfg, {"DbCheck.tla": wrap}, workers=8, timeout=3000, heap="12g")
        ctx.add("states", r.distinct)
        ctx.add("transitions", r.states)
        ctx.cov.setdefault("models", {})[name] = r.distinct


# ------------------------------------------------------------------ schedules
def job(r, w):
    """w: weights of the kinds of operation, and how the run is shaped."""
    k = r.randint(1, 3)
    big = r.random() < w.get("big", .3)
    pop = r.random() < w.get("pop", .5)
    over = r.random() < w.get("over", .03)
    if big:
        maxm, maxd = r.randint(2, 5), r.randint(8, 14)
    else:
        maxm = r.randint(2, 4)
        maxd = maxm + r.choice([0, 0, 1, 2, 3])
    finish = r.randint(0, 3) | (4 if r.random() < w.get("wipe", .1) else 0)
    mm, md = [maxm], [maxd]
    keys = list(range(1, r.randint(k, k + 2) + 1))
    owner = {x: (i % k) for i, x in enumerate(keys)}
    sizes, prog = [], []
    for t in range(k):
        th = []
        for i in range(r.randint(1, w.get("ops", 5))):
            o = r.choices(["store", "get", "del", "delp", "setm", "setd"],
                          [w.get("store", 5), w.get("get", 2), w.get("del", 1), w.get("delp", .5), w.get("set", .4), w.get("set", .4)])[0]
            if o == "store":
                mine = [x for x in keys if owner[x] == t]
                sizes.append(r.choice([6, 7, 8]) if big and r.random() < .5 else r.randint(1, 2))
                th.append((STORE, r.choice(mine), len(sizes)))
            elif o == "get":
                th.append((GET, r.choice(keys)))
            elif o == "del":
                th.append((DEL, r.choice(keys)))
            elif o == "delp":
                th.append((DELP,) + tuple(sorted(r.sample(keys, r.randint(1, len(keys))))))
            elif o == "setm":
                th.append((SETM, r.randint(2, 5)))
            else:
                th.append((SETD, r.randint(8, 16) if big else r.randint(2, 8)))
        prog.append(th)
    if over and not any(o[0] in (SETM, SETD) for th in prog for o in th):
        t = r.randrange(k)
        sizes.append(maxd + r.randint(1, 3))
        prog[t].insert(r.randint(0, len(prog[t])), (STORE, r.choice([x for x in keys if owner[x] == t]), len(sizes)))
    if r.random() < w.get("busy", .1):  # destroyed while busy: calls must not need room to be made
        if pop:
            finish = 16
        elif not big and all(o[0] in (STORE, GET) for th in prog for o in th) and not over:
            sizes = [1] * len(sizes)
            if len(sizes) <= maxm + maxd:
                finish = 16
    if not sizes:
        sizes = [1]
    return [maxm, maxd, int(pop), r.randint(0, 3), finish, len(keys)] + sizes, prog


WORK = {
    "D01": dict(get=6, store=6),
    "D02": dict(store=8, get=1, ops=6, big=.5, set=.8),
    "D03": dict(store=8, get=2, pop=1, ops=6, delp=.2),
    "D04": {"del": 4, "delp": 3, "store": 6, "wipe": .2},
    "D05": dict(set=3, busy=.6, over=.1, ops=4),
    "D06": dict(store=8, pop=.25, ops=6, get=.5, big=.4, over=.1, busy=.3),
}


def constructions(r, n):
    out = []
    for pol in conc.policies(r, n):
        maxm, maxd = r.randint(0, 4), r.randint(0, 4)
        kind = r.randint(0, 5)
        out.append((r.randint(1, 10 ** 9), pol, [maxm, maxd, r.randint(0, 1), kind, 16, 1, 1], [[]]))
    return out


def schedules(ctx, prop, quick=2200, thorough=40000):
    exe = build("databuf")["databuf"]
    r = ctx.rng
    jobs = []
    for pol in conc.policies(r, quick if ctx.quick else thorough):
        cfg, prog = job(r, WORK[prop])
        jobs.append((r.randint(1, 10 ** 9), pol, cfg, prog))
    jobs += constructions(r, 400 if prop == "D05" else 20)
    conc.validate(ctx, "DataBuffer", exe, jobs, CONSTS, label="data buffer", inv=False, tcfg=tcfg, tmp=True)


def D01(ctx):
    model(ctx, ["pop", "block", "big", "pop3", "pop4"])
    schedules(ctx, "D01")


def D02(ctx):
    model(ctx, ["limits", "big", "bigblock", "block3", "pop4"])
    schedules(ctx, "D02")


def D03(ctx):
    model(ctx, ["pop", "three", "big", "pop3", "pop4"])
    schedules(ctx, "D03")


def D04(ctx):
    model(ctx, ["pop", "bigblock", "three", "pop3", "block3"])
    schedules(ctx, "D04")


def D05(ctx):
    model(ctx, ["limits", "block3"])
    schedules(ctx, "D05")


def D06(ctx):
    model(ctx, ["block", "bigblock", "limits", "block3"])
    schedules(ctx, "D06")
