from vlib import det, tlc
from . import build


def consts(index, limits, ops):
    return dict(N=len(index), Index=index, Limits=limits, OpNames=set(ops))


def reset(index, limits):
    return "reset %s %s" % (",".join(map(str, index)), " ".join("%d,%d" % tuple(l) for l in limits))


def history(ctx, index, nobj, weights, length):
    n = len(index)
    names = list(weights)
    h = []
    if ctx.rng.random() < .5:
        h = planned(ctx, index, ctx.rng.randint(1, nobj))
    for _ in range(length - len(h)):
        op = ctx.rng.choices(names, [weights[x] for x in names])[0]
        i = ctx.rng.randint(1, nobj)
        if op == "put":
            v = ctx.rng.randint(1, n)
            p = 0 if index[v - 1] == 0 else ctx.rng.choice(
                [ctx.rng.randint(0, n), ctx.rng.randint(1, n), max(1, v - ctx.rng.randint(1, 3))])
            h.append({"n": "put", "a": [i, p, v]})
        elif op in ("del", "branch"):
            h.append({"n": op, "a": [i, ctx.rng.randint(1, n)]})
        elif op == "parse":
            h.append({"n": op, "a": [i, ctx.rng.choice([3, 6, 12]), ctx.rng.choice([1, 2, 12]), form(ctx, n)]})
        elif op in ("clear", "reparse"):
            h.append({"n": op, "a": [i]})
        elif op == "swap":
            h.append({"n": op, "a": [1, 2]})
        else:
            h.append({"n": op, "a": [i, ctx.rng.randint(1, nobj)]})
    return h


def planned(ctx, index, i):
    """Puts in any order of a graph in which every version has one parent: mostly trees with wide forks,
    often closed to a circle by the version which is put last."""
    r = ctx.rng
    n = len(index)
    vs = [v for v in range(1, n + 1) if index[v - 1] or r.random() < .3]
    r.shuffle(vs)
    vs = vs[:r.randint(4, n)]
    hubs = vs[:r.randint(1, 3)]
    parent = {vs[0]: 0}
    for k, v in enumerate(vs[1:], 1):
        parent[v] = r.choice([h for h in hubs if h in parent]) if r.random() < .7 else r.choice(vs[:k])
    x = r.random()
    order = vs[1:] if x < .8 else list(vs)
    if x < .8:
        parent[vs[0]] = r.choice(vs)         # a descendant, or itself
    if r.random() < .5:
        r.shuffle(order)
    if x < .8:
        order.append(vs[0])
    if r.random() < .5 and any(index[v - 1] == 0 and v not in vs for v in range(1, n + 1)):
        order.insert(0, next(v for v in range(1, n + 1) if index[v - 1] == 0 and v not in vs))
    return [{"n": "put", "a": [i, 0 if index[v - 1] == 0 else parent.get(v, 0), v]} for v in order]


def run(ctx, exhaustive, deep):
    exes = build("sdv", "sdv@asan")
    exe = exes["sdv"]
    for index, limits, ops in exhaustive:
        g = det.explore(ctx, "Sdv", consts(index, limits, ops))
        det.replay_walks(ctx, exe, g.cover(), reset(index, limits), label="index=%s limits=%s" % (index, limits))
        if len(ctx.violations) >= 3:
            return
    for index, limits, weights, count, length in deep:
        # the same kind of histories with and without the address sanitizer
        for e, c in ((exe, count), (exes["sdv@asan"], max(5, count // 10))):
            hs = [history(ctx, index, len(limits), weights, length) for _ in range(c)]
            det.validate(ctx, "Sdv", consts(index, limits, weights), e, hs, reset(index, limits),
                         label="index=%s limits=%s" % (index, limits))
        if len(ctx.violations) >= 3:
            return


BIG = [0, 1, 1, 2, 2, 3, 3, 4, 5, 5, 6, 7]


def S01(ctx):
    ops = ["put", "del", "clear", "branch"]
    ex = [([0, 1, 1, 2], [(9, 9)], ops), ([0, 0, 1, 2], [(9, 9)], ops)]
    deep = [(BIG, [(50, 50)], {"put": 9, "del": 2, "branch": 1}, 60, 80)]
    if not ctx.quick:
        ex += [([1, 1, 2, 2, 3], [(9, 9)], ["put", "del"])]
        deep = [(BIG, [(50, 50)], {"put": 9, "del": 2, "branch": 1, "clear": .1}, 600, 120)]
    run(ctx, ex, deep)


def S02(ctx):
    ops = ["put", "del"]
    ex = [([0, 1, 1, 2], [l], ops) for l in [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (9, 1), (9, 2)]]
    deep = [(BIG, [l], {"put": 9, "del": 1}, 25, 80) for l in [(4, 2), (6, 3), (8, 2), (5, 5)]]
    if not ctx.quick:
        ex += [([0, 1, 1, 2, 2], [l], ops) for l in [(2, 2), (3, 2), (4, 2), (4, 3), (9, 3)]]
        deep = [(a, b, c, 250, 150) for a, b, c, d, e in deep]
    run(ctx, ex, deep)


def S03(ctx):
    ops = ["put", "del", "branch"]
    ex = [([0, 1, 1, 2], [(3, 2)], ops), ([0, 0, 1, 2], [(9, 2)], ops),
          ([0, 1, 2], [(2, 2), (3, 1)], ["put", "apply"])]
    deep = [(BIG, [(7, 3), (9, 2)], {"put": 9, "del": 2, "branch": 1, "apply": 2}, 40, 80)]
    if not ctx.quick:
        ex += [([0, 1, 1, 2, 2], [(4, 2)], ops)]
        deep = [(a, b, c, 400, 150) for a, b, c, d, e in deep]
    run(ctx, ex, deep)
    limits(ctx)


def limits(ctx):
    """Construction limits and rejected serialised forms."""
    exe = build("sdv")["sdv"]
    lines = ["ctor 0 1", "ctor 1 0", "ctor 0 0", "ctor 1 1", "ctor 5 2"]
    want = [{"err": "invalid_argument"}] * 3 + ["ok", "ok"]
    out, end = det.run_driver(exe, lines)
    if out != want:
        ctx.violation("construction limits: expected %s got %s (%s)" % (want, out, end), {"script": lines})
    ctx.add("traces_validated_against_impl", 1)


def S04(ctx):
    ops = ["put", "del"]
    ex = [([0, 1, 1, 2], [(9, 9)], ops), ([1, 2, 2, 3], [(9, 9)], ops), ([0, 1, 1, 2], [(4, 2)], ops)]
    deep = [(BIG, [(50, 50)], {"put": 6, "del": 3}, 60, 80), (BIG, [(9, 4)], {"put": 6, "del": 3}, 30, 80)]
    if not ctx.quick:
        ex += [([0, 1, 1, 2, 2], [(9, 9)], ops)]
        deep = [(a, b, c, 400, 150) for a, b, c, d, e in deep]
    run(ctx, ex, deep)


def S05(ctx):
    ops = ["put", "clear", "reparse", "apply", "assign", "swap"]
    ex = [([0, 1, 2], [(3, 2), (3, 3)], ops), ([1, 1, 2], [(2, 2), (3, 1)], ops)]
    w = {"put": 9, "del": 1, "parse": 1, "clear": .3, "reparse": 2, "apply": 1, "assign": .5, "swap": 1}
    deep = [(BIG, [(50, 50), (50, 50)], w, 40, 80), (BIG, [(8, 3), (7, 4)], w, 40, 80)]
    if not ctx.quick:
        ex += [([0, 1, 1, 2], [(9, 9), (3, 2)], ["put", "reparse", "apply", "swap"])]
        deep = [(a, b, c, 400, 150) for a, b, c, d, e in deep]
    run(ctx, ex, deep)
    exe = build("sdv")["sdv"]
    for k in range(30 if ctx.quick else 300):
        h = history(ctx, BIG, 1, {"put": 9, "del": 1}, 25)
        lines = [reset(BIG, [(20, 10)])] + [det.op_line(o) for o in h] + ["prefixes 1"]
        out, end = det.run_driver(exe, lines)
        ctx.add("traces_validated_against_impl", 1)
        ctx.add("truncated_forms_histories", 1)
        if len(out) < len(lines) or out[-1] != [0, 0]:
            ctx.violation("truncated serialised form accepted: %s (%s)" % (out[-1:], end), {"script": lines})
            return


def form(ctx, n):
    """A serialised form: usually valid, sometimes with a defect.  Version 1, whose index is 0, is
    only used as a root without a parent (which is what having index 0 means)."""
    r = ctx.rng
    names = list(range(2, n + 1))
    r.shuffle(names)
    out = []
    rooted = r.random() < .5
    if rooted:
        names.append(1)

    def branch(parent):
        b = [[parent, 0]]
        for _ in range(r.randint(1, 3)):
            if names:
                b.append([names.pop(), 0])
        out.append(b)
        if len(b) > 1 and r.random() < .3 and len(names) > 2:
            k = r.randint(2, 3)
            b[-1][1] = k
            for _ in range(k):
                branch(0)
    branch(0 if rooted or r.random() < .6 else r.randint(1, n))
    for _ in range(r.randint(0, 2)):
        branch(r.choice(names) if names else r.randint(1, n))
    x = r.random()
    b = r.choice(out)
    if x < .06:
        b[-1][1] = r.choice([1, 2, 3])
    elif x < .12:
        b.append([r.randint(2, n), 0])
    elif x < .18:
        b[0][0] = r.randint(0, n) if b[-1][0] != 1 and (len(b) < 2 or b[1][0] != 1) else 0
    elif x < .22:
        del b[1:]
    elif x < .26:
        out.pop()
    return out
