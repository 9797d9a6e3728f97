from vlib import det
from . import build


def _consts(nk, nv, cap, ttl, kind):
    return dict(NKeys=nk, NVals=nv, Cap=cap, TTL=ttl, Kind=kind)


def _reset(nk, cap, ttl, kind):
    return "reset %s %d %d %d" % (kind, nk, cap, ttl)


def _history(ctx, nk, ttl, kind, n):
    h = []
    for _ in range(n):
        x = ctx.rng.random()
        k = ctx.rng.randint(1, nk)
        if ttl and x < 0.25:
            h.append({"n": "tick", "a": [ctx.rng.choice([1, 1, 1, 2, ttl, ttl + 1])]})
        elif kind == "filter" or x < 0.6:
            h.append({"n": "add", "a": [k, ctx.rng.randint(1, 9)]})
        elif x < 0.85:
            h.append({"n": "get", "a": [k]})
        else:
            h.append({"n": "del", "a": [k]})
    return h


def _run(ctx, exhaustive, deep):
    exe = build("lru")["lru"]
    for nk, nv, cap, ttl, kind in exhaustive:
        g = det.explore(ctx, "LruCache", _consts(nk, nv, cap, ttl, kind))
        det.replay_walks(ctx, exe, g.cover(), _reset(nk, cap, ttl, kind),
                         label="%s cap=%d ttl=%d" % (kind, cap, ttl))
    for nk, cap, ttl, kind, count, length in deep:
        hs = [_history(ctx, nk, ttl, kind, length) for _ in range(count)]
        det.validate(ctx, "LruCache", _consts(nk, 9, cap, ttl, kind), exe, hs,
                     _reset(nk, cap, ttl, kind), label="%s cap=%d ttl=%d" % (kind, cap, ttl))


def L01(ctx):
    ex = [(3, 2, 1, 0, "cache"), (4, 1, 2, 0, "cache"), (4, 2, 3, 0, "cache"), (4, 1, 3, 0, "filter")]
    deep = [(12, 5, 0, "cache", 20, 200), (30, 16, 0, "cache", 10, 300), (20, 7, 0, "filter", 5, 200)]
    if not ctx.quick:
        ex += [(5, 2, 4, 0, "cache"), (6, 1, 4, 0, "cache"), (5, 1, 4, 0, "filter")]
        deep = [(a, b, c, d, e * 10, f * 2) for a, b, c, d, e, f in deep]
    _run(ctx, ex, deep)


def L02(ctx):
    ex = [(3, 1, 0, 2, "cache"), (3, 1, 2, 2, "cache"), (3, 2, 2, 1, "cache"), (3, 1, 0, 2, "filter"), (4, 1, 3, 1, "filter")]
    deep = [(8, 0, 6, "cache", 20, 200), (8, 4, 5, "cache", 20, 200), (10, 5, 9, "filter", 10, 200)]
    if not ctx.quick:
        ex += [(4, 1, 0, 2, "cache"), (4, 1, 3, 2, "cache"), (3, 2, 2, 4, "cache"), (4, 1, 0, 3, "filter")]
        deep = [(a, b, c, d, e * 10, f * 2) for a, b, c, d, e, f in deep]
    _run(ctx, ex, deep)
