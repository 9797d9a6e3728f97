"""Functions of their input: the specification is an executable definition of the answer, TLC decides for
every recorded call whether it is the one defined."""
import json

from vlib import det
from . import build


def decide(ctx, mod, exe, ops, consts={}, label="", per=40, reset="reset", env=None):
    """Ops (dicts n, a) whose answers do not depend on each other."""
    hs = [ops[i:i + per] for i in range(0, len(ops), per)]
    det.validate(ctx, mod, consts, exe, hs, reset, label=label, env=env)


def enum(ctx, mod, exe, consts={}, label="", reset="reset", env=None):
    """Every operation of the specification's own environment."""
    g = det.explore(ctx, mod, consts)
    det.replay_walks(ctx, exe, g.cover(), reset, label=label, env=env)
    return g


def op(n, *a):
    return {"n": n, "a": list(a)}


def E01(ctx):
    exe = build("errs")["errs"]
    enum(ctx, "Errors", exe, {"Part": 1}, "integer forms")
    r = ctx.rng
    ops = []
    for _ in range(3000 if ctx.quick else 60000):
        x = r.random()
        v = r.randint(-1200000, 100) if x < .6 else -100000 * r.randint(1, 10) - r.randint(0, 40) if x < .9 else r.randint(-2 ** 31 + 1, 2 ** 31 - 1)
        ops.append(op(r.choice(["fromint", "parse"]), v))
    decide(ctx, "Errors", exe, ops, {"Part": 1}, "integers", per=200)


def E02(ctx):
    enum(ctx, "Errors", build("errs")["errs"], {"Part": 2}, "codes and messages")


def _bytes(r, n):
    return [r.choice([0, 1, 10, 47, 48, 57, 58, 64, 65, 70, 71, 90, 91, 96, 97, 102, 103, 122, 127, 128, 255]) if r.random() < .5
            else r.randint(0, 255) for _ in range(n)]


def _b64(b):
    import base64
    return list(base64.b64encode(bytes(b)))


def N01(ctx):
    exe = build("strs")["strs"]
    c = {"Small": {0, 1, 63, 128, 255}}
    # strings with leftover bits are answered either way
    lenient = lambda o, want, got: want == got or (want == {"lenient": True} and got == {"err": "invalid_conversion"})
    g = det.explore(ctx, "Encoding", c)
    det.replay_walks(ctx, exe, g.cover(), "reset enc", label="encodings", compare=lenient)
    r = ctx.rng
    ops = []
    for _ in range(2500 if ctx.quick else 40000):
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 14, 15, 16, 20, 63, 64, 65, r.randint(0, 200)])
        b = _bytes(r, n)
        x = r.random()
        if x < .4:
            ops.append(op("enc", b))
        elif x < .7:
            h = list("".join("%02x" % v for v in b).encode())
            if h and r.random() < .5:
                h = [v - 32 if v > 96 and r.random() < .5 else v for v in h]
            if h and r.random() < .5:
                h[r.randrange(len(h))] = r.randint(0, 255)
            if h and r.random() < .2:
                h.pop(r.randrange(len(h)))
            ops.append(op("hexdec", h))
        else:
            h = _b64(b)
            if h and r.random() < .5:
                h[r.randrange(max(0, len(h) - 6), len(h)) if r.random() < .5 else r.randrange(len(h))] = r.choice([61, 45, 95, r.randint(0, 255)])
            if h and r.random() < .15:
                h.pop(r.randrange(len(h)))
            ops.append(op("b64dec", h))
    decide(ctx, "Encoding", exe, ops, c, "encodings", per=25, reset="reset enc",
           )


def B01(ctx):
    exe = build("strs")["strs"]
    v = [(), (1,), (1, 2), (2, 1, 1), (1, 1, 2, 1), (1, 1, 1, 1, 1)]
    for slots, vals in [({"a1", "a2"}, v), ({"a1", "f1"}, v[2:5]), ({"w", "f2"}, v[:1] + v[3:] + [(1,) * 7]), ({"f1", "f2"}, [(1, 2, 1), (2, 1), (3, 3, 3)])]:
        consts = {"Slots": slots, "Vals": {tuple(x) for x in vals}}
        g = det.explore(ctx, "BoundedString", consts)
        det.replay_walks(ctx, exe, g.cover(), "reset bounded", label="bounded strings")
    r = ctx.rng
    hs = []
    S = ["a1", "a2", "w", "f1", "f2"]
    for _ in range(150 if ctx.quick else 2500):
        h = []
        for _ in range(60):
            n = r.choice(["make", "bytes", "parse", "clear", "read", "copy", "move", "cctor", "mctor", "trip", "conv", "assign", "cmp", "xor", "put", "make", "copy"])
            x = r.choice(S)
            if n in ("make", "bytes", "parse"):
                h.append(op(n, x, _bytes(r, r.choice([0, 1, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8]))))
            elif n in ("clear", "read"):
                h.append(op(n, x))
            elif n == "put":
                h.append(op(n, x, r.randint(0, 4), r.randint(0, 255)))
            elif n in ("conv", "assign"):
                h.append(op(n, *r.choice([("a1", "f1"), ("a2", "f2"), ("w", "a1"), ("w", "f2"), ("f1", "a1")])))
            else:
                y = r.choice([t for t in S if t[0] == x[0]] if r.random() < .9 else S)
                h.append(op(n, x, y))
        hs.append(h)
    det.validate(ctx, "BoundedString", {"Slots": {"a1"}, "Vals": {(1, 2)}}, exe, hs, "reset bounded", label="bounded strings")


def B02(ctx):
    exe = build("strs")["strs"]
    consts = {"Texts": {(), (1,), (1, 2), (255,)}, "Numbers": {-5, 0, 7}}
    g = det.explore(ctx, "TaggedValue", consts)
    det.replay_walks(ctx, exe, g.cover(), "reset tag", label="tagged values")
    r = ctx.rng
    hs = []
    for _ in range(100 if ctx.quick else 2000):
        h = [op("make", "n1", [r.randint(-9, 9)]), op("make", "n2", [r.randint(-2 ** 31 + 1, 2 ** 31 - 1)])]
        for _ in range(40):
            t = r.choice("tn")
            x, y = t + r.choice("12"), t + r.choice("12")
            n = r.choice(["make", "copy", "cctor", "move", "trip", "cmp"])
            if n == "make":
                h.append(op(n, x, _bytes(r, r.randint(0, 12)) if t == "t" else [r.randint(-9, 9)]))
            else:
                h.append(op(n, x, y))
        hs.append(h)
    det.validate(ctx, "TaggedValue", consts, exe, hs, "reset tag", label="tagged values")


def X01(ctx):
    exe = build("ident")["ident"]
    enum(ctx, "IdentityOps", exe, {"Part": 1}, "distances")
    r = ctx.rng
    ops = []

    def other(a):
        x = r.random()
        if x < .1:
            return list(a)
        b = list(a)
        k = r.randrange(64)
        b[k] = r.choice([b[k] ^ (1 << r.randrange(8)), r.randint(0, 255)])
        if x < .7:
            b[k + 1:] = _bytes(r, 63 - k)
        return b

    for _ in range(600 if ctx.quick else 20000):
        a = _bytes(r, 64)
        if r.random() < .5:
            ops.append(op("common", a, other(a)))
        else:
            b = other(a)
            ops.append(op("closer", a, b, r.choice([a, b, other(a), other(b), _bytes(r, 64)])))
    decide(ctx, "IdentityOps", exe, ops, {"Part": 1}, "distances", per=25)


def X02(ctx):
    exe = build("ident")["ident"]
    enum(ctx, "IdentityOps", exe, {"Part": 2}, "encodings")
    r = ctx.rng
    ops = []
    for _ in range(300 if ctx.quick else 6000):
        a = _bytes(r, 64)
        n = r.choice([64, 64, 64, 63, 65, 0, 1, 62, 66, 128, r.randint(0, 130)])
        b = _bytes(r, n)
        x = r.random()
        if x < .2:
            ops.append(op("encode", a))
        elif x < .5:
            t = [48 + (v >> i & 1) for v in b for i in range(7, -1, -1)]
            if t and r.random() < .4:
                t[r.randrange(len(t))] = r.choice([50, 47, 0, 65, 200, 48, 49])
            if r.random() < .4:
                k = r.randint(1, 9)
                t = t[:-k] if r.random() < .5 else t + [48] * k
            ops.append(op("frombin", t))
        elif x < .75:
            t = list("".join("%02x" % v for v in b).encode())
            if t and r.random() < .3:
                t[r.randrange(len(t))] = r.choice([103, 71, 65, 70, 47, 200])
            if r.random() < .2:
                t = t[:-1]
            ops.append(op("fromhex", t))
        else:
            t = _b64(b)
            if t and r.random() < .3:
                t[r.randrange(len(t) - (4 if len(t) > 4 else 0))] = r.choice([45, 61, 200, 43, 47])
            ops.append(op("fromb64", t))
    decide(ctx, "IdentityOps", exe, ops, {"Part": 2}, "encodings", per=15)


KEYS = {(0,) * 16, tuple(range(16)), (255, 7) * 8}


def H01(ctx):
    exe = build("hash")["hash"]
    c = {"Part": 1, "MaxLen": 17 if ctx.quick else 33, "Pieces": {0, 1, 2, 5, 7, 8, 9}, "Keys": {tuple(range(16))}, "Values": set()}
    g = det.explore(ctx, "SipHash", c)
    det.replay_walks(ctx, exe, g.cover(), "reset", label="splits")
    r = ctx.rng
    hs = []
    for i in range(60 if ctx.quick else 1500):
        h = [op("key", "a", [r.choice([0, 255, r.randint(0, 255)]) for _ in range(16)]), op("copy", "a", "b")]
        if i % 3 == 0:
            h.append(op("copy", "a", "c"))
        live = [o["a"][1] for o in h[1:]] + ["a"]
        for _ in range(25):
            x = r.choice(live)
            k = r.random()
            if k < .6:
                n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, r.randint(0, 70)])
                h.append(op("up", x, [r.choice([0, 255, r.randint(0, 255)]) for _ in range(n)]))
            elif k < .9:
                h.append(op("fin", x))
            else:
                y = r.choice("abc")
                if x != y:
                    h.append(op("copy", x, y))
                    live = sorted(set(live + [y]))
        hs.append(h)
    for n in (255, 256, 257, 263, 264, 300):  # the length byte wraps
        b = [r.randint(0, 255) for _ in range(n)]
        k = r.randint(0, n)
        hs.append([op("key", "a", [r.randint(0, 255) for _ in range(16)]), op("up", "a", b[:k]), op("up", "a", b[k:]), op("fin", "a")])
    det.validate(ctx, "SipHash", c, exe, hs, "reset", label="messages")


SIZED = ["vi", "ari", "carr", "li", "fi", "si", "ili", "irange"]
TEXTS = ["vstr", "lstr", "sstr"]
TWO = ["ps", "custm", "custn", "ser", "sav", "ver", "args2"]


def _value(r, t):
    while True:
        v = _value1(r, t)
        if v != [[]]:  # the command line cannot say this
            return v


def _value1(r, t):
    I = lambda: r.choice([0, 1, 2, 255, 256, 65535, 65536, 2 ** 31 - 1, r.randint(0, 2 ** 31 - 1)])
    S = lambda: [r.choice([0, 255, r.randint(0, 255)]) for _ in range(r.choice([0, 0, 1, 2, 3, 8, 9]))]
    if t in ("i8", "char"):
        return [r.randint(0, 127)]
    if t in ("u8",):
        return [r.randint(0, 255)]
    if t == "bool":
        return [r.randint(0, 1)]
    if t in ("i16",):
        return [r.randint(0, 2 ** 15 - 1)]
    if t in ("u16", "c16"):
        return [r.randint(0, 2 ** 16 - 1)]
    if t in ("i32", "u32", "i64", "size"):
        return [I()]
    if t in ("f32", "ref32", "f64"):
        return _float(r, 8 if t == "f64" else 4)
    if t in ("str", "strref", "vu8"):
        return S()
    if t == "u16s":
        return [r.randint(0, 65535) for _ in range(r.randint(0, 5))]
    if t in ("ari", "carr", "args", "amp"):
        return [I() for _ in range(3)]
    if t == "si":
        return sorted({I() for _ in range(r.randint(0, 5))})
    if t == "ili":
        return [I() for _ in range(r.randint(0, 2))]
    if t in SIZED:
        return [I() for _ in range(r.randint(0, 5))]
    if t == "sstr":
        return [list(x) for x in sorted({tuple(S()) for _ in range(r.randint(1, 4))})]
    if t in TEXTS + ["mis"]:
        return [S() for _ in range(r.randint(1, 4))]
    if t == "mii":
        return [[k, I()] for k in sorted({I() for _ in range(r.randint(1, 4))})]
    if t == "vpp":
        return [[I(), I()] for _ in range(r.randint(1, 4))]
    if t == "vp8":
        return [[r.randint(0, 127), I()] for _ in range(r.randint(1, 4))]
    if t == "vvi":
        return [[I() for _ in range(r.randint(0, 3))] for _ in range(r.randint(1, 3))]
    if t == "vf64":
        return [_float(r, 8) for _ in range(r.randint(1, 3))]
    if t == "p8":
        return [r.randint(0, 127), I()]
    if t == "pp":
        return [I(), I()]
    if t == "tup":
        return [[I()], S(), [r.randint(0, 127)]]
    return [[I()], S()]


def _float(r, n):
    import struct
    x = r.choice([0.0, -0.0, 1.0, -1.0, 0.5, float("inf"), -float("inf"), 5e-324 if n == 8 else 1e-45, r.uniform(-9, 9)])
    return list(struct.pack("<d" if n == 8 else "<f", x))


TYPES = ["i8", "u8", "bool", "char", "i16", "u16", "c16", "i32", "u32", "i64", "size", "f32", "ref32", "f64", "str", "strref",
         "vu8", "u16s", "mis", "mii", "vpp", "vp8", "vvi", "vf64", "p8", "pp", "args", "amp", "tup"] + SIZED + TEXTS + TWO


def H02(ctx):
    exe = build("hash")["hash"]
    r = ctx.rng
    vals = {(t, _tup(_value(r, t))) for t in TYPES for _ in range(3)}
    c = {"Part": 2, "MaxLen": 0, "Pieces": set(), "Keys": {tuple(range(16))}, "Values": vals}
    g = det.explore(ctx, "SipHash", c)
    det.replay_walks(ctx, exe, g.cover(), "reset", label="values")
    hs = []
    for _ in range(150 if ctx.quick else 3000):
        h = [op("key", "a", [r.randint(0, 255) for _ in range(16)])]
        for _ in range(8):
            t = r.choice(TYPES)
            h += [op("add", "a", t, _value(r, t)), op("fin", "a")]
        for _ in range(8):
            t = r.choice(TYPES)
            u = t if r.random() < .7 else r.choice(TYPES)
            v = _value(r, t)
            h.append(op("seeded", t, v, u, v if t == u and r.random() < .5 else _value(r, u)))
        hs.append(h)
    det.validate(ctx, "SipHash", c, exe, hs, "reset", label="values")


def _tup(v):
    return tuple(_tup(x) for x in v) if isinstance(v, (list, tuple)) else v


def K01(ctx):
    exe = build("data")["data"]
    c = {"Vals": {(), (5,)}, "Names": {(), (7, 7)}, "Tampers": {(0, 1), (8, 1), (71, 128), (72, 4), (80, 1)}, "Cuts": {0, 7, 71, 72, 80}}
    g = det.explore(ctx, "DataObjects", c)
    det.replay_walks(ctx, exe, g.cover(), "reset", label="objects")
    r = ctx.rng
    hs = []
    S = ["i1", "i2", "m1", "m2"]
    for _ in range(120 if ctx.quick else 2500):
        h, form, typ, ptr = [], None, {}, None
        init = set()
        for _ in range(40):
            n = r.choice(["make"] * 4 + ["copy", "cctor", "move", "mctor", "clear", "up", "up", "ser", "ser", "ser", "serp", "serp", "parse", "parse",
                                         "parsep", "parsep", "tamper", "tamper", "cut", "cut", "forge"])
            x = r.choice(S)
            val = lambda: _bytes(r, r.choice([0, 1, 2, 3, 20, r.randint(1, 60)]))
            nam = lambda: [] if r.random() < .15 else [r.randint(0, 255), r.randint(0, 255)]
            if n == "make":
                a, b = val(), nam()
                h.append(op("make", x, a) if x[0] == "i" else op("makem", x, b, a))
                if a and (x[0] == "i" or b):
                    init.add(x)
            elif n in ("copy", "cctor", "move", "mctor"):
                y = x[0] + ("2" if x[1] == "1" else "1")
                h.append(op(n, x, y))
                (init.add if y in init else init.discard)(x)
                if n[0] == "m":
                    init.discard(y)
            elif n == "clear":
                h.append(op(n, x))
                init.discard(x)
            elif n == "up":
                h.append(op(n, x))
                ptr = (x[0], x in init)
            elif n == "ser":
                h.append(op(n, x))
                if x in init:
                    form, typ = "plain", x[0]
            elif n == "serp" and ptr:
                h.append(op(n))
                if ptr[1]:
                    form, typ = "pointer", ptr[0]
            elif n == "parse" and form == "plain":
                x = typ + r.choice("12")
                h.append(op(n, x))
                init.add(x)
            elif n == "parsep" and form == "pointer":
                h.append(op(n))
                ptr = (typ, True)
            elif n == "tamper" and form == "plain" and typ == "i":
                h.append(op(n, r.choice([r.randint(0, 79), r.randint(80, 500)]), r.choice([1 << r.randint(0, 7), r.randint(1, 255)])))
            elif n == "cut" and form:
                h.append(op(n, r.choice([0, 1, 71, 72, 79, 80, r.randint(0, 400)])))
            elif n == "forge":
                h.append(op(n, r.choice("im"), [r.randint(0, 255), r.randint(0, 255)], val()))
        hs.append(h)
    det.validate(ctx, "DataObjects", c, exe, hs, "reset", label="objects")


def K02(ctx):
    exe = build("data")["data"]
    r = ctx.rng
    H = "00" * 63 + "0a"
    base = [H + "_7", H + "7", H, "", "_", "_7", H + "_", H + "_7x", H + "_-1", H + "_+1", H + "_ 1", " " + H + "_1", H + "_4294967295", H + "_4294967296",
            H + "_99999999999999999999", H + "__1", H[2:] + "_1", H + "00_1", H[1:] + "_1", "g" + H[1:] + "_1", H[:-1] + "_1", H + "_1_2", H + "_0x1",
            H + "_1.0", "d/" + H + "_1", H + "_1 ", H + "_0"]
    c = {"Pairs": {((a, b), i) for a in (0, 171) for b in (0, 255) for i in ((0,), (1, 0), (9,), (4, 2, 9, 4, 9, 6, 7, 2, 9, 5))},
         "Texts": {tuple(t.encode()) for t in base}}
    enum(ctx, "DataNames", exe, c, "names")
    ops = []
    num = lambda: [int(d) for d in str(r.choice([0, 1, 2, 9, 10, 2 ** 31, 2 ** 32 - 1, r.randint(0, 2 ** 32 - 1), r.randint(0, 99)]))]
    nam = lambda: [r.choice([0, 9, 10, 127, 128, 255, r.randint(0, 255)]) for _ in range(2)]
    for _ in range(600 if ctx.quick else 12000):
        x = r.random()
        p, q = (nam(), num()), (nam(), num())
        if x < .4:
            q = r.choice([q, p, (p[0], q[1]), (q[0], p[1])])
            ops.append(op("cmp", *p, *q))
        elif x < .6:
            ops.append(op(r.choice(["file", "trip"]), *p))
        else:
            t = list(("".join("%02x" % r.randint(0, 255) for _ in range(64)) + "_" + "".join(map(str, p[1]))).encode())
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                k = r.random()
                i = r.choice([r.randrange(len(t)), r.randrange(125, len(t))]) if len(t) > 126 else 0
                ch = r.choice(b"09afgz_-+ .x/")
                if k < .4:
                    t[i] = ch
                elif k < .7:
                    t.insert(i + 1, ch)
                elif t:
                    t.pop(i)
            if _clear(t):
                ops.append(op("parse", t))
    decide(ctx, "DataNames", exe, ops, c, "names", per=100)


def _clear(t):
    """Not a number with leading zeros, which is not said to be well-formed or malformed."""
    d = bytes(t).rpartition(b"_")[2]
    return not (len(d) > 1 and d[:1] == b"0")


def _text(s):
    return tuple(s.encode())


def _scripts(words, n):
    import itertools
    return {tuple(_text(w) for w in t) for k in range(n + 1) for t in itertools.product(words, repeat=k)}


NUMBERS = ["0", "1", "2", "9", "-1", "+2", " 1", "1x", "x1", "", " ", "-", "+", "007", "2147483647", "2147483648", "-2147483647", "-2147483649",
           "99999999999", "1.5", "\t3", "- 1", "0x1", "--1"]


def M01(ctx):
    exe = build("console")["console"]
    c = {"Part": 1, "MaxItems": 2 if ctx.quick else 3, "Names": {(), _text("a"), _text("b")}, "Kinds": {"none", "ok", "error"}, "Texts": set(),
         "Scripts": _scripts(["0", "1", "2", "99", "x"], 2) | {tuple(_text(w) for w in t.split()) for t in (
             "1 99 1 0", "1 1 99 2 1", "1 1 1 1 0", "2 1 99 1 2", "x 1 x 0 1")}}
    g = det.explore(ctx, "Console", c)
    det.replay_walks(ctx, exe, g.cover(), "reset", label="menus")
    r = ctx.rng
    hs = []
    for _ in range(120 if ctx.quick else 2500):
        h, n = [], 1
        parents = [1]
        names = set()
        for _ in range(r.choice([0, 1, 3, 6, 12, 16])):
            p = r.choice(parents[-4:] if r.random() < .6 else parents)
            nm = "".join(r.choice("abcdefgh") for _ in range(r.choice([0, 1, 1, 2, 2, 8])))
            h.append(op("add", p, list(nm.encode()), r.choice(["none", "ok", "ok", "ok", "error", "std"] if r.random() < .5 else ["none", "ok"])))
            if nm and (p, nm) not in names:
                names.add((p, nm))
                n += 1
                parents.append(n)
        for _ in range(6):
            k = r.choice([0, 1, 3, 8, 20])
            h.append(op("run", [list(r.choice(["1", "2", "3", "1", "99", "99", "4", "12", r.choice(NUMBERS), str(r.randint(-3, 110)), "0" if r.random() < .2 else "1"]).encode()) for _ in range(k)]))
            if h[-1]["a"][0] == [[]]:
                h.pop()
        hs.append(h)
    det.validate(ctx, "Console", c, exe, hs, "reset", label="menus")


def M02(ctx):
    exe = build("console")["console"]
    c = {"Part": 2, "MaxItems": 0, "Names": set(), "Kinds": set(), "Texts": {_text(t) for t in NUMBERS + ["a b", "  a  bc ", "a", "\ta b", "help --x=1"]},
         "Scripts": _scripts(["a", "b", "", "a b", " b"], 4) - {((),)}}
    enum(ctx, "Console", exe, c, "lines")
    r = ctx.rng
    ops = []
    txt = lambda al, n: [ord(r.choice(al)) for _ in range(r.choice([0, 1, 2, 3, 5, n]))]
    for _ in range(800 if ctx.quick else 15000):
        k = r.random()
        if k < .3:
            ops.append(op("tok", txt("  ab-=\"'\t1", r.randint(0, 40))))
        elif k < .5:
            ops.append(op("get", "str", r.choice(["echo", "quiet"]), txt("  ab1\t\r-", 12)))
        elif k < .8:
            ops.append(op("get", "int", r.choice(["echo", "quiet"]), txt("  0123456789-+a", 12) if r.random() < .5 else
                          list(str(r.choice([r.randint(-2 ** 31 + 1, 2 ** 31 - 1), r.randint(-2 ** 33, 2 ** 33), 2 ** 31, -2 ** 31, 2 ** 31 - 1])).encode())))
        else:
            s = [txt(" ab", 3) for _ in range(r.randint(0, 9))]
            if s != [[]]:
                ops.append(op("pass", r.choice(["once", "repeat"]), s))
    decide(ctx, "Console", exe, ops, c, "lines", per=100)


STEPS = [("open", 0), ("open", 1), ("open", 11), ("set", 2), ("release", 0), ("x", 5), ("leave", 0), ("throw", 0), ("try", 0), ("fail", 4)]


def A04(ctx):
    exe = build("scope")["scope"]
    enum(ctx, "ScopeGuard", exe, {"Steps": set(STEPS), "MaxLen": 3 if ctx.quick else 4}, "short programs")
    r = ctx.rng
    ops = []
    for _ in range(1500 if ctx.quick else 40000):
        p = []
        for _ in range(r.choice([4, 6, 10, 20, 40])):
            w = r.choice(["open", "open", "open", "fn", "set", "set", "release", "x", "y", "x", "leave", "leave", "try", "fail"] + (["throw"] if r.random() < .5 else []))
            k = r.randint(1, 99) if w in ("x", "y") else r.choice([1, 2, 3, 11, 12, 0]) if w in ("open", "set") else r.randint(1, 9) if w in ("fn", "fail") else 0
            p.append([w, k])
        ops.append(op("prog", p))
    decide(ctx, "ScopeGuard", exe, ops, {"Steps": set(STEPS[:1]), "MaxLen": 0}, "programs", per=50)


def _serial_values(r):
    """One value of some type, as in Serial.tla."""
    b = lambda n: [r.choice([0, 1, 127, 128, 255, r.randint(0, 255)]) for _ in range(r.choice([0, 1, 2, 3, n]))]
    i = lambda: r.choice([0, 1, 2, 127, 128, 255, 256, 65535, 65536, 2 ** 31 - 1, r.randint(0, 2 ** 31 - 1)])
    il = lambda n: [i() for _ in range(r.choice([0, 1, 2, n]))]
    ls = lambda f: [f(5) for _ in range(r.choice([0, 1, 2, 3, 6]))]
    t = r.choice(["i8", "u8", "bool", "char", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "str", "bytes", "path", "vi", "vstr", "vvi",
                  "mis", "msvi", "oi", "ostr", "ovi", "ip4", "bip4", "ip6", "bip6", "fly", "fly", "two", "split"])
    if t in ("i8", "char"):
        v = [r.randint(0, 127)]
    elif t == "u8":
        v = [r.randint(0, 255)]
    elif t == "bool":
        v = [r.randint(0, 1)]
    elif t == "i16":
        v = [r.randint(0, 2 ** 15 - 1)]
    elif t == "u16":
        v = [r.randint(0, 2 ** 16 - 1)]
    elif t in ("i32", "u32"):
        v = [i()]
    elif t in ("i64", "u64", "f64"):
        v = [r.randint(0, 255) for _ in range(8)]
    elif t == "f32":
        v = [r.randint(0, 255), r.randint(0, 255), r.randint(0, 127), r.choice([0, 63, 64, 128, 191])]
    elif t in ("str", "bytes"):
        v = b(r.choice([20, 300]))
    elif t == "path":
        v = [r.choice([47, 46, 97, 98, 32]) for _ in range(r.choice([0, 1, 3, 20]))]
    elif t == "vi":
        v = il(9)
    elif t in ("vstr", "mis"):
        v = ls(b)
    elif t in ("vvi", "msvi"):
        v = ls(il)
    elif t == "oi":
        v = il(1)[:1]
    elif t == "ostr":
        v = [b(6) or [1]] if r.random() < .7 else []
    elif t == "ovi":
        v = [il(6) or [1]] if r.random() < .7 else []
    elif t in ("ip4", "bip4"):
        v = [r.choice([0, 127, 1, 255, r.randint(0, 255)]) for _ in range(4)]
    elif t in ("ip6", "bip6"):
        v = [r.choice([0, 254, 128, 255, r.randint(0, 255)]) for _ in range(16)]
    elif t == "fly":
        pool = [b(4) for _ in range(3)]
        v = [r.choice(pool) for _ in range(r.choice([0, 2, 3, 5, 9]))]
    else:
        v = [[i()], b(9)]
    if t == "f64" and v[7] % 128 == 127:     # no infinities and not-a-numbers
        v[7] -= 1
    return [t, [0] * 0 if v == [[]] else v]


SERIALS = [("i8", (5,)), ("u8", (255,)), ("bool", (1,)), ("char", (65,)), ("i16", (258,)), ("u16", (65535,)), ("i32", (16909060,)), ("u32", (2 ** 31 - 1,)),
           ("i64", (1, 2, 3, 4, 5, 6, 7, 8)), ("u64", (255,) * 8), ("f32", (0, 0, 128, 63)), ("f64", (1, 0, 0, 0, 0, 0, 240, 63)), ("str", ()), ("str", (97, 0, 255)),
           ("bytes", (1, 2)), ("path", (97, 47, 98)), ("vi", ()), ("vi", (1, 2, 3)), ("vstr", ((1, 2), (), (3,))), ("vvi", ((1,), (), (2, 3))), ("mis", ((5, 6), ())),
           ("msvi", ((), (9, 8))), ("oi", ()), ("oi", (7,)), ("ostr", ()), ("ostr", ((1, 2),)), ("ovi", ()), ("ovi", ((5, 6),)), ("ip4", (127, 0, 0, 1)),
           ("bip4", (1, 2, 3, 4)), ("ip6", tuple(range(16))), ("bip6", (255,) * 16), ("fly", ((1,), (2,), (1,), (), (2,), ())), ("two", ((5,), (1, 2))), ("split", ((6,), ()))]


def Z01(ctx):
    exe = build("serial")["serial"]
    enum(ctx, "Serial", exe, {"Values": set(SERIALS), "MaxPut": 1}, "every type")
    enum(ctx, "Serial", exe, {"Values": set(ctx.rng.sample(SERIALS, 5)), "MaxPut": 3}, "streams")
    r = ctx.rng
    hs = []
    for _ in range(500 if ctx.quick else 8000):
        vs = [_serial_values(r) for _ in range(r.choice([1, 2, 4, 8]))]
        h = [op("trip", *v) for v in vs] + [op("put", *v) for v in vs] + [op("open")] + [op("get", v[0]) for v in vs] + [op("get", r.choice(["i32", "str", "u8"]))]
        if r.random() < .4:
            h += [op("open")] + [op("get", v[0]) for v in vs[:2]]
        h.append(op("many", r.randint(0, 2 ** 31 - 1), _bytes(r, r.choice([0, 1, 9])), [r.randint(0, 2 ** 31 - 1) for _ in range(r.randint(0, 4))], r.randint(0, 1)))
        hs.append(h)
    det.validate(ctx, "Serial", {"Values": set(), "MaxPut": 0}, exe, hs, "reset", label="values")


def N02(ctx):
    exe = build("serial")["serial"]
    r = ctx.rng
    ips = [(0, 0, 0, 0), (127, 0, 0, 1), (1, 2, 3, 4), (255, 255, 255, 255), (0,) * 16, (0,) * 15 + (1,), (254, 128) + (0,) * 13 + (7,),
           tuple(range(16)), (255, 2) + (0,) * 13 + (1,), (0,) * 10 + (255, 255, 10, 0, 0, 1)]
    rnd = lambda: tuple(r.randint(0, 255) for _ in range(r.choice([4, 16])))
    c = {"Ips": {(i, s) for i in ips for s in ([0] if len(i) == 4 else [0, 1, 77])}, "Ports": {0, 1, 255, 256, 5483, 65535},
         "Codes": set(range(0, 140)) | {-1, -2, 1000, 2 ** 31 - 1, -2 ** 31 + 1}, "Texts": {(), (0,), (65, 0, 66), (255, 128, 127), tuple(range(256))}}
    enum(ctx, "Convert", exe, c, "conversions")
    ops = []
    for _ in range(2000 if ctx.quick else 40000):
        x = r.random()
        if x < .6:
            i = rnd()
            ops.append(op("ends", list(i), 0 if len(i) == 4 else r.choice([0, 0, r.randint(0, 2 ** 31 - 1)]), r.randint(0, 65535)))
        elif x < .8:
            ops.append(op("code", r.randint(-2 ** 31 + 1, 2 ** 31 - 1)))
        else:
            ops.append(op("text", _bytes(r, r.randint(0, 60))))
    decide(ctx, "Convert", exe, ops, {k: set() for k in c}, "conversions", per=100)


def _limbs(n, b):
    return [n // b ** i % b for i in range(6)] + [n // b ** 6]


def _tie(n, b):
    """Close to the middle between two shown values, where the nearest double decides."""
    k = 1
    while n >= b ** (k + 1) - b ** k // 2 and k < 6:
        k += 1
    x = (n * 200) % (2 * b ** k)
    return n >= b and abs(x - b ** k) * 10 ** 9 < b ** k * 2000


def _sizes(r, n):
    out = []
    for b in (1000, 1024):
        for k in range(0, 7):
            for d in (-2, -1, 0, 1, 2):
                out += [(b, b ** k + d), (b, b ** k * b - b ** k // 2 + d), (b, b ** k * (b // 2) + d)]
    for _ in range(n):
        b = r.choice([1000, 1024])
        k = r.randint(0, 6)
        out.append((b, r.choice([r.randint(0, 2 ** 64 - 1), r.randint(0, b ** (k + 1)), b ** k * r.randint(1, b) + r.randint(-10, 10), int(r.random() * b ** (k + 1))])))
    out += [(1000, 2 ** 64 - 1), (1024, 2 ** 64 - 1), (1000, 2 ** 32), (1024, 2 ** 32)]
    return [op("size", b, str(n), _limbs(n, b)) for b, n in out if 0 <= n < 2 ** 64 and not _tie(n, b)]


def _versions(r, n):
    fixed = ["", ".", "..", "...", "0.0.000", "1.2.345", "10.0.001", "32767.9.999", "99999999999999999999.0.000", "300000.1.001", "1.2.3", "1.2.0034", "1.23.456",
             "-1.0.000", "+1.0.000", " 1.0.000", "1.0.000 ", "1.0.00 ", "1.0. 12", "1.0.+12", "1.+.001", "1x.0.000", "1.0.12x", "1.0.0x2", "1..0.000", ".1.0.000",
             "1.0.000.", "0x1.0.000", "007.1.002", "1,0,000", "1.0", "1.0.000.0", "a.b.ccc", "1.a.000", "1.0.-12", "1.-.000", "1.0.\t12", "2147483648.0.000", "4294967297.1.002"]
    out = [f for f in fixed]
    for _ in range(n):
        s = "%d.%d.%03d" % (r.choice([r.randint(0, 9), r.randint(0, 32767)]), r.randint(0, 9), r.randint(0, 999))
        t = list(s)
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            i = r.randint(0, len(t))
            x = r.random()
            ch = r.choice("0123456789.. +-xa\t")
            if x < .4 and i < len(t):
                t[i] = ch
            elif x < .7:
                t.insert(i, ch)
            elif t:
                t.pop(min(i, len(t) - 1))
        s = "".join(t)
        m = s.split(".")[0]
        if m.isdigit() and 32767 < int(m) < 300000:
            continue
        out.append(s)
    return [op("version", list(s.encode())) for s in out]


def F03(ctx):
    exe = build("misc")["misc"]
    r = ctx.rng
    q = ctx.quick
    ops = _versions(r, 600 if q else 20000) + _sizes(r, 600 if q else 20000)
    days = [0, 1, 30, 31, 58, 59, 60, 61, 365, 366, 730, 1460, 1461, 36524, 36525, 36583, 36584, 36585, 146096, 146097, 9000, 2921939]
    for _ in range(500 if q else 10000):
        d = r.choice(days) if r.random() < .4 else r.randint(0, 2921939)
        ops.append(op("date", d, r.choice([0, 1, 999, 1000, 86399999, 43200000, r.randint(0, 86399999)])))
        d = r.choice([0, 1, 59, 60, 9000, r.randint(0, 60000)])
        ops.append(op("stamp", d, r.choice([0, 1, 86399, r.randint(0, 86399)]), r.choice([0, 1, 999, 1000, 999999, r.randint(0, 999999)])))
        ops.append(op("now", d, r.choice([0, 1, 86399, r.randint(0, 86399)]), r.choice([0, 1, 999, 999999999, r.randint(0, 999999999)])))
        ops.append(op("timet", r.choice([0, 1, 946684800, 2 ** 31 - 1, r.randint(0, 2 ** 31 - 1)]), r.choice([0, 1, 999999999, 500000000, r.randint(0, 999999999)])))
    decide(ctx, "Numbers", exe, ops, {"Calls": set()}, "numbers and times", per=200)


def R01(ctx):
    exe = build("misc")["misc"]
    r = ctx.rng
    seeds = [(0, 0), (0, 1), (65535, 65535), (32768, 0), (0, 32768), (1, 0)]
    ops = [op("prng", list(s), 3) for s in seeds]
    ops += [op("prng", [r.randint(0, 65535), r.randint(0, 65535)], r.choice([1, 5, 20])) for _ in range(60 if ctx.quick else 3000)]
    decide(ctx, "Numbers", exe, ops, {"Calls": set()}, "generator", per=10)


def N03(ctx):
    exe = build("misc")["misc"]
    r = ctx.rng
    ops = []
    for _ in range(1500 if ctx.quick else 30000):
        n = r.choice([0, 1, 2, 3, 7, 8, 9, 31, 64])
        m = n if r.random() < .8 else r.choice([0, 1, n + 1, max(0, n - 1), 2 * n])
        x = _bytes(r, n)
        ops.append(op("xor", x, list(x) if r.random() < .1 else _bytes(r, m)))
    decide(ctx, "Numbers", exe, ops, {"Calls": set()}, "combining", per=100)


def F01(ctx):
    exe = build("misc")["misc"]
    c = {"Contents": {(), ((65, 1),), ((0, 2), (255, 1))}, "Caps": {-1, 0, 1, 2, 3}, "Parts": {1}}
    enum(ctx, "Files", exe, c, "small files")
    r = ctx.rng
    hs = []
    size = lambda: r.choice([1, 2, 100, 511, 512, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 65536, r.randint(1, 300000)])
    for _ in range(120 if ctx.quick else 2500):
        h = []
        for _ in range(r.randint(2, 14)):
            k = r.random()
            p = r.choice(["a", "a", "d/x", "d/x", "d", "full", "none", "d/"])
            if k < .45:
                v = []
                for _ in range(r.choice([0, 1, 1, 2, 5])):
                    b = r.randint(0, 255)
                    if not v or v[-1][0] != b:
                        v.append([b, size()])
                n = sum(x[1] for x in v)
                cap = -1 if r.random() < .6 else max(0, r.choice([0, 1, n - 1, n, n + 1, n // 2, 4096, 8192]))
                h.append(op("write", p, v, cap))
                if 0 <= cap < n:
                    h += [op("remove", p)] if p in ("a", "d", "d/x") else []
            elif k < .75:
                h.append(op("read", p if p not in ("full", "d/") else "a", -1 if r.random() < .6 else r.choice([0, 1, 100, 4096, 8191, 8192, 65535, 100000])))
            elif k < .85:
                h.append(op("mkdir"))
            elif k < .93:
                h.append(op("remove", r.choice(["a", "d", "d/x"])))
            else:
                h.append(op("write", "a", [[7, 5]], -1))
                h.append(op("lock", "a"))
        hs.append(h)
    det.validate(ctx, "Files", c, exe, hs, "reset", label="files")


def F04(ctx):
    exe = build("misc")["misc"]
    c = {"Contents": {()}, "Caps": set(), "Parts": {2}}
    enum(ctx, "Files", exe, c, "paths of options")


def P01(ctx):
    exe = build("prof")["prof"]
    r = ctx.rng
    t = lambda s: list(s.encode())
    c = {"Files": {_text("/p/maidsafe/a.cc"), _text("b")}, "Lines": {7}, "Functions": {_text("f")}, "Durations": {(0, 0, 0, 1), (0, 0, 1, 999)}, "MaxUses": 2 if ctx.quick else 3}
    g = det.explore(ctx, "Profiler", c)
    det.replay_walks(ctx, exe, list(g.cover()), "reset 1 0", label="few uses")
    files = ["a.cc", "/home/x/maidsafe/common/a.cc", "C:\\maidsafe\\src\\maidsafe\\b.h", "maidsafe/a.cc", "/maidsafe/maidsafe/a.cc", "x", "/y/z.cc", "/q/maidsafe/z.cc", "z.cc"]
    fns = ["f", "void g(int)", "maidsafe::h", ""]
    for mode in ("reset 1 0", "reset 4 0", "reset 3 1"):
        hs = []
        for _ in range((25 if mode[-1] == "0" else 4) if ctx.quick else 250):
            h = []
            for _ in range(r.choice([0, 1, 3, 8, 20]) if mode[-1] == "0" else r.randint(1, 4)):
                d = [0, 0, 0, 0] if mode[-1] == "1" else [r.choice([0, 0, 1, r.randint(0, 9000)]), r.choice([0, r.randint(0, 999)]), r.randint(0, 999), r.randint(0, 999)]
                h.append(op("use", t(r.choice(files[:3] if r.random() < .5 else files)), r.choice([1, 2, 10, 9, 123]), t(r.choice(fns[:2])) if r.random() < .8 else t(r.choice(fns)), d, r.choice([1, 1, 2, 3, 7, 60] if mode[-1] == "0" else [1, 2])))
            h.append(op("report"))
            hs.append(h)
        det.validate(ctx, "Profiler", {"Files": set(), "Lines": set(), "Functions": set(), "Durations": set(), "MaxUses": 0}, exe, hs, mode, label="uses, " + mode)


def G02(ctx):
    exe = build("exe")["exe"]
    st = {("set", 0), ("set", 2), ("get", 0), ("dir", 0), ("cd", 0)}
    enum(ctx, "ExePath", exe, {"Links": {0, 1}, "Steps": st if ctx.quick else st | {("set", 3)}, "MaxLen": 3 if ctx.quick else 4}, "programs")
    r = ctx.rng
    ops = []
    for _ in range(150 if ctx.quick else 3000):
        p = [[r.choice(["set", "get", "dir", "cd", "get", "set"]), 0] for _ in range(r.randint(1, 10))]
        for x in p:
            if x[0] == "set":
                x[1] = r.randint(0, 3)
        ops.append(op("run", r.choice([0, 0, 1]), p))
    decide(ctx, "ExePath", exe, ops, {"Links": set(), "Steps": set(), "MaxLen": 0}, "programs", per=50)


def _db_history(r, n, conns=(1, 2)):
    """A history of operations allowed at their place."""
    opened, obj, old, h, tx = {}, {}, set(), [], 0
    val = lambda: [r.randint(0, 255) for _ in range(r.choice([1, 1, 2, 40]))]
    for _ in range(n):
        c = r.choice(conns)
        x = r.random()
        if c not in opened:
            m = "w" if r.random() < .9 else "r"
            opened[c] = m
            h.append(op("open", c, m))
        elif x < .05 and c not in obj and c not in old:
            del opened[c]
            h.append(op("close", c))
        elif x < .25 and obj.get(c) != "open" and opened[c] == "w":
            h.append(op("begin", c))
            if tx == 0:
                if c in obj:
                    old.add(c)
                obj[c], tx = "open", c
        elif x < .55:
            h.append(op(r.choice(["put", "put", "ins"]), c, r.randint(1, 4), val()))
        elif x < .62:
            h.append(op("del", c, r.randint(1, 4)))
        elif x < .72:
            h.append(op("list", c))
        elif x < .76:
            h.append(op("checkpoint", c))
        elif x < .8:
            h.append(op("kill"))
            opened, obj, old, tx = {}, {}, set(), 0
        elif x < .84 and c in old:
            old.remove(c)
            h.append(op("forget", c))
        elif c in obj:
            if x < .88 and obj[c] == "open":
                h.append(op("commit", c))
                obj[c] = "done"
                tx = 0
            elif x < .93 or obj[c] == "done":
                h.append(op(r.choice(["drop", "throw"]), c))
                tx = 0 if obj[c] == "open" else tx
                del obj[c]
            else:
                h.append(op(r.choice(["die", "die", "fail", "once"]), c, r.choice(["commit", "commit", "commit", "checkpoint"]), r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12])))
                opened, obj, old, tx = {}, {}, set(), 0
                h += [op("open", 1, "w"), op("list", 1)]
                opened[1] = "w"
    return h


def Q01(ctx):
    exe = build("sql")["sql"]
    c = {"Conns": {1, 2}, "Keys": {1, 2}, "Vals": {(7,)}, "Modes": {"w"}}
    g = det.explore(ctx, "Database", c)
    walks = list(g.cover())
    det.replay_walks(ctx, exe, walks if not ctx.quick else ctx.rng.sample(walks, min(len(walks), 60)), "reset", label="two connections")
    c1 = {"Conns": {1}, "Keys": {1}, "Vals": {(7,), (8, 9)}, "Modes": {"w", "r"}}
    g = det.explore(ctx, "Database", c1)
    det.replay_walks(ctx, exe, g.cover(), "reset", label="one connection")
    enum(ctx, "Database", exe, {"Conns": set(), "Keys": set(), "Vals": set(), "Modes": set()}, "files")
    r = ctx.rng
    # death and failing accesses at every point of a commit, and of a checkpoint
    hs = []
    for kind in ("die", "fail", "once"):
        for what in ("commit", "checkpoint"):
            for n in range(12 if ctx.quick else 40):
                h = [op("open", 1, "w"), op("put", 1, 1, [1]), op("begin", 1)]
                h += [op("put", 1, k, [r.randint(0, 255) for _ in range(r.choice([1, 5, 3000, 6000]))]) for k in (1, 2, 3, 4)]
                if what == "checkpoint":
                    h += [op("commit", 1)] + ([op("drop", 1)] if n % 2 else [])
                h += [op(kind, 1, what, n), op("open", 2, "w"), op("list", 2), op("put", 2, 3, [9]), op("list", 2)]
                hs.append(h)
    for _ in range(60 if ctx.quick else 2000):
        hs.append(_db_history(r, r.choice([10, 30, 60])))
    for _ in range(3 if ctx.quick else 40):
        hs.append([op("race", r.randint(2, 6), r.choice([5, 20, 40]), r.randint(0, 9999))])
    det.validate(ctx, "Database", {"Conns": {1, 2}, "Keys": {1, 2, 3, 4}, "Vals": set(), "Modes": set()}, exe, hs, "reset", label="histories", seen=True)


def Q02(ctx):
    exe = build("sql")["sql"]
    c = {"Texts": {(97,), (98,)}, "Blobs": {(), (0, 1)} if not ctx.quick else {(0, 1)}, "MaxRows": 1 if ctx.quick else 2}
    g = det.explore(ctx, "Statement", c)
    walks = list(g.cover())
    det.replay_walks(ctx, exe, walks if len(walks) < 400 else ctx.rng.sample(walks, 400), "reset", label="statements")
    r = ctx.rng
    hs = []
    text = lambda: [ord(x) for x in r.choice(["", "a", "b", "ab", "abc", "0", "12", "-1", " ", "a b", "Z", "'", '"', "1e5", "%", "null"])] if r.random() < .7 else \
        list("".join(chr(r.choice([0, r.randint(1, 127), r.randint(128, 0xd7ff), r.randint(0xe000, 0x10ffff)])) for _ in range(r.randint(1, 20))).encode())
    for _ in range(120 if ctx.quick else 4000):
        h = []
        for _ in range(r.randint(3, 14)):
            q = r.choice(["ins", "ins", "ins", "all", "key", "ge", "del", r.choice(["syntax", "notable", "nocolumn"])])
            h.append(op("prep", q))
            if q in ("syntax", "notable", "nocolumn"):
                continue
            for _ in range(r.choice([1, 1, 2, 4])):
                if q == "ins":
                    if r.random() < .9:
                        h.append(op("bind", 1, "text", text()))
                    if r.random() < .9:
                        h.append(op("bind", 2, "blob", _bytes(r, r.choice([0, 1, 5, 200]))) if r.random() < .7 else op("bind", 2, "text", text()))
                elif q != "all":
                    h.append(op("bind", 1, "text", text()))
                if r.random() < .15:
                    h.append(op("bind", r.choice([0, 3, 100]), "text", text()))
                h.append(op("step"))
                if q in ("all", "key", "ge"):
                    h += [op("more")] * r.choice([0, 1, 2, 5])
                if r.random() < .1:
                    h.append(op("bind", 1, "text", text()))
                h.append(op("again"))
            if q == "all":
                h.pop()
                h += [op("again"), op("step")] + [op("more")] * 8
        h.append(op("dump"))
        hs.append(h)
    det.validate(ctx, "Statement", {"Texts": set(), "Blobs": set(), "MaxRows": 0}, exe, hs, "reset", label="statements")


def I01(ctx):
    exe = build("proc")["proc"]
    c = {"Procs": {1, 2}, "Names": {(97,), (97, 98)}, "Lists": {(), ((0, 255),), ((1,), (), (2, 3))}, "Counts": {-1, 0, 1, 3, 4}}
    g = det.explore(ctx, "Shared", c)
    det.replay_walks(ctx, exe, g.cover(), "reset", label="two names")
    r = ctx.rng
    hs = []
    for _ in range(40 if ctx.quick else 1500):
        names = [_bytes(r, r.choice([1, 1, 2, 30, 90])) for _ in range(r.randint(1, 5))] + [[47], [0], [97], [65], [46, 46, 47, 97]]
        h = []
        for _ in range(r.choice([5, 20, 60])):
            p, n, x = r.randint(1, 4), r.choice(names), r.random()
            if x < .3:
                l = [_bytes(r, r.choice([0, 1, 3, 20, 700])) for _ in range(r.choice([0, 1, 2, 2, 5, 13]))]
                h.append(op("create", p, n, l if l != [[]] else []))
            elif x < .4:
                h.append(op("remove", p, n))
            elif x < .45:
                h.append(op("kill", p))
            elif x < .5:
                h.append(op("many", r.randint(2, 5), n, r.choice([0, 1, 2, 5])))
            else:
                h.append(op("read", p, n, r.choice([-1, 0, 1, 1, 2, 2, 5, 13, 1000])))
        hs.append(h)
    det.validate(ctx, "Shared", {"Procs": set(), "Names": set(), "Lists": set(), "Counts": set()}, exe, hs, "reset", label="shared memory")


def W01(ctx):
    exe = build("proc")["proc"]
    w = {(), (97,), (98, 99), (34, 97, 34), (97, 32, 98)}
    others = {tuple(x.encode()) for x in ("a", "ab.exe", "a.b.c", "x/y", "x.d/y", ".x", "y.")}
    c = {"Kids": {"a", "b"}, "Words": w, "MaxWords": 3, "Others": others, "Exts": {(), tuple(b".bin")}}
    g = det.explore(ctx, "Process", c)
    det.replay_walks(ctx, exe, g.cover(), "reset", label="processes")
    r = ctx.rng
    hs = []
    for _ in range(60 if ctx.quick else 2500):
        h = []
        kid = {}
        for _ in range(r.choice([5, 20, 40])):
            x = r.random()
            if x < .3:
                k = r.choice("abcde")
                n = {None: "start", "start": "exit", "exit": "reap", "reap": "drop", "drop": "start"}[kid.get(k)]
                kid[k] = n
                h.append(op(n, k))
            elif x < .6:
                h.append(op("running", r.choice([k for k in kid if kid[k] != "drop"] + ["self", "nobody", "forbidden"])))
            elif x < .65:
                h.append(op("pid", r.randint(0, 3)))
            elif x < .95:
                ws = [_bytes(r, r.choice([0, 1, 2, 5, 40])) for _ in range(r.choice([1, 1, 2, 3, 8]))]
                ws[0] = ws[0] or [47]
                if r.random() < .3:
                    ws[0] = [34] + ws[0] + [34]
                h.append(op("line", ws))
            elif x < .97:
                n = "".join(r.choice("abcX01_-./") for _ in range(r.randint(1, 20))).strip("/.")
                while "//" in n or "/." in n:
                    n = n.replace("//", "/").replace("/.", "/z.")
                h.append(op("other", list((n or "q").encode()), list(r.choice(["", ".bin", ".exe"]).encode())))
        hs.append(h)
    det.validate(ctx, "Process", {"Kids": set("abcde"), "Words": set(), "MaxWords": 0, "Others": set(), "Exts": set()}, exe, hs, "reset", label="processes")


def _datum(r, sizes=(0, 1, 2, 5, 15, 16, 17, 40), pads=(0, 0, 0, 1, 30, 300, 5000)):
    """A text as <<bytes, number of sevens after them>>."""
    b = _bytes(r, r.choice(sizes))
    while b and b[-1] == 7:
        b.pop()
    return b, r.choice(pads)


def C01(ctx):
    exe = build("crypt")["crypt"]
    c = {"Slots": {1}, "Texts": {((), 0), ((1, 2), 0), ((), 40)}, "Keys": {(-1, -1), (1, -1), (1, 3), (1, 300), (2, -1)}, "Flips": {0, 77, 143}}
    g = det.explore(ctx, "Symmetric", c)
    det.replay_walks(ctx, exe, g.cover(), "reset", label="one ciphertext")
    c = {"Slots": {1, 2}, "Texts": {((1, 2), 0)}, "Keys": {(1, -1), (1, 3)}, "Flips": {9}}
    g = det.explore(ctx, "Symmetric", c)
    walks = list(g.cover())
    det.replay_walks(ctx, exe, walks if not ctx.quick else ctx.rng.sample(walks, min(len(walks), 60)), "reset", label="two ciphertexts")
    r = ctx.rng
    # every bit of a ciphertext, every bit of a key, every shorter ciphertext
    hs = []
    n = 16 + 21
    for k in range(384):
        hs.append([op("enc", 1, [5, 1, 255], 18, 4, -1), op("dec", 1, 4, k), op("dec", 1, 4, -1)])
    for b in range(n * 8):
        hs.append([op("enc", 1, [5, 1, 255], 18, 4, -1), op("flip", 1, b), op("dec", 1, 4, -1), op("flip", 1, b), op("dec", 1, 4, -1)])
    for k in range(1, n):
        hs.append([op("enc", 1, [5, 1, 255], 18, 4, -1), op("cut", 1, k), op("dec", 1, 4, -1)])
    for _ in range(60 if ctx.quick else 3000):
        h, live = [], {}
        for _ in range(r.choice([5, 15, 40])):
            i, x = r.randint(1, 3), r.random()
            k = r.choice([-1] + [1, 2, 3] * 4), r.choice([-1, -1, -1, 0, 7, 255, 256, 383])
            if i not in live or x < .2:
                b, z = _datum(r)
                h.append(op("enc", i, b, z, *k))
                if b or z:
                    if k[0] != -1:
                        live[i] = "ok"
            elif x < .4 and live[i] == "ok":
                h.append(op("flip", i, r.randint(0, 1 << 20)))
            elif x < .45 and live[i] == "ok":
                h.append(op("cut", i, r.randint(1, 16)))
                live[i] = "sized"
            elif x < .5 and live[i] == "ok":
                h.append(op("ext", i, _bytes(r, r.choice([1, 2, 16]))))
                live[i] = "sized"
            elif x < .6:
                j = r.randint(1, 3)
                if j in live and live[i] == live[j] == "ok":
                    h.append(op(r.choice(["copy", "same"]), i, j))
            elif x < .65:
                h.append(op("size", i))
            else:
                h.append(op("dec", i, *k))
        hs.append(h)
    det.validate(ctx, "Symmetric", {"Slots": {1, 2, 3}, "Texts": set(), "Keys": set(), "Flips": set()}, exe, hs, "reset", label="ciphertexts")


def C02(ctx):
    exe = build("crypt")["crypt"]
    c = {"Slots": {1}, "Texts": {((1,), 0), ((0, 255, 3), 13)}, "Sizes": {-1, 0, 1, 2, 3, 4}}
    g = det.explore(ctx, "Sharing", c)
    det.replay_walks(ctx, exe, g.cover(), "reset", label="every way to join up to 4 parts")
    r = ctx.rng
    hs = []
    for k in range(150 if ctx.quick else 6000):
        n = r.choice([3, 3, 4, 5, 8, 16, 40])
        t = r.randint(2, n)
        if r.random() < .1:
            n, t = r.choice([(2, 2), (3, 1), (3, 4), (-1, -1), (0, 0), (5, 0), (1, 1), (2, 1)])
        b, z = _datum(r)
        if not b and not z:
            b = [9]
        kind = r.choice(["share", "disperse"])
        h = [op("split", 1, kind, t, n, b, z)]
        if r.random() < .1:
            h.append(op("join", 1, kind, []))
        if 2 <= t <= n >= 3:
            for _ in range(6):
                m = t if kind == "disperse" or r.random() < .4 else r.randint(t, n)
                if r.random() < .25:
                    m = r.randint(1, t - 1)
                h.append(op("join", 1, kind, r.sample(range(1, n + 1), m)))
        hs.append(h)
    det.validate(ctx, "Sharing", {"Slots": {1}, "Texts": set(), "Sizes": set()}, exe, hs, "reset", label="parts", seen=True)


def C03(ctx):
    exe = build("crypt")["crypt"]
    c = {"Slots": {1, 2}, "Texts": {((), 0), ((1, 2), 0), ((), 40)}, "Levels": {0, 1, 9, 10, 65535}}
    g = det.explore(ctx, "Gzip", c)
    det.replay_walks(ctx, exe, g.cover(), "reset", label="two texts")
    r = ctx.rng
    hs = [[op("zip", 1, [3, 1, 4], 20, 9), op(k, 1, x), op("unzip", 1)] for k, m in (("flip", 8 * 20), ("cut", 20)) for x in range(1, m)]
    for _ in range(150 if ctx.quick else 6000):
        h, dirty = [], {}
        for _ in range(r.choice([3, 10])):
            i, x = r.randint(1, 2), r.random()
            if i not in dirty or x < .4:
                b, z = _datum(r, (0, 1, 5, 40, 300), (0, 0, 1, 300, 5000, 70000))
                l = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10, 11, 255, 256, 65535])
                h.append(op("zip", i, b, z, l))
                if l <= 9 and (b or z):
                    dirty[i] = False
            elif x < .6 and not dirty[i]:
                dirty[i] = True
                h.append(r.choice([op("flip", i, r.randint(0, 1 << 20)), op("cut", i, r.randint(1, 12)), op("ext", i, _bytes(r, r.choice([0, 2, 29])) + [1])]))
            else:
                h.append(op("unzip", i))
        hs.append(h)
    det.validate(ctx, "Gzip", {"Slots": {1, 2}, "Texts": set(), "Levels": set()}, exe, hs, "reset", label="texts", seen=True)
    probe = ["zip 1 3,1 0 6", "ext 1 99,98", "unzip 1"]
    out, _ = det.run_driver(exe, probe)
    if out[-1] == [[3, 1, 99, 98], 0]:
        ctx.violation("bytes appended to a compressed text are part of what it uncompresses to", {"script": probe}, key="appended-bytes")


def C04(ctx):
    exe = build("crypt")["crypt"]
    c = {"Slots": {1}, "Texts": {((), 0), ((1, 2), 0), ((), 300)}, "Keys": {0, 1, 2}, "Flips": {100, 1000, 2047}}
    g = det.explore(ctx, "Rsa", c)
    det.replay_walks(ctx, exe, g.cover(), "reset", label="one object")
    r = ctx.rng
    hs = []
    for _ in range(80 if ctx.quick else 3000):
        h, what, edited, size = [], {}, set(), {}
        texts = [_datum(r) for _ in range(2)] + [([], 0)]
        for _ in range(r.choice([4, 8, 16])):
            i, x = r.randint(1, 2), r.random()
            k = r.choice([0] + [1, 2, 3] * 5)
            b, z = r.choice(texts)
            w = what.get(i)
            if w is None or x < .25:
                n = r.choice(["sign", "signfile", "seal", "save"])
                if n == "save":
                    m = r.choice(["private", "public"])
                    h.append(op("save", i, m, k))
                    if k:
                        what[i] = m
                else:
                    h.append(op(n, i, b, z, k))
                    m = {"sign": "sig", "signfile": "sig", "seal": "ct"}[n]
                    if k and (b or z or n == "signfile"):
                        what[i] = m
                        size[i] = len(b) + z
                if what.get(i) == m and (m in ("private", "public") and k or k and (b or z or n == "signfile")):
                    edited.discard(i)
            elif x < .4 and w in ("sig", "ct") and i not in edited:
                bit = r.randint(0, 2047)
                if w == "ct":  # not in the sizes: reserving what they say is up to the serialisation library
                    n = size[i] + 16
                    bit = r.choice([r.randint(64, 64 + 8 * n - 1), r.randint(128 + 8 * n, 128 + 8 * n + 2047)])
                h += [op("flip", i, bit)]
                if r.random() < .7:
                    edited.add(i)
                else:
                    h += [op("flip", i, bit)]
            elif x < .45 and i not in edited:
                h.append(op("ext", i, [r.randint(0, 255) for _ in range(r.choice([1, 2, 100]))]) if w == "sig" and r.random() < .5 else op("cut", i, r.randint(1, 200)))
                edited.add(i)
            elif x < .5:
                h.append(op("match", r.choice(["private", "public"]), r.randint(1, 3), r.randint(1, 3)))
            elif w == "sig":
                h.append(op(r.choice(["check", "check", "checkfile"]), i, *(r.choice(texts)), r.choice([k] * 9 + [10, 11])))
            elif w == "ct":
                h.append(op("open", i, k))
            else:
                h.append(op("load", i, r.choice(["private", "public"])))
        hs.append(h)
    det.validate(ctx, "Rsa", {"Slots": {1, 2}, "Texts": set(), "Keys": {0, 1, 2, 3}, "Flips": set()}, exe, hs, "reset", label="objects")


LABEL = b"MaidSafe Version 1 Key Derivation"


def _pbkdf2(password, salt, pin, label=LABEL):
    import hashlib
    return list(hashlib.pbkdf2_hmac("sha512", bytes(password), bytes(salt) + label, pin % 10000 + 10000, 48))


def C05(ctx):
    import hashlib
    exe = build("crypt")["crypt"]
    det.explore(ctx, "Derived", {"Missing": set()})
    r = ctx.rng
    ops = []
    for _ in range(60 if ctx.quick else 2000):
        pw, salt = _bytes(r, r.choice([1, 2, 8, 40, 127, 128, 129, 200])), _bytes(r, r.choice([1, 2, 8, 64, 200]))
        if r.random() < .1:
            pw, salt = r.choice([([], salt), (pw, []), ([], [])])
        pin = r.choice([0, 1, 9999, 10000, 10001, 19999, 65535, 65536, 99999, 2 ** 31, 2 ** 32 - 1, r.randint(0, 2 ** 32 - 1)])
        label = r.choice([None, None, [97], _bytes(r, 10)])
        ref = _pbkdf2(pw, salt, pin, LABEL if label is None else bytes(label)) if pw and salt else []
        ops.append(op("derive", pw, salt, str(pin), 0 if label is None else label, ref))
    for _ in range(400 if ctx.quick else 20000):
        t = _bytes(r, r.choice([0, 1, 3, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 300]))
        k = r.choice([1, 256, 384, 512])
        ops.append(op("hash", k, t, list(hashlib.new("sha%d" % k, bytes(t)).digest())))
    decide(ctx, "Derived", exe, ops, {"Missing": set()}, "derived")


def U03(ctx):
    import hashlib
    exe = build("crypt")["crypt"]
    m = {(a, b, c) for a in ((), (120,)) for b in ((), (49,)) for c in ((), (121,))} - {((120,), (49,), (121,))}
    g = det.explore(ctx, "Derived", {"Missing": m})
    det.replay_walks(ctx, exe, g.cover(), "reset", label="missing credentials")
    sha = lambda *x: hashlib.sha512(b"".join(bytes(y) for y in x)).digest()
    r = ctx.rng
    ops = []
    for _ in range(40 if ctx.quick else 1500):
        kw, pw = _bytes(r, r.choice([1, 2, 8, 40])), _bytes(r, r.choice([1, 2, 8, 130]))
        pin = r.choice(["0", "1", "00", "5000", "10000", "2147483648", "4294967295", "4294967296", "12345678901", str(r.randint(0, 10 ** 6))])
        pb = list(pin.encode())
        if r.random() < .15:
            kw, pb, pw = r.choice([([], pb, pw), (kw, [], pw), (kw, pb, [])])
        if r.random() < .6:
            pad = _pbkdf2(kw, sha(pw, sha(pb)), int(pin) * 2 % 2 ** 64 % 2 ** 32)
            b, z = _bytes(r, r.choice([1, 2, 47, 48, 49, 95, 96, 97, 150, 400])), r.choice([0, 0, 1, 500])
            ops.append(op("obfuscate", kw, pb, pw, b, z, pad))
            if kw and pb and pw:  # and back
                d = b + [7] * z
                ops.append(op("obfuscate", kw, pb, pw, [x ^ pad[i % 48] for i, x in enumerate(d)], 0, pad))
        else:
            ops.append(op("userkey", kw, pb, pw, _pbkdf2(pw, sha(sha(pb), pw), int(pin) % 2 ** 32) if pw else []))
    decide(ctx, "Derived", exe, ops, {"Missing": set()}, "credentials")


def U01(ctx):
    exe = build("secret")["secret"]
    c = {"Kinds": {("ge", 1), ("eq", 2)}, "Texts": {(49,), (97, 50)}, "Positions": {0, 1, 3}, "Counts": {0, 1, 2}, "MaxEntries": 3 if ctx.quick else 4}
    if ctx.quick:
        c["Counts"] = {1, 2}
    g = det.explore(ctx, "SecureInput", c)
    walks = list(g.cover())
    det.replay_walks(ctx, exe, walks if len(walks) < 3000 else ctx.rng.sample(walks, 3000), "reset", label="small inputs")
    r = ctx.rng
    kinds = [("ge", 0), ("ge", 1), ("ge", 1), ("ge", 1), ("ge", 3), ("eq", 2), ("eq", 4), ("le", 2), ("le", 5)]
    hs = []

    def text(lo=1):
        x = r.random()
        n = max(lo, r.choice([0, 1, 1, 1, 2, 3, 5, 20]))
        if x < .45:
            return [r.choice(b"0123456789") for _ in range(n)]
        if x < .8:
            return [r.choice(b"abz 019A") for _ in range(n)]
        return _bytes(r, n)

    for _ in range(800 if ctx.quick else 12000):
        h = []
        k = r.choice(kinds)
        if r.random() < .35:
            t = text(0)
            h.append(op("from", *k, t))
            if not {"ge": len(t) >= k[1], "eq": len(t) == k[1], "le": len(t) <= k[1]}[k[0]]:
                h.append(op("new", *k))
        else:
            h.append(op("new", *k))
            if r.random() < .6:  # typed in some order
                order = list(range(r.choice([1, 2, 4, 5, 9])))
                if r.random() < .5:
                    r.shuffle(order)
                h += [op("insert", p, text() if r.random() < .1 else [r.choice(b"0123456789a")]) for p in order]
        for _ in range(r.choice([3, 10, 20])):
            x = r.random()
            if x < .2:
                h.append(op("insert", r.choice([0, 0, 1, 2, 3, 4, 6, 9, 1000]), text() if r.random() < .2 else [r.choice(b"0123456789 a")]))
            elif x < .35:
                h.append(op("remove", r.choice([0, 0, 1, 2, 3, 5]), r.choice([0, 1, 1, 1, 2, 3, 50])))
            elif x < .4:
                h.append(op("clear"))
            elif x < .6:
                h += [op("finalise"), op("finalised")]
            elif x < .75:
                h.append(op("valid", r.choice(["digit", "lower", "nonblank", "any"])))
            else:
                h.append(op(r.choice(["read", "hash", "value"])))
        if r.random() < .2:
            h.append(op("string", t := text(0) if r.random() < .5 else []))
            if t:
                h.append(op("get"))
                if r.random() < .5:
                    t = None
            if not t:
                for _ in range(r.randint(1, 3)):
                    h.append(op("empty"))
                    h += [op("append", text()) for _ in range(r.randint(0, 3))] + [op("end"), op("get")]
        hs.append(h)
    for t in ("18446744073709551615", "18446744073709551616", "0018446744073709551615", "99999999999999999999", "100000000000000000000",
              "4294967296", "2147483648", " 12", "12x", "", "x", " ", "0", "000"):
        hs.append([op("from", "ge", 0, list(t.encode())), op("value"), op("read"), op("valid", "digit"), op("hash")])
    for _ in range(60 if ctx.quick else 600):
        k = r.choice(["first", "second", "neither"])
        n = lambda h: 64 if h else r.choice([0, 1, 2, 15, 16, 63, 64, 200])
        hs.append([op("move", r.choice(["construct", "assign", "replace"]), *[_bytes(r, r.choice([0, 1, 4, 20])) for _ in range(3)])])
        hs.append([op("join", k, _bytes(r, n(k == "first")), _bytes(r, n(k == "second")))])
    det.validate(ctx, "SecureInput", {"Kinds": set(), "Texts": set(), "Positions": set(), "Counts": set(), "MaxEntries": 0}, exe, hs, "reset", label="edits")


LOG_PATHS = ["/x/common/src/maidsafe/common/log.cc", "C:\\a\\routing\\src\\maidsafe\\routing\\d\\x.h", "/maidsafe/vault/src/maidsafe/vault/y.cc",
             "file.cc", "src/maidsafe/z.cc", "drive/src/maidsafe/drive/maidsafe.h", "/src/maidsafe/q.cc", "x/y/maidsafe", "/a/vault_manager/lib/maidsafe/f.cc",
             "nfs/src/maidsafe-x/f.cc", "a/encrypt/include\\maidsafe/e\\f.h", "/other/src/maidsafe/o.cc", "/a/api//maidsafe/f.cc", "maidsafe/f.cc", ""]
LOG_VALUES = ["v", "Verbose", "kverbose", "-1", "I", "info", "kInfo", "0", "s", "SUCCESS", "1", "W", "warning", "kwarning", "2", "e", "Error", "kError", "3",
              "a", "always", "kAlways", "4", "nonsense", "5", "vv", "k"]


def G01(ctx):
    exe = build("logs")["logs"]
    b = lambda t: tuple(t.encode())
    c = {"Paths": {b(LOG_PATHS[i]) for i in ((0, 1, 3, 4) if ctx.quick else (0, 1, 2, 3, 4, 6, 7, 11))},
         "Levels": {-1, 2} if ctx.quick else {-1, 0, 2, 4}, "Values": {b("w"), b("E")} if ctx.quick else {b("w"), b("E"), b("0"), b("x")}}
    files = lambda f: sorted((json.dumps(n), json.dumps(l)) for n, l in f)
    g = det.explore(ctx, "Log", c)
    det.replay_walks(ctx, exe, g.cover(), "reset", label="one message",
                     compare=lambda o, want, got: isinstance(got, list) and len(got) == 3 and want[:2] == got[:2] and files(want[2]) == files(got[2]))
    r = ctx.rng
    ops = []
    for _ in range(500 if ctx.quick else 8000):
        values, opts = [], []
        for _ in range(2):  # command line, file
            o = []
            if r.random() < .6:
                for p in r.sample(range(12), r.choice([0, 1, 1, 2, 4])) if r.random() < .7 else [0, r.randint(1, 11)]:
                    values.append(list(b(r.choice(LOG_VALUES))))
                    o.append([p, len(values)])
            opts.append(o)
        paths = [list(b(x)) for x in r.sample(LOG_PATHS[:-1], r.randint(1, 8))]
        texts = [[r.choice([9] + list(range(32, 127)) + [200, 255]) for _ in range(r.choice([1, 3, 10, 60, 300]))] for _ in range(6)]
        texts[0] = list(b"%s %d %n"[:r.randint(1, 8)])
        msgs = []
        k = r.choice([1, 1, 1, 2, 3, 4])
        for t in range(1, k + 1):
            for _ in range(r.choice([1, 3, 8, 20])):
                lev = r.choice([-1, 0, 1, 2, 3, 4, -1, 0, 1, 2, 3, 4, 5, -2])
                if t == 1 and r.random() < .15:
                    lev = 100 + r.randint(0, 4)
                msgs.append([t, lev, r.choice([0, 1, 42, 99999]), r.randint(1, len(paths)), r.randint(1, len(texts))])
        flags = [int(r.random() < .4), int(r.random() < .5), int(r.random() < .2), r.choice([-2, -2, 0, 1, 2, -1, 0, 1, 2, 2, 3]), r.choice([1, 1, 1, 1, 0, 2]), int(r.random() < .05)]
        if flags[2] and not any(m[1] >= 100 for m in msgs):  # files only: any bytes
            for t in texts[1:]:
                t[r.randrange(len(t))] = 0
        extra = [list(b(x)) for x in r.sample(["foo", "--bar", "-x", "a b", "--bar=1"], r.choice([0, 0, 1, 3]))]
        ops.append(op("run", flags, opts[0], opts[1], values, paths, texts, msgs, extra))
    det.validate(ctx, "Log", {"Paths": set(), "Levels": set(), "Values": set()}, exe, [[o] for o in ops], "reset", label="runs", seen=True)
