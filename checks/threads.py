import subprocess
from vlib import conc, det
from . import build


def A01(ctx):
    exe = build("active")["active"]
    conc.model_check(ctx, "ActiveObject")
    r = ctx.rng
    jobs = []
    n = 2500 if ctx.quick else 40000
    for pol in conc.policies(r, n):
        k = r.randint(1, 3)
        prog = [[(1, 10 * (t + 1) + i + 1, r.choice([0, 0, 0, 1, 1, 2]), r.choice([1, 1, 2])) for i in range(r.randint(1, 3))]
                for t in range(k)]
        jobs.append((r.randint(1, 10 ** 9), pol, [r.choice([0, 0, 0, 1, 2, 3])], prog))
    conc.validate(ctx, "ActiveObject", exe, jobs, label="active object", inv=False)


def A02(ctx):
    exe = build("squeue")["squeue"]
    conc.model_check(ctx, "SharedQueue")
    r = ctx.rng
    jobs = []
    n = 2500 if ctx.quick else 40000
    for pol in conc.policies(r, n):
        k = r.randint(2, 4)
        v = [0]
        ops = []
        for t in range(k):
            th = []
            for i in range(r.randint(1, 4)):
                o = r.choice([1, 1, 1, 2, 2, 3, 4, 5])
                if o == 1:
                    v[0] += 1
                    th.append((1, v[0]))
                else:
                    th.append((o,))
            ops.append(th)
        jobs.append((r.randint(1, 10 ** 9), pol, [0], ops))
    conc.validate(ctx, "SharedQueue", exe, jobs, label="queue", inv=False)


def A03(ctx):
    exe = build("iopool")["iopool"]
    conc.model_check(ctx, "IoPool")
    r = ctx.rng
    jobs = []
    n = 2000 if ctx.quick else 30000
    for pol in conc.policies(r, n):
        k = r.randint(1, 3)
        stopper = r.random() < .5
        prog = []
        for t in range(k):
            th = []
            for i in range(r.randint(1, 3)):
                id = 10 * (t + 1) + i + 1
                o = r.choice([1, 1, 1, 4, 3, 2] if stopper else [1, 1, 1, 4, 3])
                th.append((1, id, r.choice([0, 0, 1, 1, 2]), r.choice([1, 1, 2])) if o == 1 else (4, id) if o == 4 else (o,))
            prog.append(th)
        jobs.append((r.randint(1, 10 ** 9), pol, [r.choice([1, 1, 2, 2, 3, 4, 0]), r.randint(0, 1), r.randint(0, 3)], prog))
    conc.validate(ctx, "IoPool", exe, jobs, label="I/O threads", inv=False)


def U02(ctx):
    exe = build("secmem")["secmem"]
    conc.model_check(ctx, "Pages")
    r = ctx.rng
    jobs = []
    n = 3000 if ctx.quick else 60000
    for pol in conc.policies(r, n):
        k = r.choice([1, 1, 2, 2, 3])
        at = [r.choice([0, 0, 4096 - 64, 4096 - 8]), 300 * 4096]   # next free offset of each kind
        prog = []
        for t in range(k):
            th, mine, id = [], [], 10 * (t + 1)
            for i in range(r.randint(1, 6)):
                x = r.random()
                if mine and x < .35:
                    th.append((2, mine.pop(r.randrange(len(mine)))))
                elif x < .8:
                    id += 1
                    kind = r.choice([1, 1, 1, 2, 3, 4, 5])
                    size = [0, 1, 4, 24, 1, 24][kind]
                    cnt = r.choice([1, 1, 3, 40, 4096 // size, 4096 // size + 1, 8200 // size])
                    z = kind > 3
                    th.append((1, id, kind, at[z], cnt))
                    at[z] += (size * cnt + 7) // 8 * 8 + r.choice([0, 0, 0, 8, 2000, 4096])
                    mine.append(id)
                elif x < .86:
                    th.append((3, (400 + 40 * t + i) * 4096 + r.choice([0, 4000]), r.choice([1, 16, 30, 100, 300])))
                elif x < .95:
                    th.append((4,))
                else:
                    th.append((5, r.randint(1, 3)))
            prog.append(th)
        if at[0] < 300 * 4096 and at[1] < 400 * 4096:
            jobs.append((r.randint(1, 10 ** 9), pol, [0], prog))
    conc.validate(ctx, "Pages", exe, jobs, label="secret memory", inv=False)


def F02(ctx):
    exe = build("rnd", "rndcalls")
    r = ctx.rng
    hs = [[det_op("fresh", 0), det_op("fresh", 1), det_op("fresh", 2)]]
    for k in range(1, 7):
        s = r.randint(0, 2 ** 31 - 1)
        hs.append([det_op("seed", s), det_op("many", k, 2, 5, 4000 if k < 5 else 3000), det_op("many", k, 1, 1, 8000 if k < 5 else 3000)])
        hs.append([det_op("seed", s), det_op("many", k, 0, 2, 9000), det_op("many", k, 7, 40, 3000)])
    for _ in range(250 if ctx.quick else 4000):
        h, calls = [], []
        for _ in range(r.randint(1, 8)):
            k = r.randint(1, 6)
            a = r.choice([0, 1, 2, 5, 12, 16, 64, 200, 1000]) if k < 5 else 0
            b = -1 if k > 4 or r.random() < .6 else a + r.choice([0, 1, 2, 30, 300])
            calls.append(det_op("get", k, a, b))
        seeds = [r.choice([0, 1, 5489, 2 ** 31 - 1, r.randint(0, 2 ** 31 - 1)]) for _ in range(2)]
        for s in seeds + seeds[:1]:
            h.append(det_op("seed", s))
            h += calls[:r.randint(1, len(calls))]
        hs.append(h)
    det.validate(ctx, "Random", {"Env": set()}, exe["rnd"], hs, "reset", label="random values", seen=True)
    conc.model_check(ctx, "RandomCalls")
    jobs = []
    for pol in conc.policies(r, 1500 if ctx.quick else 30000):
        prog = [[(1,)] * r.randint(1, 4) for _ in range(r.randint(1, 4))]
        kind = r.randint(1, 6)
        jobs.append((r.randint(1, 10 ** 9), pol, [r.randint(0, 2 ** 31 - 1), kind, r.choice([12, 16, 40, 70, 150, 300])], prog))
    conc.validate(ctx, "RandomCalls", exe["rndcalls"], jobs, label="random values", inv=False)


def det_op(n, *a):
    return {"n": n, "a": list(a)}


def A05(ctx):
    exe = build("spin")["spin"]
    free = build("spinfree")["spinfree"]
    conc.model_check(ctx, "Spinlock")
    r = ctx.rng
    section = lambda nest: (r.choice([0, 1, 2, 3, 8, 9, 21, 60]),) + ((1, 2) if nest and r.random() < .3 else (r.choice([1, 1, 2]),))
    jobs = [(r.randint(1, 10 ** 9), pol, [0], [[section(True) for _ in range(r.randint(1, 4))] for _ in range(r.randint(2, 4))])
            for pol in conc.policies(r, 1500 if ctx.quick else 25000)]
    conc.validate(ctx, "Spinlock", exe, jobs, label="spin lock", inv=False)
    # threads left to themselves: what one section writes is seen in the next
    jobs = [(r.randint(1, 10 ** 9), (0, 0, 0, 0), [0], [[section(False) for _ in range(r.choice([3, 10, 30]))] for _ in range(r.randint(2, 4))])
            for _ in range(60 if ctx.quick else 1500)]
    p = subprocess.run([free], input=b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if b"unexpected memory mapping" in p.stderr:  # the sanitiser cannot run here
        return
    conc.validate(ctx, "Spinlock", free, jobs, label="spin lock, free threads", inv=False, env={"TSAN_OPTIONS": "halt_on_error=1 exitcode=66"}, procs=4)
