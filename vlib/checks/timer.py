from core import *

ORIGINS = [0, 1000, 15, 16, 1600000000123, (1 << 32) - 7, (1 << 32), (1 << 48) + 5, (1 << 63) - 100]


def drv(chk):
    return build(chk, "timer_drv", ["timer_drv.c", "vf.c"], ["timer/sc_timer.c"], incs=["timer"])


def pick_timeout(rng):
    r = rng.random()
    if r < .25:
        return rng.choice([0, 1, 15, 16, 17, 31, 32, 33, 239, 240, 241, 255, 256, 257, 271, 272, 273, 511, 512, 513, 4095, 4096])
    if r < .6:
        return rng.randrange(0, 300)
    if r < .9:
        return rng.randrange(0, 5000)
    if r < .97:
        return rng.randrange(0, 100000)
    return rng.choice([1 << 31, 1 << 32, (1 << 32) + 16, (1 << 36), 1 << 40, 1 << 62, (1 << 63) + 99, (1 << 64) - 1, (1 << 64) - 1, (1 << 64) - 2, (1 << 64) - 1001, (1 << 64) - 16])


def pick_step(rng, style):
    if style == 0:
        return 16
    if style == 1:
        return rng.choice([1, 2, 5, 7])
    if style == 2:
        return rng.choice([15, 16, 17, 31, 33])
    if style == 3:
        return rng.choice([0, 1, 16, 100, 239, 240, 255, 256, 257, 272, 300, 512, 1000])
    if style == 4:
        return rng.randrange(0, 40)
    if rng.random() < .15:
        return rng.choice([1 << 32, 1 << 36, 1 << 40]) + rng.choice([0, 0, 5, 16, 100, 256])
    return rng.choice([1, 16, 31, 5000, 4096, 100000, 17])


def random_chunk(rng, nops, faults=0.0, reentrant=.3, burst=False):
    c = ["begin %d" % rng.choice(ORIGINS)]
    n = 0
    now = 0
    live = []
    style = rng.randrange(6)
    pend_bias = rng.choice([.2, .4, .6])
    same = rng.random() < .3
    T0 = pick_timeout(rng)
    for i in range(nops):
        if i % 30 == 29:
            style = rng.randrange(6)
            pend_bias = rng.choice([.15, .4, .6, .8])
        if faults and rng.random() < faults:
            c.append("fail 1")
        r = rng.random()
        if r < .008:
            c.append(rng.choice(["clear", "term", "cancelnone"]))
        elif rng.random() < pend_bias:
            k = rng.choice([1, 1, 1, 5, 9, 20]) if not burst else rng.choice([30, 70])
            for _ in range(k):
                n += 1
                c.append("add %d %d" % (n, T0 if same and rng.random() < .7 else pick_timeout(rng)))
                live.append(n)
                if rng.random() < reentrant:
                    m = n
                    for _ in range(rng.choice([1, 1, 2, 6])):
                        q = rng.random()
                        if q < .6:
                            n += 1
                            c.append("in %d add %d %d" % (m, n, pick_timeout(rng)))
                            live.append(n)
                        elif q < .98:
                            c.append("in %d cancel %d" % (m, rng.choice(live)))
                        else:
                            c.append("in %d clear" % m)
        elif live and rng.random() < .3:
            x = rng.choice(live[-40:])
            c.append("cancel %d" % x)
        else:
            now += pick_step(rng, style)
            c.append("poll %d" % now)
        if len(c) > 3500 or n > 15000:
            break
    for d in (16, 16, 300, 4096, 6000, 200000):
        now += d
        c.append("poll %d" % now)
    return c + ["end"]


def run_timer(chk, mode):
    b = drv(chk)
    rng = chk.rng
    env = {"MODE": mode}
    tests = model_check(chk, "timer", "TimerImpl", gen=True)
    if chk.thorough:
        model_check(chk, "timer", "TimerImpl", "TimerImplBig", heap="12g")
    sel = tests if chk.thorough else tests[rng.randrange(3)::3]
    chunks = []
    for k, t in enumerate(sel):
        ops = t.strip(";").split(";")
        last = max([0] + [int(o.split()[1]) for o in ops if o.startswith("poll")])
        ops += ["poll %d" % (last + d) for d in ((16, 32, 300, 320, 1000) if k % 2 else (31, 62, 93, 330, 616))]
        chunks.append(["begin %d" % ORIGINS[k % len(ORIGINS)]] + ops + ["end"])
    if not validate(chk, b, "timer", "TraceTimer", chunks, env=env, what="TimerImpl transitions"):
        return
    chunks = [random_chunk(rng, chk.n(150, 400)) for _ in range(chk.n(120, 1500))]
    chunks += [random_chunk(rng, 60, reentrant=0) for _ in range(chk.n(60, 600))]
    chunks += [random_chunk(rng, 14, burst=True, reentrant=.1) for _ in range(chk.n(6, 60))]
    if not validate(chk, b, "timer", "TraceTimer", chunks, env=env, what="random histories"):
        return
    # one timer, every timeout around the wheel revolutions, every regular poll rhythm
    chunks = []
    touts = list(range(0, 36)) + [d + k for d in (240, 256, 272, 512, 1024) for k in (-1, 0, 1, 15)]
    for step in (1, 3, 15, 16, 17, 24, 31, 32, 48, 255, 256, 257, 272, 300):
        for off in (0, 5, 16, 100):
            c = ["begin %d" % rng.choice(ORIGINS)]
            if off:
                c.append("poll %d" % off)
            sub = touts if chk.thorough else rng.sample(touts, 14)
            n = 0
            for T in sub:
                n += 1
                c.append("add %d %d" % (n, T))
            now = off
            for _ in range(min(400, 1300 // step + 3)):
                now += step
                c.append("poll %d" % now)
            chunks.append(c + ["end"])
    # polls after a silence of 2^k ticks (or ms): everything due fires in that poll
    for k in (8, 12, 16, 31, 32, 33, 35, 36, 37, 40, 47, 48, 52, 62):
        for d in (0, 1, 16, 40):
            c = ["begin %d" % rng.choice(ORIGINS[:7])]
            c += ["add %d %d" % (i + 1, T) for i, T in enumerate([0, 5, 16, 100, 240, 256, 300, 4096, 1 << 20, (1 << k) - 1, 1 << k, (1 << k) + d])]
            c += ["poll %d" % x for x in (7, 7 + (1 << k) + d, (1 << k) + d + 39, (1 << k) + d + 400)]
            chunks.append(c + ["end"])
    if not validate(chk, b, "timer", "TraceTimer", chunks, env=env, what="regular poll rhythms"):
        return
    # thousands in one slot or spread over all of them
    chunks = []
    for cnt in (300, 5000, 33000, 70000) + ((140000,) if chk.thorough else ()):
        for _ in range(chk.n(3, 6)):
            c, n, now = ["begin %d" % rng.choice(ORIGINS)], 0, 0
            for bk in range(rng.choice([1, 2, 4])):
                k = cnt if bk == 0 else cnt // rng.choice([2, 3, 50])
                c.append("bulk %d %d %d" % (bk, k, rng.choice([0, 5, 100, 100, 255, 5000, 1 << 20])))
                if rng.random() < .6:
                    n += 1
                    c.append("add %d %d" % (n, rng.choice([0, 5, 100, 100, 255, 5000])))
                if rng.random() < .4:
                    c.append("bcancel %d %d %d" % (rng.randrange(bk + 1), rng.randrange(3), rng.choice([1, 2, 7, 1000])))
                if rng.random() < .3:
                    now += rng.choice([1, 16, 17])
                    c.append("poll %d" % now)
            if rng.random() < .2:
                c += ["clear", "bulk 0 %d 100" % cnt]
            for d in (16, 16, 100, 300, 6000, 1 << 21):
                now += d
                c += ["bcancel 0 %d 11" % rng.randrange(5)] if rng.random() < .3 else []
                c.append("poll %d" % now)
                if rng.random() < .3:
                    n += 1
                    c.append("add %d %d" % (n, rng.choice([0, 5, 100])))
            chunks.append(c + ["end"])
    validate(chk, b, "timer", "TraceTimer", chunks, env=env, what="bulks of timers")


def oom_suites(chk):
    rng = chk.rng
    yield (drv(chk), "timer", "TraceTimer", [random_chunk(rng, 80, faults=rng.choice([.05, .4])) for _ in range(chk.n(25, 400))]
           + [["begin 0"] + sum([["fail 1", "add %d 5" % i] if i in (1, 5, 6, 9) else ["add %d 5" % i] for i in range(1, 40)], []) + ["poll 16", "poll 32", "end"]], "timer", {"MODE": "safety"})


CHECKS = {"C06": (lambda c: run_timer(c, "safety"), "model_checking"), "C07": (lambda c: run_timer(c, "progress"), "model_checking")}
