from core import *


def drv(chk):
    return build_sched(chk, "thread_drv", ["thread_drv.c"], ["thread/sc_thread.c", "mutex/sc_mutex.c"], incs=["thread", "mutex"])


LOCKS = ["l0u0 l0u0", "l0u0l0u0 l0u0", "l0u0 l0u0 l0u0", "l0l1u1u0 l0l1u0u1", "l0u0l1u1 l1u1l0u0", "l0u0l0u0 l0u0l0u0 l0u0l0u0", "l0u0l1u1l2u2 l0l1l2u2u1u0 l1u1",
         "l0u0 l0u0 l0u0 l0u0", "s0l0u0j0 l0u0", "s0s1j0j1 l3u3", "l3s0u3j0", "s0j0s0j0 l3u3l3u3"]


def run_thread(chk):
    b = drv(chk)
    rng = chk.rng
    tests = [t for t in model_check(chk, "thread", "ThreadImpl", gen=True)]
    if not validate_runs(chk, b, "thread", "TraceThread", ["mutex %d" % i for i in range(5)], what="failing mutex set-up"):
        return
    # operation sequences of the model; many per process
    mx = max(len(t) for t in tests)
    longest = [t for t in tests if len(t) == mx]
    use = longest if chk.thorough else rng.sample(longest, min(len(longest), 220))
    cmds = ["run 2 %d 0 %s" % (chk.n(400, 3000), t) for t in use]
    if not validate_runs(chk, b, "thread", "TraceThread", cmds, what="ThreadImpl sequences"):
        return
    cmds = []
    for p in LOCKS:
        cmds.append("run 2 %d 0 %s" % (chk.n(8000, 200000), p))
        cmds.append("run 99 %d %d %s" % (chk.n(2000, 40000), rng.randrange(1, 1 << 40), p))
    for _ in range(chk.n(30, 300)):
        s = []
        for _ in range(rng.randrange(2, 5)):
            q = ""
            for _ in range(rng.randrange(1, 4)):
                ms = sorted(rng.sample(range(3), rng.randrange(1, 4)))
                us = ms[:]
                rng.shuffle(us)
                q += "".join("l%d" % m for m in ms) + "".join("u%d" % m for m in us)
            s.append(q)
        if rng.random() < .5:
            q = "".join(rng.choice(["s0j0", "s1t1", "c0j0", "a1t1", "s2s1j1t2", "j0", "s0J0", "j2j2"]) for _ in range(2))
            s[0] = q
        cmds.append("run 99 %d %d %s" % (chk.n(800, 6000), rng.randrange(1, 1 << 40), " ".join(s)))
    validate_runs(chk, b, "thread", "TraceThread", cmds, what="lock and thread scenarios")


CHECKS = {"C17": (run_thread, "model_checking")}
