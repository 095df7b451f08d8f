from core import *


def drv(chk):
    return build_sched(chk, "cond_drv", ["cond_drv.c"], ["condition/sc_cond.c"], incs=["condition"])


PAIRS = ["w a", "ww ab", "ww a b", "w w a", "w w a b", "w w ab", "ww a z", "w abc", "wa bw", "wwa bw", "wa w b", "w w w ab", "w w w a b", "w w a b c", "www abc",
         "aw bw", "awb cw", "w w abz", "ww w ab c", "wz w a", "w w a b a", "w awb w", "a b c w", "ab cd ww", "w z z", "www a b c", "ww ww ab", "ww ww abc", "ww ww ab cd"]


def run_cond(chk):
    b = drv(chk)
    rng = chk.rng
    for c in chk.n("AC", "ABC"):
        model_check(chk, "cond", "CondImpl", "CondImpl" + c)
    if not validate_runs(chk, b, "cond", "TraceCond", ["init %d" % i for i in range(8)], what="failing set-up and destruction"):
        return
    cmds = []
    for p in PAIRS:
        n = len(p.replace(" ", ""))
        t = p.count(" ") + 1
        cmds.append("run %d 1 %d 0 %s" % (chk.n(2 if n <= 4 else 1, 3 if n <= 4 else 2), chk.n(12000, 300000), p))
        cmds.append("run 99 2 %d %d %s" % (chk.n(3000, 60000), rng.randrange(1, 1 << 40), p))
    if not validate_runs(chk, b, "cond", "TraceCond", cmds, what="schedules"):
        return
    cmds = []
    for _ in range(chk.n(40, 300)):
        sc = " ".join("".join(rng.choice("wwabz") for _ in range(rng.randrange(1, 4))) for _ in range(rng.randrange(2, 5)))
        cmds.append("run 99 2 %d %d %s" % (chk.n(1500, 10000), rng.randrange(1, 1 << 40), sc))
    validate_runs(chk, b, "cond", "TraceCond", cmds, what="random scenarios")


CHECKS = {"C16": (run_cond, "model_checking")}
