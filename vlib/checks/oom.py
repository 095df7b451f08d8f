from core import *
import containers, map as mapmod, timer, strs, buf, uri


def map_suites(chk):
    rng = chk.rng
    k = chk.n(1, 10)
    ch = [mapmod.random_chunk(rng, v, 120, faults=True) for v in mapmod.VARIANTS for _ in range(3 * k)]
    for v in mapmod.VARIANTS:
        key = [hexs("k%d" % i) if v in mapmod.STR else str(i) for i in range(12)]
        decl = " ".join("%d=%s" % (i, key[i]) for i in range(1, 12))
        ch.append(["begin %s %s" % (v, decl), "fail 1", "init 8 0", "init 0 0", "get 1", "fail 1", "put 1 1", "gets", "each",
                   "put 1 1"] + ["put %d %d" % (i, i) for i in range(2, 7)] + ["get 3", "fail 1", "put 7 7", "fail 1", "put 3 9", "gets", "each", "put 7 8", "gets", "each",
                   "fail 1", "put 0 3", "gets", "each", "put 0 3", "gets", "each", "end"])
    yield mapmod.drv(chk), "map", "TraceMap", ch, "map"


SUITES = [containers.oom_suites, map_suites, timer.oom_suites, strs.oom_suites, buf.oom_suites, uri.oom_suites]


def run_oom(chk):
    for f in SUITES:
        for b, d, m, chunks, what, *env in f(chk):
            if not validate(chk, b, d, m, chunks, what="allocation failures: " + what, env=env[0] if env else None):
                return


CHECKS = {"C12": (run_oom, "fault_enumeration")}
