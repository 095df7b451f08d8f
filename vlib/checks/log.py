from core import *
import itertools

SEQW = ["fprintf", "vfprintf", "fopen", "ftell"]
SCHW = ["vfprintf", "fprintf", "fputs", "fputc", "fwrite", "fflush", "fclose", "fopen", "ftell", "rename", "localtime_r"]
LVL = {"d": 0, "i": 1, "w": 2, "e": 3}
SET = {"D": "DEBUG", "I": "INFO", "W": "WARN", "E": "ERROR", "O": "OFF", "X": "nope"}


def seqdrv(chk, name="log_drv", defs=()):
    return build(chk, name, ["log_drv.c", "vf.c"], ["logger/sc_log.c"], incs=["logger"], wraps=SEQW, defs=defs)


def schdrv(chk, name="logsched_drv", defs=()):
    return build_sched(chk, name, ["logsched_drv.c"], ["logger/sc_log.c"], incs=["logger"], wraps=SCHW, defs=defs)


def letter(rng, c):
    if c in LVL:
        return logcmd(rng, LVL[c])
    if c in SET:
        return "level " + hexs(recase(rng, SET[c]))
    if c in "01":
        return "stdout " + c
    if c in "cCk":
        return "cb %d" % "cCk".index(c)
    return "file %d" % "fgh".index(c)


def recase(rng, s):
    return "".join(rng.choice([x.upper(), x.lower()]) if x.isascii() else x for x in s) if rng.random() < .5 else s


TEXTS = [b"", b"a", b"hello world", b"100%", b"%s%n%d", b"tab\tnew\nline", bytes(range(128, 256)), b"x" * 200, b"\x01\x7f"]


def logcmd(rng, lvl=None, big=False):
    t = rng.choice(TEXTS) if rng.random() < .8 else bytes(rng.randrange(1, 256) for _ in range(rng.randrange(1, 40)))
    if big:
        t = bytes(rng.randrange(32, 127) for _ in range(rng.choice([4095, 4096, 8192, 9000])))
    return "log %d %d %s %d" % (rng.randrange(4) if lvl is None else lvl, rng.randrange(6), hexs(t), rng.choice([0, 1, -1, 7, 2147483647, -2147483648, 12345]))


def rand_chunk(rng):
    c = ["begin", "init"]
    wrong = ["DEBUG ", " INFO", "", "warnx", "err", "of", "offf", "debug\n", "D", "inf\xf6", "\xff"]
    for _ in range(rng.randrange(4, 16)):
        r = rng.random()
        if r < .12:
            c.append("level " + hexs(recase(rng, rng.choice(["DEBUG", "INFO", "WARN", "ERROR", "OFF"]) if rng.random() < .7 else rng.choice(wrong))))
        elif r < .18:
            c.append("stdout %d" % rng.randrange(2))
        elif r < .26:
            c.append("cb %d" % rng.randrange(3))
        elif r < .34:
            k = rng.choice([0, 1, 5, 30, 31, 32, 33, 60, 200])
            c.append("name " + hexs(bytes(rng.choice([65, 93, 32, 37, 200, rng.randrange(1, 256)]) for _ in range(k))))
        elif r < .46:
            c.append("file %d" % rng.randrange(4) + rng.choice(["", "", "", " 1", " 300", " 1300", " 256"]))
        elif r < .49:
            c.append("fail %d" % rng.randrange(1, 7))
            c.append(logcmd(rng) if rng.random() < .6 else "file %d" % rng.randrange(1, 4))
        else:
            c.append(logcmd(rng, None if rng.random() < .7 else 3, rng.random() < .03))
    # a failed command of an unknown kind must not stay armed
    return c + ["term"] + (["term"] if rng.random() < .2 else []) + (["init", logcmd(rng), "term"] if rng.random() < .3 else []) + ["end"]


SCEN = ["ee e", "ie ei", "iie eii", "e e e", "eg e", "ge ge", "g0ee g0ei", "Cie ei", "Ce ec", "ek eC", "De dd", "Ed ee", "1e 0e", "eO ee", "gehe ee", "ge fe", "gee hee", "C0ii C0ee i",
        "gCde ie eD", "Xe Ed", "k0e C0e", "g0e h0e f0e", "eeee eeee", "Cgii ii ii"]


def run_log(chk):
    rng = chk.rng
    tests = model_check(chk, "log", "LogImpl", "LogImplA", gen=True)
    t2 = [t.split() for t in model_check(chk, "log", "LogImpl", "LogImplB", gen=True)]
    model_check(chk, "log", "LogImpl", "LogImplC")
    use = tests if chk.thorough else rng.sample(tests, 2500)
    chunks = [["begin", "init"] + [letter(rng, c) for c in t.strip()] + [logcmd(rng, 2), "term", "end"] for t in use]
    chunks += [rand_chunk(rng) for _ in range(chk.n(700, 12000))]
    # every stdio call failing, in every configuration
    for o, cb, f, lv, n in itertools.product((0, 1), (0, 1, 2), (0, 2), (1, 3), range(1, 7)):
        chunks.append(["begin", "init", "stdout %d" % o, "cb %d" % cb, "file %d" % f, "fail %d" % n, logcmd(rng, lv), logcmd(rng, lv), "term", "end"])
    for n in range(1, 5):
        chunks.append(["begin", "init", "file 1", "log 3 1 61 1", "fail %d" % n, "file 2", "log 3 1 62 1", "file 1", "log 3 1 63 1", "term", "end"])
    b = seqdrv(chk)
    if not validate(chk, b, "log", "TraceLog1", chunks, what="one thread, every byte"):
        return
    bp = seqdrv(chk, "log_drvf", ["-DSC_LOG_PRINT_FILE_NAME"])
    if not validate(chk, bp, "log", "TraceLog1", [rand_chunk(rng) for _ in range(chk.n(100, 2000))], what="with file names"):
        return
    for name, defs in (("logsched_drv", ()), ("logsched_drvm", ("-D__STDC_NO_ATOMIC__",))):
        s = schdrv(chk, name, defs)
        if not validate_runs(chk, s, "log", "TraceLog", ["init %d" % i for i in range(5)], what="failing set-up"):
            return
        cmds = []
        for p in SCEN:
            cmds.append("run %d %d 0 %s" % (chk.n(2, 3), chk.n(2500, 60000), p))
            cmds.append("run 99 %d %d %s" % (chk.n(700, 20000), rng.randrange(1, 1 << 40), p))
        two = [t for t in t2 if any(x in "de" for x in t[0]) and any(x in "de" for x in t[1])]
        for t in rng.sample(two, min(len(two), chk.n(60, 2000))):
            cmds.append("run 2 %d 0 %s %s" % (chk.n(500, 3000), t[0], t[1]))
        for _ in range(chk.n(25, 300)):
            sc = " ".join("".join(rng.choice("diweeeDIEOX01cCkfgh") for _ in range(rng.randrange(1, 5))) for _ in range(rng.randrange(2, 4)))
            cmds.append("run 99 %d %d %s" % (chk.n(500, 6000), rng.randrange(1, 1 << 40), sc))
        # rotation in the middle of it
        for p in ["g0RR g0R", "gRe g0RRe", "gRi gRRi", "gRRR 0R0R"]:
            cmds.append("run 99 %d %d %s" % (chk.n(12, 200), rng.randrange(1, 1 << 40), p))
        if not validate_runs(chk, s, "log", "TraceLog", cmds, what="schedules" + "".join(defs)):
            return


# ------------------------------------------------------------------ rotation
LIMIT = 2 << 20
RENAME = "when rename() of the full file to the previous name fails, the current file is truncated and its lines are lost"


def rot_expand(rng, t, unit=LIMIT // 20):
    c, cur = ["begin"], 0
    for w in t.split(";"):
        if not w:
            continue
        k, a = w[0], int(w[1:] or 0)
        if k == "O":
            cur = a
            c.append("file %d" % a)
        elif k == "R":
            cur = 0
            c.append("restart")
        elif k == "N":
            c.append("logn 0 2 %d" % rng.randrange(3000))
        else:
            if k == "F":
                c.append("fault fopen")
            size = a * unit + rng.randrange(-unit // 4, unit // 4)
            if k == "L" and rng.random() < .5:
                # the same in several lines
                m = rng.choice([2, 3, 10, 200])
                c.append("logn %d %d %d" % (cur, m, max(0, size // m - 48)))
            else:
                c.append("logn %d 1 %d" % (cur, size))
            if k == "F":
                cur = 0
    return c + ["end"]


def rotdrv(chk):
    return build(chk, "rot_drv", ["rot_drv.c", "vf.c"], ["logger/sc_log.c"], incs=["logger"], wraps=["fopen", "rename"], opt="-O2")


def run_rotate(chk):
    rng = chk.rng
    b = rotdrv(chk)
    tests = model_check(chk, "log", "RotateImpl", gen=True)
    # a rotation at exactly the limit is allowed a tolerance, a fault is placed where one is certain
    longest = [t for t in tests if t.count(";") == 5 and "F" not in t and "N" not in t and ("L13" in t or "L27" in t)]
    chunks = [rot_expand(rng, t) for t in rng.sample(longest, min(len(longest), chk.n(120, 1500)))]
    for t in rng.sample([t for t in tests if "F27" in t and "F13" not in t and "F6" not in t], chk.n(25, 150)):
        chunks.append(rot_expand(rng, t))
    # small lines, long histories
    for ln in [0, 1, 20, 60, 100, 300]:
        c = ["begin", "file 1", "logn 1 %d %d" % (4.6 * LIMIT // (ln + 47), ln)]
        c += ["file 2", "logn 2 50 70", "file 1", "logn 1 30 5", "restart", "file 1", "logn 1 %d %d" % (1.2 * LIMIT // (ln + 47), ln), "end"]
        if chk.thorough or ln in (0, 20, 300):
            chunks.append(c)
    for _ in range(chk.n(14, 150)):
        c, cur = ["begin", "file 1"], 1
        for _ in range(rng.randrange(5, 25)):
            r = rng.random()
            if r < .2:
                cur = rng.choice([1, 2, 3])
                c.append("file %d" % cur)
            elif r < .27:
                cur = rng.choice([1, 2, 3])
                c += ["restart", "file %d" % cur]
            elif r < .32:
                c += ["fault fopen", "file %d" % cur, "logn 0 3 10", "file %d" % cur]
            else:
                ln = rng.choice([10, 100, 1000, 20000, 300000, LIMIT // 2, LIMIT - 100, LIMIT - 48, LIMIT - 47, LIMIT - 46, LIMIT, LIMIT + 5, 2 * LIMIT])
                c.append("logn %d %d %d" % (cur, rng.choice([1, 2, 5, 30]) if ln < 400000 else rng.choice([1, 1, 2, 3]), ln))
        chunks.append(c + ["end"])
    chunks.append(["begin"] + ["huge %d" % m for m in (3, 2047, 2048, 4095, 4096, 4097, 6145)] + ["end"])
    # the same file with another previous name
    for a, d in ((1, 3), (3, 1)):
        big = "%d %d" % (3, LIMIT * 2 // 5)
        chunks.append(["begin", "file %d" % a, "logn %d %s" % (a, big), "logn %d 2 10" % a, "file %d" % d, "logn %d %s" % (d, big), "logn %d 2 10" % d, "file %d" % a, "logn %d %s" % (a, big), "logn %d 1 1" % a, "end"])
    if not validate(chk, b, "log", "TraceRotate", chunks, what="rotation", timeout=120, cap=1 << 26):
        return
    # the recorded defect: seen again, and nothing else about it
    c = ["begin", "file 1", "logn 1 1 1000", "fault rename", "logn 1 1 %d" % LIMIT, "end"]
    ev = run_chunks(chk, b, [c], timeout=60, cap=1 << 24)[0]
    last = [e for e in ev if e["op"] == "log"][-1]["v1"]
    lost = last["chi"] != 2 and last["phi"] != 2
    if lost:
        text = [k for k in chk.known if "rename" in k]
        if text:
            chk.known_hit.append(text[0])
        else:
            chk.report("failed rename loses lines", dict(commands=c, events=ev))


CHECKS = {"C18": (run_log, "model_checking"), "C19": (run_rotate, "model_checking")}
