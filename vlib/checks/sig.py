from core import *


def fmtdrv(chk):
    return build(chk, "sigfmt_drv", ["sigfmt_drv.c", "vf.c"], ["signal/sc_signal.c"], incs=["signal"])


NUMS = [0, 1, 9, 10, 99, 100, 255, 256, 1000, 4095, 4096, 65535, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, 10 ** 9, 10 ** 10, 10 ** 18, 10 ** 19,
        (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, (1 << 64) - 10, (1 << 64) - 99, 0xabcdef, 0x123456789abcdef0, 0xfedcba9876543210]


def num(rng):
    r = rng.random()
    if r < .55:
        return rng.choice(NUMS)
    if r < .8:
        return rng.getrandbits(rng.randrange(1, 65))
    return (1 << 64) - 1 - rng.getrandbits(rng.randrange(1, 63))


def text(rng, n, pct=False):
    return bytes(rng.choice([c for c in range(1, 256) if c != 37]) if not rng.random() < .3 else 97 for _ in range(n))


def args_for(rng, f):
    """Arguments by the directives in order; what follows an unsupported one is not looked at."""
    args, j = [], 0
    while j < len(f):
        if f[j] == 37 and j + 1 < len(f):
            if f[j + 1] == 115:
                args.append("sN" if rng.random() < .2 else "s" + hexs(bytes(rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 2, 5, 31, 32, 33, 100])))))
            elif f[j + 1] != 37:
                args.append("v%d" % num(rng))
            j += 2
        else:
            j += 1
    return args[:10]


def rand_fmt(rng):
    f = b""
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 9])):
        r = rng.random()
        if r < .25:
            f += text(rng, rng.choice([1, 1, 2, 7, 40]))
        elif r < .45:
            f += b"%s"
        elif r < .52:
            f += b"%%"
        elif r < .56:
            f += rng.choice([b"%", b"%l", b"%ll", b"%c", b"%x", b"%lx", b"%i", b"%llld", b"%5d", b"%-d", b"%ls", b"%hd", b"%lp", b"%l%", b"%lls", b"%S", b"% d"])
        else:
            f += rng.choice([b"%d", b"%u", b"%ld", b"%lu", b"%lld", b"%llu", b"%p"])
    return f, args_for(rng, f)


def run_fmt(chk):
    rng = chk.rng
    b = fmtdrv(chk)
    chunks = []
    tests = model_check(chk, "signal", "FmtImpl", gen=True)
    for i in range(0, len(tests), 40):
        c = ["begin"]
        for t in tests[i:i + 40]:
            bs, sz = t.split(" ")
            f = bytes(int(x) for x in bs.split(",") if x)
            args = args_for(rng, f)
            c.append("%s %s %s %s" % ("fmt" if rng.random() < .85 else "log", sz, hexs(f), " ".join(args)))
        chunks.append(c + ["end"])
    for _ in range(chk.n(800, 8000)):
        c = ["begin"]
        for _ in range(10):
            f, args = rand_fmt(rng)
            if rng.random() < .6:
                sz = rng.randrange(0, 50)
            else:
                sz = rng.choice([0, 1, 2, 64, 128, 300, 1000])
            c.append("%s %d %s %s" % ("fmt" if rng.random() < .85 else "log", sz, hexs(f), " ".join(args)))
        chunks.append(c + ["end"])
    # buffers of 2^31 and more bytes
    for sz in ((1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 7):
        c = ["begin"]
        for _ in range(4):
            f, args = rand_fmt(rng)
            c.append("%s %d %s %s" % (rng.choice(["fmt", "log"]), sz, hexs(f), " ".join(args)))
        chunks.append(c + ["fmt %d %s s616263 v7" % (sz, hexs("x%s%dy")), "end"])
    # every number in every directive cut at every length
    for v in NUMS:
        c = ["begin"]
        for d in (b"%d", b"%u", b"%ld", b"%lu", b"%lld", b"%llu", b"%p"):
            for sz in range(0, 24):
                c.append("fmt %d %s v%d" % (sz, hexs(d), v))
        chunks.append(c + ["end"])
    validate(chk, b, "signal", "TraceFmt", chunks, what="formatting")


def procdrv(chk, name, defs=()):
    return build(chk, name, ["sigproc_drv.c", "vf.c"], ["signal/sc_signal.c"], incs=["signal"], san=None, repo_cflags=["-fsanitize=thread"],
                 wraps=["write", "close", "kill", "sigaction", "signal", "sigemptyset", "sigaddset"], defs=defs)


def run_sig(chk):
    rng = chk.rng
    tests = model_check(chk, "signal", "SignalImpl", gen=True)
    for name, defs in (("sig", ()), ("sigbt", ("-DHAVE_BACKTRACE",))):
        b = procdrv(chk, name, defs)
        if not validate_runs(chk, b, "signal", "TraceSignal", ["init %d" % i for i in range(16)], what="failing set-up " + name):
            return
        cmds = []
        for t in tests:
            sfd, sigs = t.split(" ", 1)
            if not sigs.strip():
                continue
            if not chk.thorough and rng.random() < .2:
                continue
            k = int(sfd)
            k = rng.choice([2, 3, 4]) if k == 2 else k
            ss = []
            for x in sigs.split():
                x = int(x)
                if x == 6:
                    x = rng.choice([4, 6, 7, 8, 11, 106, 108, 104, 204, 207])
                elif x == 11:
                    x = rng.choice([11, 111, 211])
                elif x == 13:
                    x = rng.choice([1, 13, 201])
                elif rng.random() < .3:
                    x += 200
                ss.append(str(x))
            # the number of the descriptor does not matter: an ordinary one, 0, a high one
            lk = rng.randrange(3)
            sn, ln = rng.choice([(0, 0), (10, 0), (20, 0), (0, 10), (0, 20), (10, 20), (20, 10)])
            cmds.append("scen %d %d 0 1 1 %s" % (k + (sn if k else 0), lk + (ln if lk else 0), " ".join(ss)))
        # a second signal at every point of the handlers
        for sfd in range(5):
            for a in (2, 15, 11, 6):
                for t in (2, 15, 11, 8):
                    if a == t and a not in (2, 15):
                        continue
                    for lfd in ((0, 1, 2) if chk.thorough else (rng.randrange(3),)):
                        cmds.append("scen %d %d %d %d %d %d" % (sfd, lfd, t, chk.n(3, 1), chk.n(300, 4000), a))
        for a, t in ((2, 15), (15, 2)):
            cmds.append("scen 1 0 %d 1 4000 %d" % (t, a))
            cmds.append("scen 0 1 %d 1 4000 %d" % (t, a))
        cmds += ["scen 1 0 0 1 1 10", "scen 1 1 0 1 1 2 12", "scen 1 0 13 %d 400 2" % chk.n(9, 1), "scen 1 0 1 %d 400 11" % chk.n(9, 1)]
        if not validate_runs(chk, b, "signal", "TraceSignal", cmds, what="signals " + name):
            return


CHECKS = {"C20": (run_fmt, "model_checking"), "C21": (run_sig, "model_checking")}
