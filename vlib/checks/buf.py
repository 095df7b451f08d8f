from core import *


def drv(chk):
    return build(chk, "buf_drv", ["buf_drv.c", "vf.c"], ["buffer/sc_buf.c"], incs=["buffer"])


HUGE = [(1 << 64) - 1, (1 << 64) - 8, (1 << 63), (1 << 64) - 4096, (1 << 64) - 4097, (1 << 32)]


def rb(rng, n, text=False):
    if text:
        return bytes(rng.choice(b"abcxyz 0%d") for _ in range(n)) if rng.random() < .7 else bytes(rng.randrange(1, 256) for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


def u64(rng):
    r = rng.random()
    if r < .3:
        return rng.choice([0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, 1 << 63, (1 << 64) - 1, 0x0102030405060708,
                           0x3ff0000000000000, 0x7ff0000000000000, 0x7ff8000000000000, 0x8000000000000000])
    return rng.getrandbits(64)


def expand(rng, t):
    """#n -> n random bytes (no NUL for strings); adds values to put/set."""
    out = []
    for c in t.strip(";").split(";"):
        w = c.split()
        text = w[0] in ("putstr", "putfmt", "puttext", "putstrlen")
        w = [hexs(rb(rng, int(x[1:]), text).replace(b"\0", b"z") if text else rb(rng, int(x[1:]))) if x.startswith("#") else x for x in w]
        if w[0] in ("put", "setat", "setw"):
            w.append(str(u64(rng)))
        out.append(" ".join(w))
    return out


def model_tests(chk, rng, q):
    out = []
    for cfg in ("BufImplRef", "BufImplGrow", "BufImplEdge"):
        t = model_check(chk, "buf", "BufImpl", cfg, gen=True)
        rng.shuffle(t)
        t = t[:q]
        # the edge tests log kilobytes
        if cfg == "BufImplEdge":
            t = [x.replace("dump 0;", "") if rng.random() < .8 else x for x in t[:q // 3]]
        out.append((cfg, [["begin"] + expand(rng, x) + ["end"] for x in t]))
    return out


def size(rng):
    return rng.choice([0, 1, 2, 3, 5, 7, 8, 9, 16, 31]) if rng.random() < .9 else rng.choice([100, 500])


def random_chunk(rng, nops, faults=0.0, errs=.05):
    c = ["begin"]

    def start(i):
        k = rng.random()
        if k < .5:
            c.append("init %d %d" % (i, rng.choice([0, 1, 7, 8, 16, 40, 100, 300, 4096])))
            if rng.random() < .2:
                c.append("limit %d %d" % (i, rng.choice([0, 10, 100, 4095, 4096, 8192, 12288])))
        else:
            n = rng.choice([0, 1, 8, 9, 20, 40, 100, 300])
            c.append("wrap %d %d %d %s" % (i, n, rng.choice([0, 8, 8, 16, 24]), hexs(rb(rng, n))))
    start(0)
    start(1)
    style = 0
    queue = {0: [], 1: []}
    for k in range(nops):
        if k % 25 == 0:
            style = rng.choice([0, 0, 1, 2])
        i = rng.choice([0, 0, 1])
        if faults and rng.random() < faults:
            c.append("fail 1")
        r = rng.random()
        if r < .03:
            c.append("clear %d" % i)
            queue[i] = []
        elif r < .05:
            c.append("term %d" % i)
            start(i)
            queue[i] = []
        elif r < .09:
            c.append("dump %d" % i)
        elif r < .12:
            c.append("compact %d" % i)
        elif r < .14:
            c.append(rng.choice(["reserve", "shrink"]) + " %d %d" % (i, rng.choice([0, 1, 10, 50, 4096, 5000, 9000])))
        elif r < .17:
            c.append("move %d %d" % (i, 1 - i))
            queue[0], queue[1] = [], []
        elif r < .2:
            c.append("lens %d %s" % (i, rng.choice(["N", "-", hexs(rb(rng, size(rng), True))])))
        elif r < .2 + errs:
            big = rng.choice(HUGE)
            c.append(rng.choice(["peekat %d 4 %d", "setat %d 8 %d 5", "getblob %d %d", "setrpos %d %d", "setwpos %d %d", "reserve %d %d", "peekdata %d %d 3",
                                 "setdata %d %d 0102"]) % (i, big))
            c.append("clear %d" % i)
            queue[i] = []
        elif r < .33:
            pos = rng.randrange(0, 60)
            w = rng.choice([1, 2, 4, 8])
            c.append(rng.choice(["peekat %d %d %d" % (i, w, pos), "setat %d %d %d %d" % (i, w, pos, u64(rng)), "setw %d %d %d" % (i, w, u64(rng)),
                                 "peek %d %d" % (i, w), "peekdata %d %d %d" % (i, pos, rng.randrange(8)), "setdata %d %d %s" % (i, pos, hexs(rb(rng, rng.randrange(8)))),
                                 "setrpos %d %d" % (i, pos), "setwpos %d %d" % (i, pos)]))
            if c[-1].startswith("setrpos"):
                queue[i] = []
        elif rng.random() < (.75 if style == 0 else .4 if style == 1 else .55):
            n = size(rng)
            k = rng.randrange(9)
            if style == 2 and k in (5, 6) or k == 8:
                c.append(rng.choice(["puttext", "putfmt"]) + " %d %s" % (i, hexs(rb(rng, n, True))))
                queue[i].append("getstr %d")
            elif k < 4:
                w = rng.choice([0, 1, 2, 4, 8, 9])
                c.append("put %d %d %d" % (i, w, u64(rng)))
                queue[i].append("getbool %d" if w == 0 else "get %%d %d" % w if w != 9 else "double %d")
            elif k == 4:
                c.append("putblob %d %s" % (i, hexs(rb(rng, n))))
                queue[i] += ["get %d 8", "getblob %%d %d" % n]
            elif k == 5:
                c.append("putraw %d %s" % (i, hexs(rb(rng, n))))
                queue[i].append(rng.choice(["getdata %%d %d" % n, "getblob %%d %d" % n, "rget %%d %d" % n]))
            elif k == 6:
                c.append("wput %d %s" % (i, hexs(rb(rng, min(n, 9)))))
                queue[i].append("rget %%d %d" % min(n, 9))
            else:
                c.append("%s %d %s" % (rng.choice(["putstr", "putstrlen"]), i, rng.choice(["N", hexs(rb(rng, n, True).replace(b"\0", b"q"))])))
                queue[i].append("getstr %d")
        elif queue[i] and rng.random() < .9:
            c.append(queue[i].pop(0) % i)
        else:
            c.append(rng.choice(["get %d 1", "get %d 8", "getstr %d", "getbool %d", "getblob %d 3", "getdata %d 5", "rget %d 2", "double %d"]) % i)
            queue[i] = []
    return c + ["dump 0", "dump 1", "end"]


def roundtrip_chunk(rng):
    """Writes a random sequence of values and reads the same sequence back."""
    c = ["begin", rng.choice(["init 0 0", "init 0 1", "init 0 100", "init 0 4096"])]
    rd = []
    for _ in range(rng.randrange(5, 60)):
        n = size(rng) if rng.random() < .98 else rng.choice([4000, 4090, 5000])
        k = rng.randrange(8)
        if k < 4:
            w = rng.choice([0, 1, 2, 4, 8, 9])
            c.append("put 0 %d %d" % (w, u64(rng)))
            rd.append("getbool 0" if w == 0 else "get 0 %d" % w if w != 9 else "double 0")
        elif k == 4:
            c.append("putblob 0 " + hexs(rb(rng, n)))
            rd += ["get 0 8", rng.choice(["getblob 0 %d", "getdata 0 %d"]) % n]
        elif k == 5:
            c.append("putfmt 0 " + hexs(rb(rng, n, True)))
            rd.append("getstr 0")
        else:
            c.append("%s 0 %s" % (rng.choice(["putstr", "putstrlen"]), rng.choice(["N", hexs(rb(rng, n, True)), hexs(rb(rng, n, True))])))
            rd.append("getstr 0")
    return c + rd + ["get 0 1", "end"]


def malformed_chunk(rng):
    """Bytes from elsewhere, decoded with every reader."""
    c = ["begin"]
    for _ in range(12):
        n = rng.choice([0, 1, 7, 8, 9, 10, 16, 17, 24, 40])
        x = bytearray(rb(rng, n))
        if n >= 8:
            r = rng.random()
            L = rng.choice(HUGE + [n, n - 8, n - 9, n - 7, 0, 1, (1 << 64) - 9, (1 << 64) - 10, (1 << 64) - 1 - n, (1 << 24), (1 << 40) + 1])
            if r < .8:
                x[:8] = (L % (1 << 64)).to_bytes(8, "little")
            if rng.random() < .6:
                x[-1] = 0
        c.append("wrap 0 %d 24 %s" % (n, hexs(bytes(x))))
        for _ in range(3):
            c.append(rng.choice(["getstr 0", "getstr 0", "getstr 0", "getblob 0 %d" % rng.choice(HUGE), "getblob 0 3", "get 0 8", "get 0 4", "get 0 1", "getdata 0 9"]))
            if rng.random() < .3:
                c.append("dump 0")
        c.append("term 0")
    return c + ["end"]


def run_rt(chk):
    b = drv(chk)
    rng = chk.rng
    ns = [1, 255, 256, 4079, 4080, 4085, 4096, 32767, 32768, 65527, 65535, 65536, 65537, 70000, 131072, 1 << 20, (1 << 24) + 5] + [rng.randrange(1, 300000) for _ in range(chk.n(6, 60))]
    big = ["begin"] + ["bulk %d %d" % (k, n) for n in ns for k in range(8)]
    if not validate(chk, b, "buf", "TraceBuf", [big + ["end"]], what="long values", timeout=40):
        return
    chunks = [roundtrip_chunk(rng) for _ in range(chk.n(150, 2500))]
    if not validate(chk, b, "buf", "TraceBuf", chunks, what="round trips"):
        return
    chunks = [random_chunk(rng, chk.n(100, 200), errs=0) for _ in range(chk.n(100, 1500))]
    if not validate(chk, b, "buf", "TraceBuf", chunks, what="random histories"):
        return
    for cfg, ch in model_tests(chk, rng, chk.n(3000, 40000)):
        if not validate(chk, b, "buf", "TraceBuf", ch, what=cfg + " transitions"):
            return


def run_bounds(chk):
    b = drv(chk)
    rng = chk.rng
    for cfg, ch in model_tests(chk, rng, chk.n(8000, 80000)):
        if not validate(chk, b, "buf", "TraceBuf", ch, what=cfg + " transitions"):
            return
    chunks = [malformed_chunk(rng) for _ in range(chk.n(150, 2500))] + [random_chunk(rng, 80, errs=.1) for _ in range(chk.n(60, 1000))]
    validate(chk, b, "buf", "TraceBuf", chunks, what="malformed data and huge lengths")


def oom_suites(chk):
    b = drv(chk)
    rng = chk.rng
    yield b, "buf", "TraceBuf", [random_chunk(rng, 80, faults=.2) for _ in range(chk.n(50, 500))], "buf"
    ch = []
    for op in ("put 0 1 5", "put 0 8 5", "putraw 0 %s" % ("61" * 20), "putstr 0 %s" % ("61" * 20), "putstrlen 0 %s" % ("61" * 20), "putfmt 0 %s" % ("61" * 20),
               "puttext 0 %s" % ("61" * 20), "putblob 0 %s" % ("61" * 20), "reserve 0 5000", "shrink 0 4096"):
        for cap in (0, 4, 8, 10, 16, 9000):
            for m in (1, 2, 3, 4):
                ch.append(["begin", "fail 1", "init 0 %d" % cap, "init 0 %d" % cap, "wput 0 616263", "rget 0 1", "fail %d" % m, op, "dump 0", op, "clear 0", op, "dump 0", "end"])
    yield b, "buf", "TraceBuf", ch, "buf single operations"


CHECKS = {"C10": (run_rt, "model_checking"), "C11": (run_bounds, "model_checking")}
