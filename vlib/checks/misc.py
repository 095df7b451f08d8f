from core import *


def scdrv(chk):
    return build(chk, "sc_drv", ["sc_drv.c", "vf.c"], ["sc/sc.c"], incs=["sc"])


def hexb(b):
    return b.hex() or "-"


def unl(v):
    return sum(x << (10 * i) for i, x in enumerate(v))


UN = b"bkmgtpe"


def size_texts(rng):
    """Numbers around every limit of every unit, in every spelling."""
    out = []
    for u in range(7):
        for d in (-1025, -2, -1, 0, 1, 2, 1023, 1025):
            for base in ((2 ** 63 - 1) // 1024 ** u, 2 ** 63 // 1024 ** u, 2 ** 64 // 1024 ** u, 2 ** 31, 2 ** 32, 0):
                v = base + d
                for suf in (b"", UN[u:u + 1], UN[u:u + 1].upper() + b"b", b" " + UN[u:u + 1] + b"B"):
                    out.append(b"%d" % v + suf)
    out += [b"%d" % rng.randrange(1, 9) + bytes(x) for x in [(c,) for c in range(1, 256)] + [(rng.choice([u, u ^ 32]), c) for u in UN for c in range(1, 256)]]
    for _ in range(600):
        n = rng.choice([b"%d" % rng.getrandbits(rng.randrange(1, 70)), b"", b"0", b"00%d" % rng.randrange(99), b"-%d" % rng.randrange(3000), b"+7", b"1" * rng.randrange(1, 40)])
        out.append(rng.choice([b"", b"", b" ", b"\t\n "]) + n + rng.choice([b"", b"", b" ", b"  ", b"\t", b"."]) +
                   rng.choice([b"", bytes([rng.choice(UN)]), bytes([rng.choice(UN), 98]), bytes([rng.choice(UN.upper()), 66]), bytes([rng.randrange(1, 256)]), bytes([rng.choice(UN), rng.randrange(1, 256)]),
                               b"kib", b"Kb ", b"b k", bytes(rng.randrange(1, 256) for _ in range(3))]))
    return out


def human_vals(rng):
    out = []
    for u in range(7):
        b = 1024 ** u
        for c in (b, 1023 * b + b * 95 // 100, 1023 * b + b * 99 // 100, 1023 * b + b * 995 // 1000, 1024 * b, 999 * b, 10 * b, 100 * b, b + b // 200, b + b // 100):
            out += [c + d for d in (-1025, -1, 0, 1, 2, 1024, b // 3)]
    out += [2 ** 64 - 1, 2 ** 63, 2 ** 63 - 1, 2 ** 32, 2 ** 31]
    out += [rng.getrandbits(rng.randrange(1, 65)) for _ in range(400)]
    return [v for v in out if 0 <= v < 2 ** 64]


def pack(lines, k=60):
    return [["begin"] + lines[i:i + k] + ["end"] for i in range(0, len(lines), k)]


def run_sc(chk):
    rng = chk.rng
    b = scdrv(chk)
    t = model_check(chk, "sc", "ScImpl", gen=True)
    size = [x.split()[1:] for x in t if x.startswith("size")]
    hum = [x.split()[1:] for x in t if x.startswith("human")]
    if not chk.thorough:
        size, hum = rng.sample(size, 12000), rng.sample(hum, 6000)
    lines = ["size %s" % hexb(bytes(map(int, x))) for x in size]
    lines += ["human %d %d" % (unl(map(int, x)), rng.choice([32, 32, 16, rng.randrange(0, 14)])) for x in hum]
    for _ in range(chk.n(1, 6)):
        lines += ["size %s %s" % (hexb(x), rng.choice(["", "", "34", "5"])) for x in size_texts(rng)]
        for v in human_vals(rng):
            lines += ["human %d 32" % v, "human %d %d" % (v, rng.randrange(0, 14))]
    pw = {0, 2 ** 64 - 1} | {2 ** i + d for i in range(64) for d in (-1, 0, 1)} | {rng.getrandbits(rng.randrange(1, 65)) for _ in range(300)} | set(range(300))
    pw |= {2 ** i + 2 ** j for i in range(64) for j in range(i)} if chk.thorough else {2 ** rng.randrange(64) + 2 ** rng.randrange(63) for _ in range(200)}
    lines += ["pow2 %d" % v for v in sorted(v for v in pw if 0 <= v < 2 ** 64)]
    if not validate(chk, b, "sc", "TraceSc", pack(lines), what="conversions and rounding"):
        return
    chunks = []
    for k in range(chk.n(60, 600)):
        s = rng.choice([bytes(range(256)), bytes([k]), bytes([255, 0]), bytes(rng.randrange(256) for _ in range(256)), bytes(rng.randrange(256) for _ in range(rng.randrange(1, 9)))])
        c = ["begin", "seed " + s.hex()]
        for _ in range(rng.randrange(1, 15)):
            c.append("read " + rng.choice(["0", "1", "2", "255", "256", "257", "-1", "-300", "5 null", "%d" % rng.randrange(1, 60), "%d" % rng.randrange(1, 700)]))
            if rng.random() < .05:
                c.append("seed " + s.hex())
        chunks.append(c + ["end"])
    validate(chk, b, "sc", "TraceSc", chunks, what="random streams")


def crc_chunks(chk, tests):
    rng = chk.rng
    lines = []

    def add(al, ln, cuts=0):
        c = []
        for _ in range(cuts):
            c.append(rng.choice([0, 1, 3, 7, 8, 9, 100, 767, 768, 769, 6144, rng.randrange(ln + 1)]))
        lines.append("crc %d %d %d %d %s" % (rng.getrandbits(40), al, rng.choice([0, 0, 0, 1, 2 ** 32 - 1, 2 ** 31, rng.getrandbits(32)]), ln, " ".join(map(str, c))))
    for t in tests:
        al, h, lo, sh, w, b = map(int, t.split())
        add(al, h + 6144 * min(lo, 2) + 768 * sh + 8 * w + b, rng.randrange(3))
    for al in range(8):
        for ln in range(40):
            add(al, ln, rng.randrange(4))
    for _ in range(chk.n(400, 3000)):
        add(rng.randrange(16), 768 * rng.randrange(9) + rng.randrange(-9, 10) % 768, rng.randrange(4))
        add(rng.randrange(16), rng.randrange(800), rng.randrange(6))
    for _ in range(chk.n(60, 600)):
        add(rng.randrange(16), 6144 * rng.randrange(1, 4) + rng.choice([0, 1, 7, 8, 767, 768, rng.randrange(6144)]), rng.randrange(3))
    rng.shuffle(lines)
    return [["begin"] + (["init"] if rng.random() < .2 else []) + lines[i:i + 5] + ["end"] for i in range(0, len(lines), 5)]


def crc_long(rng, big):
    """Lengths beyond 2^16, 2^31 and 2^32."""
    h = lambda k: hexb(bytes(rng.randrange(256) for _ in range(rng.randrange(k))))
    line = lambda n, cuts=(): "zrun %d %d %d %s %s %s" % (rng.randrange(16), rng.getrandbits(32), n, h(40), h(40), " ".join(map(str, cuts)))
    c = [["begin"] + [line(rng.choice([0, 1, 255, 256, 65535, 65536, 65537, 1 << 20, (1 << 24) - 1, rng.randrange(1 << 22)]), rng.choice([(), (70000,), (3, 1 << 16, 9)])) for _ in range(8)] + ["end"] for _ in range(6)]
    return c + [["begin", line(n), "end"] for n in big]


def run_crc(chk):
    rng = chk.rng
    tests = model_check(chk, "crc", "CrcImpl", "CrcImplFull" if chk.thorough else "CrcImpl", gen=True)
    b = build(chk, "crc_sw", ["crc_drv.c", "vf.c"], ["crc32/sc_crc32.c"], incs=["crc32"])
    if not validate(chk, b, "crc", "TraceCrc", crc_chunks(chk, tests), what="table path", batch=1500):
        return
    big = [rng.choice([1 << 31, (1 << 31) - 17]) + rng.randrange(16), (1 << 32) + rng.randrange(9000)]
    if not validate(chk, b, "crc", "TraceCrc", crc_long(rng, big[1:] if not chk.thorough else big), what="table path, long data"):
        return
    if "sse4_2" in open("/proc/cpuinfo").read():
        b = build(chk, "crc_hw", ["crc_drv.c", "vf.c"], ["crc32/sc_crc32.c"], incs=["crc32"], defs=["-DHAVE_CRC32C", "-msse4.2"])
        validate(chk, b, "crc", "TraceCrc", crc_chunks(chk, tests), what="instruction path", batch=1500)
        validate(chk, b, "crc", "TraceCrc", crc_long(rng, big), what="instruction path, long data")
    else:
        chk.assumptions.append("this CPU has no crc32 instruction: the hardware path was not run")


def run_time(chk):
    rng = chk.rng
    t = model_check(chk, "time", "TimeImpl", gen=True)
    b = build(chk, "time_drv", ["time_drv.c", "vf.c"], ["time/sc_time.c"], incs=["time"], wraps=["clock_gettime", "gettimeofday", "nanosleep", "clock_nanosleep"])
    if not chk.thorough:
        t = rng.sample(t, min(len(t), 1500))
    lines = []
    errs = [1, 22, 14, 12, 38]
    for x in t:
        a = x.split()
        o = []
        for w in a[1:]:
            o.append("i%d.%d" % (int(w[1:]) // 10, int(w[1:]) % 10 * 10 ** 8 + (rng.randrange(10 ** 6) if w[1:] != "0" else 0)) if w[0] == "i" else "e%d" % rng.choice(errs) if w[0] == "e" else "o")
        lines.append("sleep %d %s" % (int(a[0]) * 100, " ".join(o)))
    for _ in range(chk.n(600, 6000)):
        ms = rng.choice([0, 1, 999, 1000, 1001, 2 ** 31, 2 ** 32, 2 ** 31 * 1000, 2 ** 32 * 1000 + 7, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, rng.getrandbits(rng.randrange(1, 65))])
        o = []
        for _ in range(rng.choice([0, 1, 2, 5, 40])):
            o.append("i%d.%d" % (rng.choice([0, 0, ms // 3000, rng.randrange(ms // 1000 + 1)]), rng.choice([0, 1, 999999999, rng.randrange(10 ** 9)])))
        lines.append("sleep %d %s %s" % (ms, " ".join(o), rng.choice(["o", "o", "e%d" % rng.choice(errs)])))
    ns = lambda: rng.choice([0, 1, 999999, 1000000, 999999999, 999000000, rng.randrange(10 ** 9)])
    sec = lambda: rng.choice([0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 4294967, 4294968, 9223372036, 9223372037, 18446744072, rng.randrange(18446744073), rng.randrange(2 * 10 ** 9)])
    lines += ["clock %d %d %d %d" % (sec(), ns(), sec(), ns()) for _ in range(chk.n(500, 5000))]
    chunks = pack(lines, 25)
    chunks += [["begin"] + ["real"] * 200 + ["end"] for _ in range(chk.n(4, 40))]
    chunks += [["begin", "realsleep %d %d" % (rng.choice([0, 1, 20, 50, 120]), rng.choice([300, 1000, 7000, 30000])), "end"] for _ in range(chk.n(16, 100))]
    validate(chk, b, "time", "TraceTime", chunks, what="clocks and sleeps")


def run_perf(chk):
    rng = chk.rng
    t = model_check(chk, "perf", "PerfImpl", gen=True)
    b = build(chk, "perf_drv", ["perf_drv.c", "vf.c"], ["perf/sc_perf.c"], incs=["perf"], wraps=["syscall", "prctl", "ioctl", "clock_gettime", "read", "close"], san="undefined", cflags=["-fno-sanitize-recover=undefined"])
    if not chk.thorough:
        t = rng.sample(t, min(len(t), 4000))
    tail = lambda: "%d %d" % (rng.choice([1, 4, 5, 12, 13, 22]), rng.randrange(3))
    chunks = []
    for x in t:
        c = ["begin %d" % rng.getrandbits(40)]
        for w in x.strip(";").split(";"):
            a = w.split()
            if a[0] == "tick":
                c.append(w)
            else:
                n = int(a[1])
                c.append("%s %d %s" % ("stop" if a[0] == "end" else a[0], rng.choice([n, n + 9, n + 9]) if n > 1 else n, tail()))
        chunks.append(c + ["end"])
    for _ in range(chk.n(1500, 15000)):
        c = ["begin %d" % rng.getrandbits(40)]
        for _ in range(rng.randrange(1, 25)):
            f = rng.choice(["tick", "tick", "start", "start", "pause", "stop"])
            if f == "tick":
                c.append("tick %d" % rng.choice([0, 1, 3, 100, 99999, rng.randrange(20000000)]))
            else:
                c.append(f if rng.random() < .97 else "%s %d %s" % (f, rng.randrange(1, 28), tail()))
        chunks.append(c + ["end"])
    validate(chk, b, "perf", "TracePerf", chunks, what="measurements")


CHECKS = {"C29": (run_perf, "model_checking"), "C28": (run_time, "model_checking"), "C27": (run_crc, "model_checking"), "C26": (run_sc, "model_checking")}
