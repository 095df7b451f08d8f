from core import *


def drv(chk):
    return build(chk, "option_drv", ["option_drv.c", "vf.c"], ["option/sc_option.c"], incs=["option"])


def rand(rng):
    al = rng.choice([b"ab", b"ab-", b"abc=", bytes(range(1, 256))])
    w = lambda k: bytes(rng.choice(al) for _ in range(rng.randrange(k)))
    tab = []
    letters = [c for c in range(1, 256) if c not in (45, 61, 63)]
    low = list(b"abcdefxyz")
    for _ in range(rng.randrange(1, 7)):
        base = rng.choice([t[1] for t in tab if t[1]] or [b"ab"])
        nm = rng.choice([None, w(6), base + w(3), base[:-1], base[::-1], w(40)])
        if nm is not None:
            nm = nm.replace(b"=", b"").replace(b"\0", b"")
        if any(t[1] == nm for t in tab) and nm is not None:
            continue
        c = 0 if nm is not None and rng.random() < .15 else rng.choice(low if rng.random() < .8 else letters)
        tab.append((c, nm))
    args = []
    for _ in range(rng.randrange(1, 9)):
        c, nm = rng.choice(tab)
        if rng.random() < .1:
            c = rng.choice(letters)
        L = bytes([c]) if c else b""
        nm = nm if nm is not None else w(5)
        if rng.random() < .3:
            nm = rng.choice([nm + w(3), nm[:-1], nm[1:], nm.upper(), w(6)])
        v = w(rng.choice([4, 4, 30]))
        args.append(rng.choice([b"-" + L, b"-" + L + b"=" + v, b"-" + L + v, b"--" + nm, b"--" + nm + b"=" + v, b"--" + nm + b"==" + v, b"--" + nm + b" " + v,
                                b"--" + L, b"-" + nm, nm + b"=" + v, b"---" + nm, b"--=" + v, b"-=" + v, b"-", b"--", b"", L, v, b"-" + L + b"=", b"--" + nm + b"="]))
    return ["table" + "".join(" %d %s" % (c, hexs(n)) for c, n in tab), "args " + " ".join(hexs(a) for a in args)]


def longs(rng):
    """Arguments that are a name and a multiple of 256 (or 65536) bytes more, long names, values and tables."""
    out = []
    for base, ext in [(b"name", 256), (b"n", 255), (b"param", 512), (b"x" * 300, 256), (b"", 256), (b"opt", 65536), (b"q" * 127, 1), (b"q" * 128, 128), (b"y" * 255, 1), (b"z" * 1000, 24)]:
        tail = bytes(rng.choice(b"abn") for _ in range(ext))
        rep = (base * (1 + ext // max(1, len(base))))[:ext] if base else tail
        tab = [(110, base), (104, base + tail if rng.random() < .5 else base + b"k"), (107, None)]
        A = [b"--" + base, b"--" + base + b"=v", b"--" + base + tail, b"--" + base + tail + b"=v", b"--" + base + rep + b"=v", b"--" + tail + b"=v",
             b"--" + base + b"=" + tail, b"-" + base + tail, b"-n=" + tail, b"-k" + tail, b"--" + base[:-1] + b"=v"]
        tb = "table" + "".join(" %d %s" % (c, hexs(n)) for c, n in tab)
        if ext > 10000:
            A = A[1:4]
        for a in A:
            out += [tb, "args " + hexs(a)]
    # a large table, looked up at both ends; a long argument vector
    for n in (130, 260, 300):
        tab = [(0 if i < n - 200 and i else 1 + (i + 60) % 252, b"o%03d" % i) for i in range(n)]
        tab = [(66 if c in (45, 61, 63) else c, m) for c, m in tab]
        tb = "table" + "".join(" %d %s" % (c, hexs(m)) for c, m in tab)
        out += [tb, "args " + " ".join(hexs(x) for x in [b"--" + tab[-1][1], b"--o%03d=1" % (n - 2), b"--o000", b"--o%03d" % n, b"-" + bytes([tab[-1][0]]) + b"=2"])]
    tab = [(110, b"name"), (104, b"help")]
    out += ["table" + "".join(" %d %s" % (c, hexs(m)) for c, m in tab), "args " + " ".join(hexs(rng.choice([b"-n", b"--name=%d" % i, b"-h", b"--help", b"x%d" % i])) for i in range(300))]
    return ["begin"] + out + ["end"]


def run_option(chk):
    b = drv(chk)
    rng = chk.rng
    tests = model_check(chk, "option", "OptionImpl", gen=True)
    per = {}
    for t in tests:
        tab, a = t.split(";")
        per.setdefault(tab, []).append(a)
    chunks = []
    for tab, a in per.items():
        if not chk.thorough:
            a = rng.sample(a, min(len(a), 2500))
        for i in range(0, len(a), 100):
            chunks.append(["begin", tab] + ["args " + " ".join(a[k:k + 4]) for k in range(i, min(i + 100, len(a)), 4)] + ["end"])
    if not validate(chk, b, "option", "TraceOption", chunks, what="OptionImpl cases"):
        return
    chunks = []
    for _ in range(chk.n(120, 1500)):
        c = ["begin"]
        for _ in range(25):
            c += rand(rng)
        chunks.append(c + ["end"])
    if not validate(chk, b, "option", "TraceOption", [longs(rng) for _ in range(chk.n(1, 10))], what="long names, values, tables"):
        return
    validate(chk, b, "option", "TraceOption", chunks, what="random tables")


CHECKS = {"C15": (run_option, "model_checking")}
