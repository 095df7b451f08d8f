from core import *


def drv(chk, limit=None):
    return build(chk, "str_drv%s" % (limit or ""), ["str_drv.c", "vf.c"], ["string/sc_str.c"], incs=["string"],
                 defs=["-DSC_STR_MAX=%d" % limit] if limit else [])


def rbytes(rng, n, alpha):
    return bytes(rng.choice(alpha) for _ in range(n))


ALPHAS = [b"ab", b"a", b"abc-", b" -x", bytes(range(1, 256)), b"%sd\xff\x80", b"xyz01"]


def length(rng, mx):
    r = rng.random()
    if r < .12:
        n = 0
    elif r < .8:
        n = rng.randrange(1, 12)
    elif r < .97:
        n = rng.randrange(12, 80)
    else:
        n = rng.choice([rng.randrange(0, mx + 1), 255, 256, 1022, 1023, 1024, 1025])
    return min(n, mx)


def word(rng, mx=1200):
    return rbytes(rng, length(rng, mx), rng.choice(ALPHAS))


def random_chunk(rng, nops, faults=0.0, mx=1200, tokens=0.0):
    c = ["begin"]
    val = [None] * 4      # only to pick promising arguments
    al = rng.choice(ALPHAS)
    for _ in range(nops):
        if rng.random() < .1:
            al = rng.choice(ALPHAS)
        W = lambda m=mx: rbytes(rng, length(rng, m), al)
        i = rng.randrange(4)
        cur = val[i] or b""
        if faults and rng.random() < faults:
            c.append("fail %d" % rng.choice([1, 1, 1, 2, 3]))
        r = rng.random()
        if tokens and r < tokens:
            nd = rng.choice([1, 1, 1, 2, 3])
            ds = [bytes(rng.sample(list(al), min(len(al), rng.choice([0, 1, 1, 2, 3])))) for _ in range(nd)]
            k = rng.choice([0, 1, 2, 3, 5, 100000])
            c.append("tokens %d %d %s" % (i, k, " ".join(hexs(d) for d in ds)))
            continue
        r = rng.random()
        if r < .2 or val[i] is None:
            w = W()
            c.append(rng.choice(["create", "createlen", "set"]) + " %d %s" % (i, hexs(w)))
            val[i] = w
        elif r < .23:
            c.append(rng.choice(["create %d N", "createlen %d N", "set %d N", "destroy %d"]) % i)
            if "N" not in c[-1]:
                val[i] = None
        elif r < .36:
            a = rng.choice([hexs(W()), hexs(W()), "S"]) if c else "-"
            o = rng.choice(["fmt", "setfmt", "appendfmt"])
            k = rng.choice([0, 1, 2, 3, 4, 5])
            n = rng.choice([0, 7, -1, 12345, -2000000000, 99])
            y = W(40)
            c.append("%s %d %d %s %d %s" % (o, i, k, a, n, hexs(y)))
            val[i] = (cur if o == "appendfmt" else b"") + y
            if len(cur) > 3000:
                c.append("set %d -" % i)
                val[i] = b""
        elif r < .5:
            j = rng.randrange(4)
            o = rng.choice(["dup", "setslot", "appendslot", "cmp", "cmp"])
            c.append("%s %d %d" % (o, i, j))
            if o in ("dup", "setslot"):
                val[i] = val[j]
            if len(cur) > 3000:
                c.append("set %d -" % i)
                val[i] = b""
        elif r < .6:
            w = W(200)
            c.append("append %d %s" % (i, hexs(w)))
            val[i] = cur + w
        elif r < .7:
            n = len(cur)
            a, z = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
            if rng.random() < .2:
                a, z = rng.choice([(z, a), (0, n), (n, n), (0, n + 1), (n + 1, n + 1), (0, 0xffffffff), (0xffffffff, 0xffffffff), (1, 0)])
            c.append("sub %d %d %d" % (i, a, z))
            if a <= z <= n:
                val[i] = cur[a:z]
        elif r < .82:
            lst = bytes(rng.sample(list(al), min(len(al), rng.choice([0, 1, 1, 2]))))
            if rng.random() < .5 and lst:
                pad = lambda: rbytes(rng, rng.randrange(4), lst)
                cur = pad() + cur + pad()
                c.append("set %d %s" % (i, hexs(cur)))
            c.append("trim %d %s" % (i, hexs(lst)))
            val[i] = cur.strip(lst) if lst else cur
        else:
            if len(cur) > 400:
                cur = cur[:200]
                c.append("set %d %s" % (i, hexs(cur)))
            if cur and rng.random() < .7:
                a = rng.randrange(len(cur))
                p = cur[a:a + rng.choice([1, 1, 2, 3])]
            else:
                p = W(6) or b"a"
            w = rng.choice([b"", p[:1], p + p, p, W(5), rbytes(rng, len(p), al), W(40)])
            c.append("replace %d %s %s" % (i, hexs(p), hexs(w)))
            val[i] = cur.replace(p, w)
            if len(val[i]) > 4000:
                c.append("set %d -" % i)
                val[i] = b""
    return c + ["end"]


def model_tests(chk, kind):
    t = model_check(chk, "str", "StrImpl", gen=True) + model_check(chk, "str", "StrImpl", "StrImplB", gen=True)
    t = [x for x in t if ("tokens" in x) == (kind == "tokens")]
    return sorted(set(t))


def group(tests, n=40):
    return [["begin"] + [c for t in tests[i:i + n] for c in t.strip(";").split(";")] + ["end"] for i in range(0, len(tests), n)]


def run_str(chk):
    b = drv(chk)
    rng = chk.rng
    tests = model_tests(chk, "ops")
    rng.shuffle(tests)
    if not validate(chk, b, "str", "TraceStr", group(tests if chk.thorough else tests[:8000]), what="StrImpl cases"):
        return
    chunks = [random_chunk(rng, chk.n(120, 250)) for _ in range(chk.n(80, 1500))]
    # values around the formatting buffer and other sizes
    for n in (1, 255, 256, 1000, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 4096):
        w = hexs(rbytes(rng, n, b"abc"))
        c = ["begin"]
        for k in (0, 2, 3, 5):
            c += ["fmt 0 %d %s 42 %s" % (k, w, hexs(b"yy")), "setfmt 1 %d %s -7 %s" % (k, w, w), "appendfmt 1 %d %s -7 -" % (k, hexs(b"q")),
                  "appendfmt 0 0 S 0 -"]
        c += ["create 2 " + w, "dup 3 2", "cmp 2 3", "append 3 " + w, "cmp 2 3", "appendslot 3 2", "sub 3 %d %d" % (n, 2 * n), "cmp 2 3",
              "set 3 " + hexs((b"ab" + b"c" * (n // 12)) * 12), "replace 3 %s -" % hexs("b"), "replace 3 %s %s" % (hexs("a"), hexs("xyz")), "setslot 3 3", "cmp 3 3"]
        chunks.append(c + ["end"])
    # strings that differ in one byte only
    for _ in range(chk.n(60, 600)):
        w = bytearray(rbytes(rng, rng.randrange(1, 24), bytes(range(1, 256))))
        v = bytearray(w)
        v[rng.randrange(len(v))] ^= rng.choice([1, 2, 0x80, 0x20])
        if 0 in v:
            continue
        c = ["begin", "create 0 " + hexs(bytes(w)), "create 1 " + hexs(bytes(v)), "cmp 0 1", "cmp 1 0", "dup 2 1", "cmp 1 2", "create 3 " + hexs(bytes(w[:-1])),
             "cmp 0 3", "cmp 3 0", "replace 0 %s %s" % (hexs(bytes(w)), hexs(bytes(v))), "cmp 0 1", "replace 0 - 61", "end"]
        chunks.append(c)
    chunks.append(["begin", "create 0 -", "replace 0 - -", "replace 0 - 61", "create 0 616263", "replace 0 - 62", "replace 0 - -", "end"])
    if not validate(chk, b, "str", "TraceStr", chunks, what="random histories", timeout=40):
        return
    # lengths around 2^16: recorded length, comparison, appending, cutting
    chunks = []
    for n in (65535, 65536, 65537, 65540, 131072)[:: 1 if chk.thorough else 2]:
        chunks.append(["begin", "create 0 *%d:61" % n, "create 1 *%d:61" % (n - 65535), "cmp 0 1", "cmp 1 0", "set 1 *%d:61" % max(n - 65536, 0), "cmp 1 0", "cmp 0 1",
                       "append 1 *%d:61" % (n - max(n - 65536, 0)), "cmp 0 1", "sub 1 %d %d" % (n - 2, n), "destroy 1", "set 1 62", "appendslot 1 0", "destroy 0", "end"])
        chunks.append(["begin", "set 1 61", "appendfmt 1 3 *%d:62 1 63" % n, "destroy 1", "createlen 2 *%d:6162" % (n // 2), "dup 3 2", "cmp 2 3", "destroy 2",
                       "append 3 63", "sub 3 1 %d" % (n - 3), "end"])
        chunks.append(["begin", "setfmt 1 2 *%d:62 7 -" % n, "replace 1 79 7a7a", "end"])
    if not validate(chk, b, "str", "TraceStr", chunks, what="long strings", timeout=40):
        return
    lim = drv(chk, 24)
    # formatting and create_len are not subject to the limit: they are left out here
    chunks = [[c.replace("createlen", "create") for c in random_chunk(rng, 80, mx=25) if "fmt" not in c.split()[0]] for _ in range(chk.n(40, 400))]
    validate(chk, lim, "str", "TraceStr", chunks, what="length limit 24")


def run_tok(chk):
    b = drv(chk)
    rng = chk.rng
    tests = model_tests(chk, "tokens")
    if not validate(chk, b, "str", "TraceStr", group(tests if chk.thorough else tests[rng.randrange(2)::2]), what="StrImpl cases"):
        return
    chunks = [random_chunk(rng, chk.n(120, 250), mx=100, tokens=.6) for _ in range(chk.n(80, 1500))]
    for _ in range(chk.n(40, 400)):
        n = rng.choice([5, 40, 300])
        w = rbytes(rng, n, rng.choice([b"ab-", b"--a", b"abcdefgh-", bytes(range(1, 256))]))
        for k in {0, 1, 2, w.count(b"-"), w.count(b"-") + 1, w.count(b"-") + 2, rng.randrange(n)}:
            chunks.append(["begin", "create 0 " + hexs(w), "tokens 0 %d 2d" % k, "tokens 0 %d 2d61 2d" % k, "tokens 0 %d -" % k, "tokens 0 100000 2d", "end"])
    if not validate(chk, b, "str", "TraceStr", chunks, what="random strings"):
        return
    L = [0, 1, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 1 << 20]
    c = ["begin"] + ["longtok %d" % n for n in L] + ["longtok 1 %d 0 3 0" % n for n in L] + ["longtok 0 %d %d 2" % (n, m) for n in L[2:] for m in L[2:10]]
    c += ["longtok " + " ".join(str(rng.choice([0, 1, 5, rng.randrange(200000)])) for _ in range(rng.randrange(1, 9))) for _ in range(chk.n(20, 200))]
    c += ["longtok %d 7 0" % ((1 << 24) + 3)]
    validate(chk, b, "str", "TraceStr", [c + ["end"]], what="long tokens", timeout=60)


def oom_suites(chk):
    b = drv(chk)
    rng = chk.rng
    yield b, "str", "TraceStr", [random_chunk(rng, 80, faults=.3, mx=60, tokens=.1) for _ in range(chk.n(40, 400))], "str"
    c = ["begin"]
    ops = ["fmt 0 0 61 3 62", "setfmt 0 3 61 3 62", "appendfmt 0 2 61 3 62", "dup 0 1", "setslot 0 1", "appendslot 0 1", "append 0 6161", "trim 0 61",
           "sub 0 1 3", "replace 0 61 6263", "replace 0 61 -", "replace 0 61 62", "create 0 6161", "createlen 0 6161", "set 0 62"]
    for o in ops:
        c += ["create 0 " + hexs("abaaba"), "create 1 " + hexs("xyz"), "fail 1", o, o]
        c += ["destroy 0", "fail 1", o, o]
    yield b, "str", "TraceStr", [c + ["end"]], "str single operations"


CHECKS = {"C08": (run_str, "model_checking"), "C09": (run_tok, "model_checking")}
