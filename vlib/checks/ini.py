from core import *


def drv(chk):
    return build(chk, "ini_drv", ["ini_drv.c", "vf.c"], ["ini/sc_ini.c"], incs=["ini"], wraps=["fopen"])


WS = [b" ", b"  ", b"\t", b"\r", b"\v\f", b""]


def word(rng, mx=12):
    al = rng.choice([b"ab", b"abc xyz", b"k=:v", b"[]ab", bytes(range(1, 10)) + bytes(range(11, 256)), b"a;#b ", b"\xef\xbb\xbf\xff\x80"])
    return bytes(rng.choice(al) for _ in range(rng.randrange(mx)))


def line(rng):
    w = lambda: rng.choice(WS)
    r = rng.random()
    if r < .35:
        q = w() + word(rng) + w() + rng.choice([b"=", b":", b"=", b"=="]) + w() + word(rng) + w()
    elif r < .5:
        q = rng.choice([b"", b"", b" "]) + b"[" + word(rng) + rng.choice([b"]", b"]", b"]", b""]) + w() + rng.choice([b"", b"", b"x"])
    elif r < .7:
        q = rng.choice([b" ", b"\t", b"  "]) + word(rng)
    elif r < .8:
        q = w() + rng.choice([b";", b"#"]) + word(rng)
    elif r < .87:
        q = w()
    elif r < .93:
        q = word(rng)
    else:
        q = b"k=" + word(rng)
    if rng.random() < .25:
        q += rng.choice([b" ;", b" #", b";", b"\t#", b"  ; "]) + word(rng)
    if rng.random() < .1:
        q += b"\r"
    return q.replace(b"\n", b"")


def good(rng):
    """a line that is not malformed, to get deep into a text"""
    r = rng.random()
    nm = lambda: rng.choice([b"k", b"name", b"a b", b"x.y", word(rng, 6).strip().translate(None, b"=:;#[]\n \t\r\v\f") or b"z"])
    w = lambda: rng.choice([b"", b" ", b"\t"])
    if r < .2:
        return b"[" + nm() + b"]" + w()
    if r < .6:
        return nm() + w() + rng.choice([b"=", b":"]) + w() + rng.choice([nm(), b"", b"a=b", b"c:d", b"p;q", b"p ;q", b"[s]"]) + w()
    if r < .8:
        return rng.choice([b" ", b"\t ", b"   "]) + b"m=" + nm() + rng.choice([b"", b" #c", b"#c", b"\r"])
    return rng.choice([b"", b"#c", b" ;c", b"  ", b"\t"])


def text(rng):
    b = rng.choice([b"", b"", b"", b"", b"\xef\xbb\xbf", b"\xef\xbb", b"\xef\xbb\xbf ", b" \xef\xbb\xbf"])
    n = rng.choice([1, 2, 4, 8, 20])
    g = rng.random() < .6
    ls = [good(rng) if g and rng.random() < .97 else line(rng) for _ in range(n)]
    return b + b"\n".join(ls) + rng.choice([b"", b"\n", b"\n\n", b"\r\n"])


def long_text(rng):
    """lines and names around the limits"""
    k = rng.choice([1, 254, 255, 256, 257, 400, 1000, 1015, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1030, 2040, 2046, 2050, 3100])
    f = lambda n: bytes(rng.choice(b"abcd") for _ in range(max(0, n)))
    r = rng.randrange(8)
    if r == 0:
        q = f(k) + b"=" + f(5)
    elif r == 1:
        q = f(4) + b"=" + f(k - 5)
    elif r == 2:
        q = b"[" + f(k) + b"]\nk=v"
    elif r == 3:
        q = f(rng.randrange(k + 1)) + b" = " + f(k) + b" ;" + f(k)
    elif r == 4:
        q = b"k=v\n" + b" " * rng.choice([1, 3, k]) + f(k) + b"=x"
    elif r == 5:
        q = b"#" + f(k) + b"=" + f(3)
    elif r == 6:
        q = b"k=" + f(k) + b" " * rng.choice([1, 5, k]) + f(3)
    else:
        q = f(3) + b"=" + f(k - 5) + b" ;x=y"
    t = q + rng.choice([b"", b"\n", b"\nlast=1", b"\n cont\n"])
    return rng.choice([b"", b"", b"[s]\n", b"\xef\xbb\xbf", b"a=b\n"]) + t


def group(cmds, n=60):
    return [["begin"] + cmds[i:i + n] + ["end"] for i in range(0, len(cmds), n)]


def run_ini(chk):
    b = drv(chk)
    rng = chk.rng
    tests = model_check(chk, "ini", "IniImpl", "IniImplA", gen=True) + model_check(chk, "ini", "IniImpl", "IniImplB", gen=True)
    if not chk.thorough:
        tests = rng.sample(tests, 12000)
    if not validate(chk, b, "ini", "TraceIni", group(["both %s 0" % t for t in tests], 200), what="IniImpl texts"):
        return
    cmds = ["nofile -", "nofile 61", "both - 0"]
    for _ in range(chk.n(1500, 20000)):
        t = text(rng)
        cmds.append("both %s 0" % hexs(t))
        r = rng.random()
        if r < .3:
            cmds.append("both %s %d" % (hexs(t), rng.randrange(1, 6)))
        elif r < .4:
            cmds.append("ferr %s %d %d" % (hexs(t), rng.choice([0, 0, 2]), rng.randrange(len(t) + 1)))
    for _ in range(chk.n(250, 3000)):
        cmds.append("both %s %d" % (hexs(long_text(rng)), rng.choice([0, 0, 0, 1, 2])))
    for pad in [200, 254, 32765, 65533, 70000] + chk.n([], [1 << 20, (1 << 24) - 2]):
        for _ in range(3):
            t = text(rng)
            if not t.startswith(b"\xef"):
                cmds.append("lines %s %d %d" % (hexs(t), rng.choice([0, 0, 1, 2]), pad))
        cmds.append("lines %s 0 %d" % (hexs(b"\na=b\n[s]\n k2=v2\n\nk3=v3\nbad\n"), pad))
    validate(chk, b, "ini", "TraceIni", group(cmds), what="random texts")


CHECKS = {"C13": (run_ini, "model_checking")}
