from core import *


def drv(chk):
    return build(chk, "uri_drv", ["uri_drv.c", "vf.c"], ["uri/sc_uri.c"], incs=["uri"])


def w(rng, al, mx=8):
    return bytes(rng.choice(al) for _ in range(rng.randrange(mx)))


def mk(rng):
    u = b"abcdeXYZ019-._~%!$&'()*+,;="
    any_ = bytes(range(1, 256))
    c = rng.choice([u, u, u + b":@", u + b":/?#[]@", any_])
    s = rng.choice([b"http", b"a", b"x+y.z-1", w(rng, c)])
    r = s + rng.choice([b":", b":", b":", b""])
    if rng.random() < .7:
        r += b"//"
        if rng.random() < .5:
            r += w(rng, c) + rng.choice([b"@", b"@", b":@", b"@@"])
        r += rng.choice([w(rng, c), b"[::1]", b"[2001:db8::7]", b"[" + w(rng, c) + b"]", b"[" + w(rng, c), b"", b"h", b"1.2.3.4", b"[", b"]", b"[]"])
        if rng.random() < .6:
            r += b":" + rng.choice([str(rng.randrange(70000)).encode(), b"", b"0", b"00080", b"65535", b"65536", b"65534", b"065535", b"-1", b"+80", b" 80", b"80a", b"0x50",
                                    b"99999999999999999999999", b"4294967376", b"18446744073709551696", b"-18446744073709551536", b"80 ", b"8:0", w(rng, c)])
    r += rng.choice([b"", b"/", b"/" + w(rng, c), w(rng, c), b"/a:80/b@c", b"/p:1", b"//x"])
    if rng.random() < .5:
        r += b"?" + w(rng, rng.choice([c, u + b"?/:@"]))
    if rng.random() < .5:
        r += b"#" + w(rng, rng.choice([c, u + b"#?/:@"]))
    if rng.random() < .15 and r:
        i = rng.randrange(len(r))
        r = r[:i] + bytes([rng.choice(c)]) + r[i + rng.randrange(2):]
    if rng.random() < .04:
        i = rng.randrange(len(r) + 1)
        r = r[:i] + w(rng, u, 2000) + r[i:]
    return r


def group(cmds, n):
    return [["begin"] + cmds[i:i + n] + ["end"] for i in range(0, len(cmds), n)]


def run_uri(chk):
    b = drv(chk)
    rng = chk.rng
    tests = []
    for c in "ABC":
        tests += model_check(chk, "uri", "UriImpl", "UriImpl" + c, gen=True)
    if not chk.thorough and len(tests) > 16000:
        tests = rng.sample(tests, 16000)
    if not validate(chk, b, "uri", "TraceUri", group(["parse " + t for t in tests], 300), what="UriImpl strings"):
        return
    cmds = ["parse N", "parse -"] + ["parse " + hexs(mk(rng)) for _ in range(chk.n(9000, 150000))]
    for p in list(range(0, 70000, chk.n(97, 7))) + list(range(65500, 65580)):
        cmds.append("parse " + hexs("u://h:%d%s" % (p, rng.choice(["", "/", "?q", "#f"]))))
    validate(chk, b, "uri", "TraceUri", group(cmds, 200), what="random strings")


def oom_suites(chk):
    rng = chk.rng
    c = []
    for _ in range(chk.n(150, 1500)):
        t = hexs(mk(rng))
        c += ["fail 1", "parse " + t, "parse " + t]
    yield drv(chk), "uri", "TraceUri", group(c, 60), "uri"


CHECKS = {"C14": (run_uri, "model_checking")}
