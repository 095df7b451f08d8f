from core import *
import itertools

MMW = ("sysconf stat stat64 fstat fstat64 ftruncate ftruncate64 posix_fallocate posix_fallocate64 mmap mmap64 open open64 close "
       "msync fsync fdatasync mlock munlock munmap").split()


def mmdrv(chk):
    return build(chk, "mmap_drv", ["mmap_drv.c", "vf.c"], ["memory-map/sc_mmap.c"], incs=["memory-map"], wraps=MMW)


def mm_pos(x):
    return x // 4 * 4096 + (0, 1, 2048, 4095)[x % 4]


ERRS = [12, 5, 28, 13, 22]


def mm_expand(rng, t):
    c = ["begin"]
    for w in t.split(";"):
        a = w.split(",")
        if a[0] == "O":
            off, n = int(a[5]), int(a[6])
            o = mm_pos(off)
            if a[7] != "0":
                c.append("fault %s %d" % (a[7], rng.choice(ERRS)))
            c.append("init %s %s %s %s %d %d" % (a[1], a[2], a[3], a[4], o, mm_pos(off + n) - o if n else 0))
        elif a[0] == "S":
            c.append("store %s %d %s" % (a[1], mm_pos(int(a[2])), a[3]))
        elif a[0] in "YLU" and w:
            o = mm_pos(int(a[2]))
            c.append("%s %s %d %d" % ({"Y": "msync", "L": "mlock", "U": "munlock"}[a[0]], a[1], o, mm_pos(int(a[2]) + int(a[3])) - o))
        elif a[0] == "T":
            if len(a) > 2:
                c.append("fault 1 22")
            c.append("term " + a[1])
    return c + ["term 1", "term 2", "end"]


def mm_rand(rng):
    c, on = ["begin"], {1: None, 2: None}
    pos = lambda hi: min(hi, max(0, rng.choice([0, 1, 4095, 4096, 4097, 8191, 8192, 12288, 12289, hi - 1, hi, rng.randrange(hi + 1)])))
    size = 0
    for _ in range(rng.randrange(4, 25)):
        s = rng.choice([1, 2])
        r = rng.random()
        if r < .1:
            c.append("fault %d %d" % (rng.randrange(1, 7), rng.choice(ERRS + [4, 4, 4])))
        if on[s] is None:
            fl = "x" + rng.choice(["", "c", "c"]) + rng.choice(["", "w", "w", "w"])
            if on[3 - s] is None and rng.random() < .2:
                fl += "t"
            pr = rng.choice(["r", "rw", "rw"])
            off = rng.choice([0, 0, 0, 4096, 8192, 3, 4095, rng.randrange(20000)])
            n = rng.choice([0, 0, 1, 4095, 4096, 4097, 8192, 12288, 20000, rng.randrange(1, 40000)])
            c.append("init %d %s %s %d %d %d" % (s, fl, pr, rng.random() < .75, off, n))
            on[s] = (off, n or 8192, pr == "rw")
        elif r < .3:
            c.append("term %d" % s)
            on[s] = None
        else:
            n = on[s][1]
            a = pos(n)
            if r < .5:
                if on[s][2]:
                    c.append("store %d %d %d" % (s, min(a, n - 1), rng.randrange(256)))
            else:
                b = pos(n)
                lo, hi = min(a, b), max(a, b)
                if rng.random() < .2:
                    c.append("fault 1 %d" % rng.choice(ERRS))
                c.append("%s %d %d %d" % (rng.choice(["msync", "msync", "mlock", "munlock"]), s, lo, hi - lo))
    return c + ["term 1", "term 2", "term 1", "end"]


def mm_far(rng):
    """The same beyond what 31 and 32 bits can hold; some of the maps start at 0."""
    base = rng.choice([1 << 31, 1 << 32, 1 << 32, 1 << 33, (1 << 31) - 4096, (1 << 32) - 8192])
    c = []
    for x in mm_rand(rng):
        w = x.split()
        if w[0] == "begin":
            x = "begin %d" % base
        if w[0] == "init":
            w[2] = w[2].replace("t", "") + ("W" if rng.random() < .3 and not ("w" in w[3] and w[4] == "0") else "")
            x = " ".join(w)
        c.append(x)
    return c


def run_mmap(chk):
    rng = chk.rng
    b = mmdrv(chk)
    t = model_check(chk, "mmap", "MmapImpl", "MmapImplA", gen=True)
    t2 = model_check(chk, "mmap", "MmapImpl", "MmapImplB", gen=True)
    if not chk.thorough:
        t, t2 = rng.sample(t, min(len(t), 2500)), rng.sample(t2, min(len(t2), 1500))
    chunks = [mm_expand(rng, x) for x in t + t2]
    # each call of each operation interrupted or failing
    for pr, fl, ln, n, e in itertools.product(("r", "rw"), ("xw", "xcw", "xctw", "xc"), (0, 5000), range(1, 7), ERRS + [4]):
        chunks.append(["begin", "init 1 xcw rw 1 0 5000", "store 1 4999 7", "fault %d %d" % (n, e), "init 2 %s %s 1 0 %d" % (fl.replace("t", ""), pr, ln), "term 2", "term 1",
                       "fault %d %d" % (n, e), "init 1 %s %s 1 0 %d" % (fl, pr, ln), "msync 1 0 5000", "term 1", "end"])
    chunks += [mm_rand(rng) for _ in range(chk.n(1500, 30000))]
    chunks += [mm_far(rng) for _ in range(chk.n(350, 10000))]
    validate(chk, b, "mmap", "TraceMmap", chunks, what="maps")



# ------------------------------------------------------------------ poll
def polldrv(chk, name="poll_drv", defs=()):
    return build(chk, name, ["poll_drv.c", "vf.c"], ["socket/sc_sock.c"], incs=["socket"], wraps=["epoll_ctl", "epoll_wait", "epoll_pwait"], defs=defs)


def poll_tests(rng, t):
    """A walk of the model, then waits around every change of readiness."""
    kind = rng.choice([0, 0, 1, 2])
    c = ["begin", "pinit 1", "open 1 %d" % kind]
    if rng.random() < .5:
        c.append("peer 1 write")
    k = 1
    for w in t.split(";"):
        if not w:
            continue
        op = {"A": "add", "D": "del"}[w[0]]
        if w.endswith("!"):
            c.append("fault ctl %d 1" % rng.choice([12, 28, 1]))
        line = "%s 1 1 %s %d" % (op, w[1], k)
        k += 1
        if len(w) > 3:
            line += " nest %s %s %d" % (w[2].lower(), w[3], k)
            k += 1
        c.append(line)
    for a in ["wait 1 0", "wait 1 0", "peer 1 write", "wait 1 0", "peer 1 write", "wait 1 0", "own 1 drain", "wait 1 0", "own 1 fill", "wait 1 0", "peer 1 read", "wait 1 0",
              rng.choice(["peer 1 shut", "peer 1 close"]), "wait 1 0", "wait 1 0"]:
        c.append(a)
    return c + ["end"]


def poll_rand(rng, n=8):
    c = ["begin", "pinit 1"] + (["pinit 2"] if rng.random() < .4 else [])
    for i in range(1, n + 1):
        if rng.random() < .7:
            c.append("open %d %d" % (i, rng.choice([0, 0, 1, 2])))
    ms = lambda: rng.choice([1, 2, 3, 5, 6, 7, 4, 1, 3, 7])
    k = 0
    for _ in range(rng.randrange(10, 60)):
        i, p, r = rng.randrange(1, n + 1), rng.choice([1, 1, 2]), rng.random()
        k = k % 99 + 1
        if r < .06:
            c.append("fault ctl %d 1" % rng.choice([12, 28]))
        if r < .35:
            c.append("%s %d %d %d %d" % (rng.choice(["add", "add", "del"]), p, i, ms(), k) + (" nest %s %d %d" % (rng.choice("ad"), ms(), k % 99 + 1) if rng.random() < .15 else ""))
        elif r < .55:
            c.append("peer %d %s" % (i, rng.choice(["write"] * 5 + ["read"] * 3 + ["close", "shut"])))
        elif r < .63:
            c.append("own %d %s" % (i, rng.choice(["fill", "drain"])))
        elif r < .66:
            c.append("close %d" % i)
        elif r < .70:
            c.append("open %d %d" % (i, rng.choice([0, 0, 1, 2])))
        elif r < .71:
            c.append("p%s %d" % (rng.choice(["init", "term"]), p))
        else:
            if rng.random() < .1:
                c.append("fault wait %d %d" % (rng.choice([4, 4, 4, 22, 9]), rng.randrange(1, 4)))
            c.append("wait %d %d" % (p, 0 if rng.random() < .97 else rng.choice([3, 12, -1])))
            if rng.random() < .3:
                c += ["wait %d 0" % p] * rng.randrange(1, 7)
    return c + ["end"]


def run_poll(chk):
    rng = chk.rng
    t = model_check(chk, "sock", "PollImpl", gen=True)
    b = polldrv(chk)
    chunks = [poll_tests(rng, x) for x in t]
    chunks += [poll_rand(rng) for _ in range(chk.n(900, 20000))]
    if not validate(chk, b, "sock", "TracePoll", chunks, what="interest"):
        return
    b2 = polldrv(chk, "poll_drv2", ["-DSC_SOCK_POLL_MAX_EVENTS=2"])
    validate(chk, b2, "sock", "TracePoll", [poll_rand(rng) for _ in range(chk.n(600, 10000))], cfg="TracePoll2", what="more ready than fit")


# ------------------------------------------------------------------ sockets
SKW = ("socket listen setsockopt getsockopt getsockname getpeername connect pipe pipe2 epoll_create1 epoll_create bind unlink fcntl fcntl64 accept accept4 "
       "getaddrinfo freeaddrinfo close send recv sendto recvfrom read write sendmsg").split()


def sockdrv(chk):
    return build(chk, "sock_drv", ["sock_drv.c", "vf.c"], ["socket/sc_sock.c"], incs=["socket"], wraps=SKW)


SKERR = [12, 24, 98, 13, 22, 4, 105, 104]  # ENOMEM EMFILE EADDRINUSE EACCES EINVAL EINTR ENOBUFS ECONNRESET


def sk_size(rng, n):
    return n if n <= 0 else rng.choice([1, 2, 100, 1000]) if n == 1 else rng.choice([300, 1999, 2000])


def sk_xfer(rng, x):
    if x == "eintr":
        return ["xfer eintr %d" % rng.choice([1, 2, 40])]
    if x == "short":
        return ["xfer short %d" % rng.choice([1, 7, 99])]
    if x == "err":
        return ["xfer err 0 %d" % rng.choice([104, 5, 32, 12, 9])]
    return []


def sk_expand(rng, t):
    w = t.split(";")
    fam, blk = w[0], w[1]
    c = ["begin"] + ["init %d %s %s" % (i + 1, b, fam) for i, b in enumerate(blk)]
    for o in w[2:]:
        if not o:
            continue
        a = o.split(",")
        if a[-1].startswith("!"):
            f = a.pop()[1:]
            again = f.endswith("a")
            e = rng.choice([11, 115]) if again and a[0] == "connect" else 11 if again else rng.choice(SKERR)
            if a[0] == "poll" and f == "1":
                a.append("x")
            else:
                c.append("fault %s %d" % (1 if a[0] == "poll" else f.rstrip("a"), e))
        if a[0] == "connect":
            a = a[:3] + ["g"] + a[3:]
        if a[0] in ("send", "recv"):
            c += sk_xfer(rng, a[3])
            a = a[:2] + [str(sk_size(rng, int(a[2])))]
        c.append(" ".join(a))
    if rng.random() < .3:
        # ... of several addresses
        for k in [k for k, x in enumerate(c) if x.startswith("connect")][-1:]:
            c.insert(k, "hosts " + rng.choice(["dt", "ddt", "Dt", "td", "dDt"]))
    if "conn" in t:
        c += ["addr 2 %d" % rng.choice([1, 5, 20, 200]), "send 2 700", "recv 3 2000", "send 3 5", "recv 2 64"]
    return c + ["term 1", "term 2", "term 3", "term 2", "end"]


def sk_rand(rng):
    c, fams = ["begin"], rng.choice(["4", "6", "u", "46u", "4u"])
    for i in range(1, 6):
        c.append("init %d %d %s" % (i, rng.random() < .5, rng.choice(fams)))
    S = lambda: rng.randrange(1, 6)
    role = {1: "l", 2: rng.choice("lc"), 3: "c", 4: "a", 5: rng.choice("ac")}
    L = [i for i in role if role[i] == "l"]
    A = [i for i in role if role[i] == "a"] + [5]
    C = [i for i in role if role[i] == "c"] + [5]
    c += ["listen %d g" % i for i in L if rng.random() < .8]
    for _ in range(rng.randrange(8, 50)):
        r = rng.random()
        if rng.random() < .07:
            c.append("fault %d %d" % (rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]), rng.choice(SKERR + [11, 115])))
        if r < .06:
            if rng.random() < .2:
                c.append("hosts tt")
            c.append("listen %d %s" % (rng.choice(L), rng.choice(["g", "g", "b", "l20",  "l107", "l108", "l150"])))
        elif r < .2:
            if rng.random() < .3:
                c.append("hosts " + rng.choice(["dt", "td", "ddt", "Dt", "Ddt", "dD", "tt", "dtd", "D"]))
            c.append("connect %d %d %s %s" % (rng.choice(C), rng.choice(L + [0] if rng.random() < .3 else L), rng.choice(["g"] * 8 + ["p", "l107", "l108", "l190"]), rng.choice(["-"] * 5 + ["2", "n", "x", "P", "Q"])))
        elif r < .34:
            c.append("accept %d %d" % (rng.choice(L), rng.choice(A)))
        elif r < .4:
            if rng.random() < .1:
                c.append("soerr %d" % rng.choice([110, 113, 101, 4, 104, 111, 11, 115, 1]))
            c.append("finish %d" % S())
        elif r < .8:
            c += sk_xfer(rng, rng.choice(["", "", "", "", "eintr", "short", "short", "err"]))
            n = rng.choice([1, 3, 100, 255, 1000, 5000, 70000, 900000, 0, -1, -33])
            c.append("%s %d %d" % (rng.choice(["send", "recv"]), S(), n))
        elif r < .84:
            c.append("term %d" % S())
        elif r < .87:
            c.append("setblk %d %d" % (S(), rng.random() < .4))
        elif r < .90:
            c.append("timeo %d %s %d" % (S(), rng.choice("rs"), rng.choice([0, 1, 5, 10, 99, 500, 999, 1000, 1001, 1500, 59999, 123456, 999999, rng.randrange(10**7)])))
        elif r < .95:
            c.append("addr %d %d" % (S(), rng.choice([1, 2, 5, 12, 14, 15, 16, 20, 21, 22, 30, 40, 60, 128, 300])))
        elif r < .97:
            c += ["init %d %d %s" % (i, rng.random() < .5, rng.choice(fams)) for i in [S()]]
        else:
            i = rng.choice(C)
            c += ["connect %d %d g -" % (i, rng.choice(L))]
    return c + ["term %d" % i for i in range(1, 6)] + ["end"]


def pipe_rand(rng):
    c = ["begin"]
    for _ in range(rng.randrange(3, 30)):
        p, r = rng.randrange(3), rng.random()
        if rng.random() < .15:
            c.append("fault %d %d" % (rng.choice([1, 1, 2, 3]), rng.choice(SKERR)))
        if r < .2:
            c.append("pipe %d" % p)
        elif r < .55:
            c += sk_xfer(rng, rng.choice(["", "", "eintr", "short", "err"])) + ["pwrite %d %d" % (p, rng.choice([0, 1, 8, 100, 4096, 20000]))]
        elif r < .85:
            c += sk_xfer(rng, rng.choice(["", "", "eintr", "short", "err"])) + ["pread %d %d" % (p, rng.choice([0, 1, 8, 100, 4096, 60000]))]
        elif r < .9:
            c.append("pipeterm %d" % p)
        elif r < .96:
            c.append("poll %d%s" % (p, " x" if rng.random() < .2 else ""))
        else:
            c.append("pollterm %d" % p)
    for p in range(3):
        c += ["pipeterm %d" % p, "pollterm %d" % p]
    return c + ["end"]


def notify_tests(rng, n):
    c = []
    for k in range(n):
        f = ["fault %d %d" % (rng.choice([1, 2, 3]), rng.choice(SKERR))] if rng.random() < .3 else []
        kind = rng.choice("aaappLLLurnss")
        c.append(["begin"] + f + ["notify %s %d" % (kind, rng.choice([20, 50, 90, 100, 105, 106, 107, 109, 110, 150, 300]) if kind == "L" else rng.randrange(2) if kind == "s" else rng.randrange(90)), "end"])
    return c


def sk_chunks(chk):
    rng = chk.rng
    t = model_check(chk, "sock", "SockImpl", "SockImplA", gen=True)
    p = sorted(set(x[6:] for x in model_check(chk, "sock", "SockImpl", "SockImplP", gen=True)))
    # a transition that ends in something other than an address question says more
    t = rng.sample(t, min(len(t), chk.n(5000, 60000)))
    chunks = [sk_expand(rng, x) for x in t] + [sk_expand(rng, "4;;" + x) for x in p]
    chunks += [sk_rand(rng) for _ in range(chk.n(1200, 30000))]
    chunks += [pipe_rand(rng) for _ in range(chk.n(400, 8000))]
    # a connection whose attempt ends in any of these
    for e, blk, f in itertools.product((110, 113, 101, 4, 104, 111, 11, 115, 1, 12, 98, 99), (0, 1), "46"):
        chunks.append(["begin", "init 1 1 " + f, "init 2 %d %s" % (blk, f), "listen 1 g", "connect 2 %s g %s" % (rng.choice("01"), rng.choice("---PQ2")), "soerr %d" % e, "finish 2", "finish 2", "term 2", "term 1", "end"])
    chunks += notify_tests(rng, chk.n(150, 2000))
    return chunks


def run_sock(chk):
    validate(chk, sockdrv(chk), "sock", "TraceSock", sk_chunks(chk), cfg="TraceSockData", what="streams")


def run_leak(chk):
    validate(chk, sockdrv(chk), "sock", "TraceSock", sk_chunks(chk), cfg="TraceSockRes", what="resources")


CHECKS = {"C22": (run_mmap, "model_checking"), "C23": (run_poll, "model_checking"), "C24": (run_sock, "model_checking"), "C25": (run_leak, "model_checking")}
