from core import *
import math

TYPES = ["int", "uint", "long", "ll", "ulong", "ull", "32", "64", "double", "str", "ptr", "chr", "short", "big"]


# ---------------------------------------------------------------- C01 array
def array_drv(chk, limit=None):
    return build(chk, "array_drv%s" % (limit or ""), ["array_drv.c", "vf.c"], [], incs=["array"],
                 defs=["-DVF_ARRAY_MAX=%d" % limit] if limit else [])


def array_random(rng, ty, nops, faults=0.0, top=250):
    c = ["begin " + ty, "init"]
    n, x, mx = 0, 0, rng.choice([6, 10, 17, 40, top])
    # the number of elements is not known if adds may fail: use only length-independent commands then
    p = rng.choice([.5, .65, .8])
    for i in range(nops):
        if i % 50 == 49:
            p = rng.choice([.3, .5, .8])
        if faults and rng.random() < faults:
            c.append("fail 1")
        r = rng.random()
        if r < .02:
            c.append("clear")
            n = 0
        elif r < .05:
            c.append("sort")
        elif r < .14:
            c.append("dump")
        elif r < .15:
            c.append("scan %d" % rng.choice([1, 2, 5, 100]))
        elif r < .16:
            c += ["term", "init", "dump"]
            n = 0
        elif n and (rng.random() > p or n >= mx):
            k = rng.random()
            i = rng.choice([0, n - 1, n // 2, rng.randrange(n), max(0, n - 2)])
            st = rng.randrange(6)
            c.append("del %d %d" % (i, st) if k < .5 else "delu %d %d" % (i, st) if k < .8 else "dell")
            n -= 1
        elif n and rng.random() < .1:
            c.append("adde %d" % rng.randrange(n))
            n += 1
        else:
            x = (x + rng.choice([1, 1, 7])) % 250 + 1 if ty == "chr" else (x + rng.choice([1, 1, 7, 101])) % 30000 + 1
            c.append("add %d" % x)
            n += 1
    return c + ["dump", "sort", "dump", "end"]


def run_array(chk):
    b = array_drv(chk)
    rng = chk.rng
    tests = model_check(chk, "array", "MCArray", gen=True)
    chunks = []
    for k, ty in enumerate(TYPES):
        sel = tests if (chk.thorough or ty == "int") else tests[rng.randrange(16)::16]
        chunks += [["begin " + ty, "init"] + t.strip(";").split(";") + ["dump", "end"] for t in sel]
    if not validate(chk, b, "array", "TraceArray", chunks, what="MCArray transitions"):
        return
    chunks = [array_random(rng, ty, chk.n(150, 400)) for ty in TYPES for _ in range(chk.n(6, 100))]
    if not validate(chk, b, "array", "TraceArray", chunks, what="random histories"):
        return
    big = []
    for ty in TYPES:
        n = 240 if ty == "chr" else chk.n(600, 3000)
        c = ["begin " + ty, "init"] + ["add %d" % (n + 1 - i) for i in range(1, n + 1)] + ["dump", "sort", "dump"]
        for i in range(20):
            c.append(rng.choice(["del", "delu"]) + " %d" % rng.randrange(n - i))
        big.append(c + ["dump", "clear", "dump", "add 5", "dump", "end"])
    # more elements than 16 bits count
    for ty in TYPES if chk.thorough else ["int", "chr", "big"]:
        n = 66000 + rng.randrange(3000)
        big.append(["begin " + ty, "init", "fill %d %d" % (n, 249 if ty == "chr" else 30000), "del %d" % rng.randrange(100), "delu %d" % rng.randrange(100),
                    "del %d" % (n - 3), "del %d" % rng.randrange(n - 65530, n - 4), "dump", "end"])
    for ty in TYPES:
        n = rng.choice([65534, 65537, 70000, 131073, 140000, 262145, 300000])
        big.append(["begin " + ty, "init"] + ["bulk %d %d" % (k, rng.randrange(k - 2)) for k in (8, 9, 4097, 5000, n)] + ["end"])
    validate(chk, b, "array", "TraceArray", big, what="large arrays")


# ---------------------------------------------------------------- C02 queue
def queue_drv(chk, limit=None):
    return build(chk, "queue_drv%s" % (limit or ""), ["queue_drv.c", "vf.c"], [], incs=["queue"],
                 defs=["-DVF_QUEUE_MAX=%dul" % limit] if limit else [])


def queue_random(rng, ty, nops, faults=0.0):
    c = ["begin " + ty, "init"]
    x = 0
    p = .5
    ends = .5
    for i in range(nops):
        if i % 40 == 0:
            p, ends = rng.choice([.2, .5, .6, .9]), rng.choice([0, .1, .5, .9, 1])
        r = rng.random()
        if faults and rng.random() < faults:
            c.append("fail 1")
        if r < .015:
            c.append("clear")
        elif r < .08:
            c.append("dump")
        elif r < .1:
            c.append("scan %d" % rng.choice([1, 2, 5, 100]))
        elif r < .105:
            c += ["term", "init", "dump"]
        elif rng.random() < p:
            if rng.random() < .1:
                c.append(("addel" if rng.random() < ends else "addef") + " %d" % rng.randrange(50))
                continue
            x = x % (240 if ty == "chr" else 30000) + 1
            c.append(("addl" if rng.random() < ends else "addf") + " %d" % x)
        else:
            c.append("dell" if rng.random() < rng.choice([ends, .5]) else "delf")
    return c + ["dump", "end"]


def run_queue(chk):
    b = queue_drv(chk)
    rng = chk.rng
    tests = model_check(chk, "queue", "QueueImpl", gen=True)
    chunks = []
    for ty in TYPES:
        sel = tests if chk.thorough else tests[rng.randrange(3)::3] if ty == "int" else tests[rng.randrange(100)::100]
        chunks += [["begin " + ty, "init"] + t.strip(";").split(";") + ["dump", "end"] for t in sel]
    if not validate(chk, b, "queue", "TraceQueue", chunks, what="QueueImpl transitions"):
        return
    chunks = [queue_random(rng, ty, chk.n(250, 600)) for ty in TYPES for _ in range(chk.n(8, 120))]
    # growth at every offset of every capacity
    for ty in ("int", "big", "double"):
        for cap in (8, 16, 32) + ((64, 128) if chk.thorough else ()):
            for off in range(0, cap, 1 if chk.thorough or cap <= 16 else 3):
                c = ["begin " + ty, "init"]
                c += ["addl %d" % (i + 1) for i in range(cap - 2)]
                for i in range(off):
                    c += ["delf", "addl %d" % (300 + i)]
                c += ["addl 900", "dump", rng.choice(["addl 901", "addf 901"]), "dump", "addf 902", "dump"]
                c += ["delf", "dell", "dump", "end"]
                chunks.append(c)
    # more elements than 16 bits count, wrapped around
    for ty in TYPES if chk.thorough else ["int", "chr", "big"]:
        n, m = 33000 + rng.randrange(3000), 239 if ty == "chr" else 30000
        k = rng.randrange(100, 30000)
        chunks.append(["begin " + ty, "init", "fill %d %d" % (n, m), "drain %d" % k, "fill %d %d" % (n + k, m), "addf 5", "dell", "delf", "dump", "scan 3",
                       "drain %d" % (n // 2), "dump", "end"])
    validate(chk, b, "queue", "TraceQueue", chunks, what="random histories, growth offsets")


# ---------------------------------------------------------------- C04 heap
def heap_drv(chk, limit=None):
    return build(chk, "heap_drv%s" % (limit or ""), ["heap_drv.c", "vf.c"], ["heap/sc_heap.c"], incs=["heap"],
                 defs=["-DSC_HEAP_MAX=%d" % limit] if limit else [])


I64 = [-(1 << 63), -(1 << 63) + 1, -(1 << 32), -(1 << 31) - 1, -(1 << 31), -2, -1, 0, 1, 2, (1 << 31) - 1, 1 << 31, (1 << 32),
       (1 << 32) + 1, (1 << 53), (1 << 53) + 1, (1 << 62), (1 << 63) - 2, (1 << 63) - 1]


def heap_keys(rng, n):
    s = set()
    while len(s) < n:
        r = rng.random()
        if r < .4:
            s.add(rng.choice(I64))
            if len(s) < n and rng.random() < .1:
                s.add(rng.getrandbits(64) - (1 << 63))
        elif r < .7:
            s.add(rng.randrange(-50, 50))
        else:
            s.add(rng.getrandbits(64) - (1 << 63))
    return sorted(s)


def heap_random(rng, nops, faults=0.0):
    n = rng.choice([1, 2, 3, 5, 12, 18])
    c = ["begin " + " ".join(map(str, heap_keys(rng, n))), "init %d" % rng.choice([0, 0, 1, 2, 3, 4, 5, 7, 8, 16, 100])]
    id_ = 0
    p = .5
    for i in range(nops):
        if i % 40 == 0:
            p = rng.choice([.3, .5, .7, .95])
        if faults and rng.random() < faults:
            c.append("fail %d" % rng.choice([1, 1, 3]))
        r = rng.random()
        if r < .01:
            c.append("clear")
        elif r < .1:
            c.append("peek")
        elif r < .105:
            c += ["term", "init %d" % rng.choice([0, 4])]
        elif rng.random() < p:
            id_ += 1
            c.append("add %d %d" % (rng.randrange(1, n + 1), id_))
        else:
            c.append("pop")
    return c + ["drain", "end"]


def run_heap(chk):
    b = heap_drv(chk)
    rng = chk.rng
    chunks = []
    for cfg in ("HeapImpl", "HeapImplB"):
        tests = model_check(chk, "heap", "HeapImpl", cfg, gen=True)
        for j, t in enumerate(tests[:: 1 if chk.thorough else 2]):
            ks = [[1, 2, 3, 4], [-(1 << 63), -1, 0, (1 << 63) - 1], [-5, (1 << 31) - 1, 1 << 31, 1 << 33]][j % 3]
            chunks.append(["begin " + " ".join(map(str, ks)), "init %d" % [0, 0, 1, 4, 7][j % 5]] + t.strip(";").split(";") + ["drain", "end"])
    if not validate(chk, b, "heap", "TraceHeap", chunks, what="HeapImpl transitions"):
        return
    # every permutation of distinct keys, drained
    import itertools
    chunks = []
    for n in range(1, chk.n(6, 8)):
        for perm in itertools.permutations(range(1, n + 1)):
            chunks.append(["begin " + " ".join(map(str, range(1, n + 1))), "init 0"] + ["add %d %d" % (k, i + 1) for i, k in enumerate(perm)] + ["drain", "end"])
    chunks += [heap_random(rng, chk.n(300, 800)) for _ in range(chk.n(60, 1500))]
    for n in (200, chk.n(500, 3000)):
        ks = heap_keys(rng, 18)
        c = ["begin " + " ".join(map(str, ks)), "init 0"]
        c += ["add %d %d" % (rng.randrange(1, 19), i + 1) for i in range(n)]
        chunks.append(c + ["drain", "end"])
    if not validate(chk, b, "heap", "TraceHeap", chunks, what="permutations, random histories"):
        return
    chunks = [["begin 1 2", "init %d" % cap, "add 1 1", "add 2 2", "drain", "end"]
              for cap in list(range(0, 20)) + [1 << 20, 1 << 40, (1 << 60) - 1, 1 << 60, (1 << 60) + 1, (1 << 63), (1 << 64) - 1, (1 << 64) - 2]]
    if not validate(chk, b, "heap", "TraceHeap", chunks, what="initial capacities"):
        return
    chunks = []
    for n in [1, 2, 255, 256, 257, 5000, 32768, 65535, 65536, 65537, 140000] + chk.n([], [1 << 20, 3 << 20]):
        for _ in range(2):
            a = rng.choice([1, n - 1 if n > 1 else 1, rng.randrange(1, n + 1), rng.randrange(1, n + 1)])
            while math.gcd(a, n) != 1:
                a = rng.randrange(1, n + 1)
            chunks.append(["begin 1", "bulk %d %d %d %d" % (rng.choice([0, 1, n, 100]), n, a, rng.choice([0, 1, n // 2, n])), "end"])
    validate(chk, b, "heap", "TraceHeap", chunks, what="many entries")


# ---------------------------------------------------------------- C05 list
def list_random(rng, nl, ne, nops):
    c = ["begin %d %d" % (nl, ne)]
    where = {e: 0 for e in range(1, ne + 1)}
    lists = {i: [] for i in range(1, nl + 1)}

    def rm(e):
        if where[e]:
            lists[where[e]].remove(e)
        where[e] = 0
    for _ in range(nops):
        r = rng.random()
        i, e = rng.randrange(1, nl + 1), rng.randrange(1, ne + 1)
        if r < .4:
            k = rng.randrange(4)
            others = [x for x in lists[i] if x != e]
            if k >= 2 and not others:
                k -= 2
            if k == 0:
                rm(e); lists[i].insert(0, e); c.append("addh %d %d" % (i, e))
            elif k == 1:
                rm(e); lists[i].append(e); c.append("addt %d %d" % (i, e))
            else:
                p = rng.choice(others)
                rm(e)
                lists[i].insert(lists[i].index(p) + (k == 2), e)
                c.append(("adda" if k == 2 else "addb") + " %d %d %d" % (i, p, e))
            where[e] = i
        elif r < .55:
            rm(e); c.append("del %d" % e)
        elif r < .65:
            h = rng.random() < .5
            c.append(("poph" if h else "popt") + " %d" % i)
            if lists[i]:
                rm(lists[i][0 if h else -1])
        elif r < .67:
            c.append("clear %d" % i)
            for x in list(lists[i]):
                rm(x)
        elif r < .8:
            s = [x for x in range(1, ne + 1) if rng.random() < rng.choice([.2, .5, .9, 1])]
            rev = rng.randrange(2)
            j = rng.randrange(1, nl + 1)
            if j != i and rng.random() < .5:
                c.append("itmove %d %d %d -- %s" % (i, rev, j, " ".join(map(str, s))))
                vis = lists[i][::-1] if rev else lists[i][:]
                for x in vis:
                    if x in s:
                        rm(x); lists[j].append(x); where[x] = j
            else:
                c.append("itdel %d %d -- %s" % (i, rev, " ".join(map(str, s))))
                for x in list(lists[i]):
                    if x in s:
                        rm(x)
        else:
            c.append("dumps")
    return c + ["dumps", "end"]


def run_list(chk):
    b = build(chk, "list_drv", ["list_drv.c", "vf.c"], ["linked-list/sc_list.c"], incs=["linked-list"])
    rng = chk.rng
    tests = model_check(chk, "list", "ListImpl", gen=True)
    chunks = [["begin 2 4"] + t.strip(";").split(";") + ["dumps", "end"] for t in tests]
    for t in tests[::7]:
        i = rng.randrange(1, 3)
        s = " ".join(str(e) for e in range(1, 5) if rng.random() < .6)
        x = rng.choice(["itdel %d 0 -- %s" % (i, s), "itdel %d 1 -- %s" % (i, s), "itmove %d 0 %d -- %s" % (i, 3 - i, s),
                        "itmove %d 1 %d -- %s" % (i, 3 - i, s), "clear %d" % i])
        chunks.append(["begin 2 4"] + t.strip(";").split(";") + [x, "dumps", "addt 1 1", "addh 2 2", "del 3", "dumps", "end"])
    if not validate(chk, b, "list", "TraceList", chunks, what="ListImpl transitions"):
        return
    chunks = []
    for _ in range(chk.n(150, 2500)):
        nl, ne = rng.choice([(1, 1), (1, 3), (2, 3), (3, 6), (4, 12), (7, 30)])
        chunks.append(list_random(rng, nl, ne, chk.n(150, 300)))
    # long lists: counts around 2^8 and 2^16
    for n in (254, 255, 256, 257, 300, 65535, 65536, 65600):
        chunks.append(["begin 2 %d" % n, "fill 1 1 %d" % (n - 2), "dumps", "addh 1 %d" % (n - 1), "dumps", "addt 1 %d" % n, "dumps", "del %d" % (n // 2), "dumps",
                       "itmove 1 %d 2 -- 1 2 %d" % (n % 2, n), "poph 1", "popt 1", "dumps", "clear 1", "dumps", "end"])
    validate(chk, b, "list", "TraceList", chunks, what="random histories")


# ---------------------------------------------------------------- C12, container part
def oom_suites(chk):
    rng = chk.rng
    k = chk.n(1, 12)
    yield (array_drv(chk), "array", "TraceArray",
           [array_random(rng, ty, 150, faults=rng.choice([.1, .5]), top=100) for ty in TYPES for _ in range(3 * k)], "array")
    yield (array_drv(chk, 1000), "array", "TraceArray",
           [array_random(rng, ty, 200, faults=.1, top=260) for ty in TYPES for _ in range(2 * k)], "array, small limit")
    yield (queue_drv(chk), "queue", "TraceQueue",
           [queue_random(rng, ty, 200, faults=rng.choice([.1, .5])) for ty in TYPES for _ in range(3 * k)]
           + [["begin int", "fail 1", "init", "addl 1", "init", "addl 2", "dump", "end"]], "queue")
    yield (queue_drv(chk, 40), "queue", "TraceQueue",
           [queue_random(rng, ty, 300, faults=.1) for ty in TYPES for _ in range(2 * k)], "queue, small limit")
    yield (heap_drv(chk), "heap", "TraceHeap",
           [heap_random(rng, 200, faults=rng.choice([.1, .3, .6])) for _ in range(30 * k)]
           + [["begin 1 2", "fail 1", "init %d" % c, "init %d" % c, "fail 1", "add 1 1", "add 2 2", "drain", "end"] for c in (0, 1, 4, 9)], "heap")


CHECKS = {"C01": (run_array, "model_checking"), "C02": (run_queue, "model_checking"),
          "C04": (run_heap, "model_checking"), "C05": (run_list, "model_checking")}
