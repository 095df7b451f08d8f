from core import *
import math

VARIANTS = ["int", "intv", "ints", "ll", "llv", "lls", "32", "64", "64v", "64s", "str", "sv", "s64", "sll"]
STR = {"str", "sv", "s64", "sll"}
M64 = (1 << 64) - 1


def murmur(b):
    """Own copy of the hash: only used to aim at collisions, never as an oracle."""
    m = 0xc6a4a7935bd1e995
    n = len(b)
    h = (n * m) & M64
    p = 0
    while p + 8 <= n:
        k = int.from_bytes(b[p:p + 8], "little")
        k = (k * m) & M64
        k ^= k >> 47
        k = (k * m) & M64
        h ^= k
        h = (h * m) & M64
        p += 8
    if n & 7:
        h ^= int.from_bytes(b[p:], "little")
        h = (h * m) & M64
    h ^= h >> 47
    h = (h * m) & M64
    h ^= h >> 47
    return h & 0xffffffff


_pool = {}


def strings_by_hash(bits=6, per=12):
    """Strings whose hash has given low bits (home slots in any table up to 2^bits)."""
    if bits in _pool:
        return _pool[bits]
    d = {}
    i = 0
    want = 1 << bits
    full = 0
    while full < want:
        s = ("k%d" % i).encode() if i % 3 else ("key-%09d-long-name" % i).encode()
        i += 1
        lst = d.setdefault(murmur(s) & (want - 1), [])
        if len(lst) < per:
            lst.append(s)
            if len(lst) == per:
                full += 1
    _pool[bits] = d
    return d


def full_collisions(rng, n=200000):
    """Groups of different strings with equal 32-bit hash."""
    seen, out = {}, []
    for i in range(n):
        s = ("%x" % (i * 2654435761 & 0xffffffff)).encode()
        h = murmur(s)
        if h in seen and seen[h] != s:
            out.append((seen[h], s))
        seen[h] = s
    return out


def keydecl(variant, ids, home=None, numkeys=None, used=None):
    """id=key declarations; for string variants pick a string whose hash has the id's low bits."""
    out = []
    if variant in STR:
        d = strings_by_hash()
        cnt = {}
        for i in ids:
            hm = (home(i) if home else i) & 63
            j = cnt.get(hm, 0)
            cnt[hm] = j + 1
            out.append("%d=%s" % (i, hexs(d[hm][j])))
    else:
        for i in ids:
            out.append("%d=%d" % (i, (numkeys or {}).get(i, i)))
    return out


def model_chunks(tests, variant, ids, lf, cap0):
    decl = " ".join(keydecl(variant, ids))
    for t in tests:
        yield ["begin %s %s" % (variant, decl), "init %d %d" % (cap0, lf)] + t.strip(";").split(";") + ["each", "gets", "end"]


def random_keys(rng, variant, nk):
    """nk keys with home slots chosen to cluster; returns declarations."""
    ids = list(range(1, nk + 1))
    style = rng.randrange(6)
    if variant in STR:
        d = strings_by_hash()
        out, used = [], set()
        base = rng.randrange(64)
        special = [b"", b"a", b"ab", b"\xff\xfe", b"\x80", b"abcdefgh", b"abcdefghi", b"abcdefgh\x01"]
        for i in ids:
            if style == 0 and special and rng.random() < .4:
                s = special.pop()
            elif style <= 2:
                hm = (base + rng.randrange(3)) & 63
                s = rng.choice(d[hm])
            elif style == 3:
                s = rng.choice(d[(i * 8 + 7) & 63])
            else:
                s = ("r%x" % rng.getrandbits(40)).encode()
            while s in used:
                s = ("r%x" % rng.getrandbits(40)).encode()
            used.add(s)
            out.append("%d=%s" % (i, hexs(s)))
        return ids, out
    w64 = variant not in ("int", "intv", "ints", "32")
    sgn = variant in ("int", "intv", "ints", "ll", "llv", "lls")
    used, out = {0}, []
    base = rng.randrange(1, 1 << 10)
    for i in ids:
        while True:
            if style == 0:
                k = i
            elif style == 1:  # same home in every table up to 2^12
                k = base + (rng.randrange(1, 4000) << 12)
            elif style == 2:  # cluster at the table end (wraps)
                k = (rng.randrange(1, 200) << 6) - rng.randrange(1, 4)
            elif style == 3:
                k = rng.getrandbits(64 if w64 else 32)
            elif style == 4:  # high and low halves cancel in a folded hash
                x = rng.randrange(1, 5)
                k = ((x << 32) | (x ^ rng.randrange(0, 4))) if w64 else x * 8 + rng.randrange(3)
                if not w64 and rng.random() < .5:
                    k += 64 * rng.randrange(200)
            else:
                k = rng.choice([1, 2, 7, 8, 15, 16, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 31, 63, 64])
                if w64 and rng.random() < .6:
                    k |= rng.choice([0x7fffffff, 0x80000000, 0xffffffff, 1]) << 32
                if rng.random() < .3:
                    k = rng.getrandbits(31)
            bits = 64 if w64 else 32
            k &= (1 << bits) - 1
            if sgn and k >> (bits - 1):
                k -= 1 << bits
            if not sgn and bits == 64 and k >> 63:
                pass
            if k not in used:
                break
            if rng.random() < .2:
                style = 3
        used.add(k)
        if k >= 1 << 63:
            k -= 1 << 64  # parsed with strtoll, cast to uint64_t
        out.append("%d=%d" % (i, k))
    return ids, out


def random_chunk(rng, variant, nops, faults=False):
    nk = rng.choice([3, 6, 9, 12, 14, 20, 30])
    ids, decl = random_keys(rng, variant, nk)
    ks = ids + [0]
    lf = rng.choice([0, 0, 26, 30, 50, 60, 75, 80, 90, 94])
    cap = rng.choice([0, 0, 1, 5, 8, 9, 16, 31, 64, 100])
    c = ["begin %s %s" % (variant, " ".join(decl)), "init %d %d" % (cap, lf)]
    if rng.random() < .1:
        c[1:] = ["init %d %d" % (rng.choice([0, 8]), rng.choice([1, 10, 24, 96, 100, 255, 4000000000]))] + c[1:2]
    ph = rng.choice([.3, .5, .8])
    v = 0
    for i in range(nops):
        if i % 60 == 59:
            ph = rng.choice([.2, .4, .6, .8])
        r = rng.random()
        k = rng.choice(ks)
        if faults and rng.random() < .35:
            c.append("fail %d" % rng.choice([1, 1, 1, 3]))
        if r < .015:
            c.append("clear")
        elif r < .08:
            c.append("each")
        elif r < .095:
            c.append("scan %d" % rng.choice([1, 2, 5, 100]))
        elif r < .1:
            c.append("other %d" % k)
        elif r < .25:
            c.append("get %d" % k)
        elif rng.random() < ph:
            v = v % 4000 + 1
            c.append("put %d %d" % (k, v if rng.random() < .95 else 0))
        else:
            c.append("del %d" % k)
    c += ["each", "gets"]
    if rng.random() < .3:
        c += ["clear", "each", "gets", "put %d 5" % rng.choice(ks), "each"]
    if rng.random() < .2:
        c += ["term", "init 0 0", "put %d 7" % rng.choice(ks), "gets", "each"]
    return c + ["end"]


def drv(chk):
    return build(chk, "map_drv", ["map_drv.c", "vf.c"], ["map/sc_map.c"], incs=["map"])


def run_map(chk):
    b = drv(chk)
    rng = chk.rng
    suites = []
    for cfg, ids, lf in (("A", [6, 7, 14, 15, 8, 22], 94), ("B", [7, 15, 8, 16, 23, 31], 50), ("C", [3, 11, 5, 19, 27], 26)):
        tests = model_check(chk, "map", "MapImpl", "MapImpl" + cfg, gen=True)
        suites.append((cfg, ids, lf, tests))
    # every transition of the implementation model, spread over the variants; the int variant gets all
    for cfg, ids, lf, tests in suites:
        chunks = []
        if chk.thorough:
            for v in VARIANTS:
                chunks += list(model_chunks(tests, v, ids, lf, rng.choice([0, 8])))
        else:
            step = 3 if cfg == "A" else 2 if cfg == "B" else 1
            off = rng.randrange(step)
            chunks += list(model_chunks(tests[off::step], "int", ids, lf, 8))
            for i, v in enumerate(VARIANTS[1:]):
                st = max(1, len(tests) // 250)
                chunks += list(model_chunks(tests[(rng.randrange(st))::st], v, ids, lf, 8 if i % 2 else 0))
        if not validate(chk, b, "map", "TraceMap", chunks, what="MapImpl%s transitions" % cfg):
            return
    # random histories over all variants
    chunks = []
    for r in range(chk.n(8, 120)):
        for v in VARIANTS:
            chunks.append(random_chunk(rng, v, chk.n(200, 500)))
    if not validate(chk, b, "map", "TraceMap", chunks, what="random histories"):
        return
    # full 32-bit hash collisions of string keys
    pairs = full_collisions(rng, chk.n(200000, 600000))
    chk.notes["full_hash_collision_pairs"] = len(pairs)
    chunks = []
    for v in sorted(STR):
        keys = [s for p in pairs for s in p][:24]
        decl = " ".join("%d=%s" % (i + 1, hexs(s)) for i, s in enumerate(keys))
        for r in range(chk.n(4, 40)):
            c = ["begin %s %s" % (v, decl), "init 0 %d" % rng.choice([0, 90, 30])]
            for i in range(150):
                k = rng.randrange(1, len(keys) + 1)
                c.append(rng.choice(["put %d %d" % (k, i + 1), "get %d" % k, "del %d" % k, "put %d %d" % (k, i + 1)]))
            chunks.append(c + ["each", "gets", "end"])
    # large tables
    for v in VARIANTS:
        for big in range(chk.n(1, 4)):
            ids = list(range(1, chk.n(400, 1500)))
            if v in STR:
                decl = ["%d=%s" % (i, hexs("key%d" % i)) for i in ids]
            else:
                mul = rng.choice([1, 7, 64, 4096, 65537])
                decl = ["%d=%d" % (i, i * mul) for i in ids]
            c = ["begin %s %s" % (v, " ".join(decl)), "init %d %d" % (rng.choice([0, 3]), rng.choice([0, 26, 94]))]
            order = ids[:]
            rng.shuffle(order)
            c += ["put %d %d" % (k, k) for k in order] + ["put 0 9"]
            rng.shuffle(order)
            c += ["del %d" % k for k in order[:len(order) * 2 // 3]] + ["gets", "each"]
            c += ["put %d %d" % (k, k) for k in order[:50]] + ["gets", "clear", "each", "get 1", "end"]
            chunks.append(c)
    # capacities near the integer limit must be refused or work
    for v in VARIANTS:
        for cap in (0x7fffffff, 0x80000000, 0x80000001, 0xffffffff):
            chunks.append(["begin %s 1=%s" % (v, hexs("a") if v in STR else "1"), "init %d 0" % cap, "get 1", "put 1 2", "get 1", "each", "end"])
    if not validate(chk, b, "map", "TraceMap", chunks, what="collisions, large tables, capacities"):
        return
    chunks = []
    for v in VARIANTS:
        for n in [rng.choice([1000, 3001, 7000]), chk.n(70001, 1200000)]:
            a = rng.choice([1, n - 1, rng.randrange(1, n), rng.randrange(1, n)])
            while math.gcd(a, n) != 1:
                a = rng.randrange(1, n)
            mul = rng.choice([1, 1, 3, 257, 65537, 7919]) if n > 10000 else rng.choice([1, 2, 64, 4097, 65536])
            chunks.append(["begin %s" % v, "bulk %d %d %d %d %d" % (rng.choice([0, 30, 75, 95]), n, a, mul, rng.choice([0, 0, 1, -50])), "end"])
    validate(chk, b, "map", "TraceMap", chunks, what="many keys")


CHECKS = {"C03": (run_map, "model_checking")}
