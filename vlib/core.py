"""Shared machinery: build drivers from /repo's working tree, run them on command
chunks, validate the recorded traces with TLC, run the exhaustive models, write
evidence, report violations."""
import os, sys, re, json, time, shutil, subprocess, tempfile, hashlib, random, signal, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)
ALLOC_WRAPS = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "vasprintf"]


class InfraError(Exception):
    pass


def dbg(*a):
    if os.environ.get("VERIF_DEBUG"):
        log(*a)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.known = load_known(pid)
        self.known_hit = []
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + "-", dir=base)
        self.violation = None

    # ---- scaled by tier
    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    def cleanup(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   trace_events=self.events, samples=self.samples[:8])
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=self.tier if self.tier in ("quick", "thorough") else "quick",
                  seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(self.elapsed(), 2),
                  violations=1 if self.violation else 0)
        if self.level in ("exploration", "fault_enumeration"):
            cov.setdefault("evaluations", self.traces)
            cov.setdefault("distinct_nontrivial", self.notes.get("distinct_chunks", self.traces))
            cov.setdefault("rule", "every command chunk whose trace differs")
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.%d" % (self.pid, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, self.pid + ".json"))
        self.cleanup()
        for k in sorted(set(self.known_hit)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violation:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violation))
            sys.stdout.flush()
            sys.exit(1)
        print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
            self.pid, self.states, self.transitions, self.traces, self.events, self.elapsed()))
        sys.stdout.flush()
        sys.exit(0)

    def report(self, what, payload):
        """Records a violation (the first one is the one printed)."""
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
        with open(p, "w") as f:
            json.dump(dict(property=self.pid, what=what, **payload), f, indent=1)
        log("VIOLATION", self.pid, what)
        log(json.dumps(payload)[:1200])
        if not self.violation:
            self.violation = p


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                out.append(line.split(" ", 2)[2])
    return out


# ------------------------------------------------------------------ building
def run(cmd, timeout=600, env=None, cwd=None, inp=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                          env=env, cwd=cwd, input=inp)


def build(chk, name, srcs, repo_srcs, defs=(), wraps=(), san="address", incs=(), cflags=(), ldflags=(),
          alloc=True, cc="gcc", repo_cflags=(), opt="-O1"):
    """Compiles harness sources + /repo sources into work/<name>.  Returns (path, None) or
    (None, error text).  A working tree that does not compile is an infrastructure error."""
    out = os.path.join(chk.work, name)
    objs, jobs = [], []
    sanf = ["-fsanitize=" + san, "-fno-omit-frame-pointer"] if san else []
    incf = ["-I" + os.path.join(REPO, d) for d in incs] + ["-I" + HARN]
    common = [cc, "-std=gnu11", "-g", opt, "-fwrapv", "-w", "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE"] + ["-fno-builtin-" + x for x in ALLOC_WRAPS] + list(defs) + incf
    for s in list(srcs) + [os.path.join(REPO, r) for r in repo_srcs]:
        src = s if os.path.isabs(s) else os.path.join(HARN, s)
        isrepo = src.startswith(REPO + "/")
        obj = os.path.join(chk.work, name + "." + os.path.basename(src) + ".o")
        objs.append(obj)
        cmd = common + sanf + list(cflags) + (list(repo_cflags) if isrepo else []) + ["-c", src, "-o", obj]
        jobs.append(cmd)
    with ThreadPoolExecutor(NCPU) as ex:
        for r, cmd in zip(ex.map(lambda c: run(c), jobs), jobs):
            if r.returncode:
                raise InfraError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    w = list(ALLOC_WRAPS if alloc else []) + list(wraps)
    link = [cc] + sanf + objs + ["-o", out] + ["-Wl,--wrap=" + x for x in w] + list(ldflags) + ["-lpthread", "-lm"]
    r = run(link)
    if r.returncode:
        raise InfraError("link failed: %s\n%s" % (" ".join(link), r.stdout.decode(errors="replace")[-4000:]))
    return out


# ------------------------------------------------------------------ running
_env_base = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:"
             "handle_abort=0:detect_stack_use_after_return=0:max_allocation_size_mb=4096:quarantine_size_mb=16",
             "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99", "LC_ALL": "C", "HOME": "/root", "PATH": os.environ.get("PATH", "/usr/bin:/bin")}


def run_shard(chk, binp, chunks, tag, timeout, env=None, cap=1 << 28, cwd=None, multi=False):
    """Runs the driver on a list of chunks (each a list of command lines; the first is 'begin ...').
    Returns list of event lists; a crash/hang becomes a CRASH/HANG event in the chunk it happened in;
    chunks not run are None."""
    inp = os.path.join(chk.work, "in." + tag)
    outp = os.path.join(chk.work, "out." + tag)
    with open(inp, "w") as f:
        for c in chunks:
            f.write("\n".join(c) + "\n")
    if os.path.exists(outp):
        os.unlink(outp)
    e = dict(_env_base, VF_IN=inp, VF_OUT=outp, VF_OUT_CAP=str(cap))
    if env:
        e.update(env)
    errp = os.path.join(chk.work, "err." + tag)
    with open(errp, "wb") as errf:
        p = subprocess.Popen([binp], stdin=subprocess.DEVNULL, stdout=errf, stderr=errf, env=e,
                             start_new_session=True, cwd=cwd or chk.work)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = "timeout"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    raw = b""
    if os.path.exists(outp):
        with open(outp, "rb") as f:
            parts = []
            while True:
                blk = f.read(1 << 20)
                i = blk.find(b"\0")
                if i >= 0:
                    parts.append(blk[:i])
                    break
                if not blk:
                    break
                parts.append(blk)
            raw = b"".join(parts)
        os.unlink(outp)
    os.unlink(inp)
    with open(errp, "rb") as f:
        err = f.read()[-3000:].decode(errors="replace")
    os.unlink(errp)
    if rc == 98:
        # the log is full: the code goes on and on if it is one history that fills it
        i = max(raw.rfind(b'{"op":"begin"'), 0)
        if len(raw) - i > len(raw) // 2:
            raw = raw[:raw.find(b"\n", min(i + 100000, len(raw) - 1)) + 1 or len(raw)]
            rc = "timeout"
    if rc in (96, 97, 98):
        raise InfraError("driver %s exit %s: %s" % (binp, rc, err))
    lines = raw.split(b"\n")
    res, cur = [], None
    for ln in lines:
        if not ln:
            continue
        try:
            ev = json.loads(ln)
        except ValueError:
            # event cut off by a crash
            if rc == 0:
                raise InfraError("bad event line %r" % ln[:200])
            continue
        if ev["op"] == "begin":
            cur = []
            res.append(cur)
        cur.append(ev)
    if rc != 0:
        if multi and (not res or any(x["op"] == "end" for x in res[-1])):
            # between two recorded histories: during one that was not written out
            res.append([{"op": "begin", "n": 0}])
        if not res:
            raise InfraError("driver %s failed at start rc=%s: %s" % (binp, rc, err))
        k = {"op": "HANG" if rc == "timeout" else "CRASH", "why": ""}
        k["_err"] = ("rc=%s " % rc) + err
        res[-1].append(k)
        if rc == "timeout":
            res[-1][-1]["_err"] = "no progress within %ss; %s" % (timeout, err)
    elif not multi and len(res) != len(chunks):
        raise InfraError("driver produced %d chunks for %d" % (len(res), len(chunks)))
    res += [None] * (len(chunks) - len(res))
    return res


def run_chunks(chk, binp, chunks, timeout=120, nproc=None, env=None, cap=1 << 28, cwd=None):
    nproc = nproc or NCPU
    k = max(1, min(nproc, len(chunks)))
    shards = [chunks[i::k] for i in range(k)]
    uid = "%d.%d" % (os.getpid(), int(time.time() * 1e6) % 10**9)
    with ThreadPoolExecutor(k) as ex:
        outs = list(ex.map(lambda i: run_shard(chk, binp, shards[i], "%s.%d" % (uid, i), timeout, env, cap, cwd), range(k)))
    res = [None] * len(chunks)
    for i in range(k):
        res[i::k] = outs[i]
    return res


# ------------------------------------------------------------------ TLC
def tlc(chk, specdir, module, cfg=None, env=None, workers=NCPU, heap="6g", timeout=800, extra=(), deadlock=True):
    md = tempfile.mkdtemp(prefix="md-", dir=chk.work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR,
           "-DTLA-Library=" + ":".join([os.path.join(SPEC, "lib")] + extra_lib(specdir)),
           "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", (cfg or module) + ".cfg"]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, cwd=os.path.join(SPEC, specdir), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = r.stdout.decode(errors="replace"), r.returncode
    except subprocess.TimeoutExpired:
        raise InfraError("TLC timeout on %s" % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return rc, out


def extra_lib(specdir):
    return []


def tlc_counts(out):
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def model_check(chk, specdir, module, cfg=None, gen=False, workers=NCPU, heap="6g", timeout=800, env=None, extra=(), count=True):
    """Exhaustive run of a model.  Any error here is an error of the framework (the
    model does not depend on /repo).  With gen, returns the command sequences printed
    as "T|..." for each transition."""
    rc, out = tlc(chk, specdir, module, cfg, env=env, workers=workers, heap=heap, timeout=timeout, extra=extra)
    if rc != 0:
        raise InfraError("model %s/%s failed rc=%s\n%s" % (specdir, cfg or module, rc, out[-3000:]))
    g, d = tlc_counts(out)
    if count:
        chk.states += d
        chk.transitions += g
    chk.notes.setdefault("models", {})[cfg or module] = dict(distinct_states=d, transitions=g)
    tests = []
    if gen:
        for ln in out.splitlines():
            if ln.startswith('"T|'):
                tests.append(json.loads(ln)[2:])
        tests = sorted(set(tests))
    return tests


def tlc_trace(chk, specdir, module, chunks, env=None, workers=NCPU, heap="6g", timeout=800, cfg=None, tag="", det=True):
    """Validates event chunks.  Returns None, or (chunk index, event index, reason)."""
    path = os.path.join(chk.work, "trace%s.%d.ndjson" % (tag, int(time.time() * 1e6) % 10**9))
    starts, pos = [], 1
    with open(path, "w") as f:
        for c in chunks:
            starts.append(pos)
            pos += len(c)
            for ev in c:
                if "_err" in ev:
                    ev = {k: v for k, v in ev.items() if k != "_err"}
                f.write(json.dumps(ev, separators=(",", ":")) + "\n")
    e = dict(env or {})
    e["TRACE"] = path
    rc, out = tlc(chk, specdir, module, cfg, env=e, workers=workers, heap=heap, timeout=timeout)
    os.unlink(path)
    total = pos - 1
    if rc == 0:
        g, d = tlc_counts(out)
        if det and d != total:
            raise InfraError("trace spec %s: %d states for %d events\n%s" % (module, d, total, out[-2000:]))
        return None
    ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
    if rc in (10, 11, 12, 13) or "Error: Deadlock" in out or "Error: Invariant" in out or ls:
        if not ls:
            raise InfraError("TLC rejected without a state: rc=%s\n%s" % (rc, out[-3000:]))
        l = int(ls[-1])
        ci = max(i for i, s in enumerate(starts) if s <= l)
        m = re.search(r"Error: (Invariant \S+|Action property \S+|Deadlock)", out)
        reason = m.group(1) if m else "evaluation error"
        return ci, l - starts[ci], reason + (("\n" + out[-1500:]) if os.environ.get("VERIF_DEBUG") else "")
    raise InfraError("TLC failed on trace: rc=%s\n%s" % (rc, out[-3000:]))


def validate(chk, binp, specdir, module, chunks, timeout=120, env=None, drv_env=None, batch=120000, cfg=None,
             what="", post=None, sample=2, det=True, nproc=None, workers=NCPU, cwd=None, cap=1 << 28, confirm=True):
    """Drives the real code through chunks and validates the traces.  On rejection the
    chunk is run again on its own (twice) and reported only if it is rejected again."""
    if not chunks:
        return True
    res = run_chunks(chk, binp, chunks, timeout=timeout, env=drv_env, nproc=nproc, cwd=cwd, cap=cap)
    if post:
        res = [post(c, r) if r is not None else None for c, r in zip(chunks, res)]
    done = [(c, r) for c, r in zip(chunks, res) if r is not None]
    dbg("%s: driver done, %d chunks %d events at %.1fs" % (what or module, len(done), sum(len(r) for _, r in done), chk.elapsed()))
    # batches by event count, several TLC processes at a time
    total = sum(len(r) for _, r in done)
    k = max(1, min(len(done), max(-(-total // batch), min(4, -(-total // 12000)))))
    if not det:
        k = max(1, min(len(done), k))
    batches = [done[i::k] for i in range(k)]
    w = workers if k == 1 else 2

    def one(i):
        return tlc_trace(chk, specdir, module, [r for _, r in batches[i]], env=env, cfg=cfg, det=det,
                         workers=w if det else 1, heap="4g", tag=".%d" % i)
    with ThreadPoolExecutor(4) as ex:
        rejs = list(ex.map(one, range(k)))
    ok = True
    procs = max(1, min(nproc or NCPU, len(chunks)))
    pos = {id(c): i for i, c in enumerate(chunks)}

    def again(cs):
        """The last of cs, run after the others in one process: None or (events, rejection)."""
        uid = "%d.%d.again" % (os.getpid(), int(time.time() * 1e6) % 10**9)
        r = run_shard(chk, binp, cs, uid, timeout, drv_env, cap, cwd)[-1]
        if r is None:
            return None
        r = post(cs[-1], r) if post else r
        rej = tlc_trace(chk, specdir, module, [r], env=env, cfg=cfg, det=det, workers=1)
        return (r, rej) if rej is not None else None

    def confirmed(c):
        """Rejected again on its own, or after the chunks that ran before it in its process."""
        i = pos[id(c)]
        before = chunks[i % procs:i:procs]
        for k in (0, 0, 1, 4, 20, len(before)):
            if k <= len(before):
                cs = (before[len(before) - k:] if k else []) + [c]
                bad = again(cs)
                if bad:
                    return cs, bad
        return None

    for i, b in enumerate(batches):
        rej, tries = rejs[i], 0
        while rej is not None:
            ci, ei, reason = rej
            cmds, evs = b[ci]
            if confirm:
                bad = confirmed(cmds)
                if bad is None:
                    chk.notes["unconfirmed_rejections"] = chk.notes.get("unconfirmed_rejections", 0) + 1
                    log("unconfirmed rejection", cmds[:5], evs[ei:ei + 1])
                    del b[ci]
                    tries += 1
                    if not b or tries == 3:
                        break
                    rej = tlc_trace(chk, specdir, module, [r for _, r in b], env=env, cfg=cfg, det=det, workers=workers if det else 1, heap="4g", tag=".r%d" % i)
                    continue
                cs, (evs, (_, ei, reason)) = bad
                cmds = [x for y in cs for x in y]
            bade = evs[ei] if ei < len(evs) else None
            chk.report("%s: %s at event %d (%s)" % (what or module, reason.split("\n")[0], ei, (bade or {}).get("op")),
                       dict(spec="%s/%s" % (specdir, module), commands=cmds, event_index=ei,
                            rejected_event=bade, last_events=evs[max(0, ei - 6):ei + 1], reason=reason))
            ok = False
            break
        if not ok:
            break
        if rej is None:
            chk.traces += len(b)
            chk.events += sum(len(r) for _, r in b)
    if sample and len(chk.samples) < 8 and done:
        for c, r in done[:sample]:
            chk.samples.append(dict(what=what or module, commands=c[:12], events=[trim(e) for e in r[:4]]))
    chk.notes.setdefault("suites", {})[what or module] = dict(chunks=len(done), events=sum(len(r) for _, r in done))
    return ok


SCHED_WRAPS = ["pthread_" + x for x in ("mutexattr_init mutexattr_destroy mutex_init mutex_destroy mutex_lock mutex_trylock "
               "mutex_unlock cond_init cond_destroy cond_wait cond_timedwait cond_signal cond_broadcast attr_init attr_destroy "
               "create join detach").split()] + ["sched_yield"]


def build_sched(chk, name, srcs, repo_srcs, **k):
    """Like build(), with the code under test instrumented for the deterministic scheduler."""
    k.setdefault("wraps", ())
    k["wraps"] = list(k["wraps"]) + SCHED_WRAPS
    return build(chk, name, list(srcs) + ["vsched.c", "vf.c"], repo_srcs, san=None, repo_cflags=["-fsanitize=thread"], **k)


def run_cmds(chk, binp, cmds, timeout=200, env=None, cap=1 << 28, cwd=None):
    """Runs each command line in its own driver process; a command yields many histories.
    Returns per command: list of event lists, and the statistics event."""
    hung = []

    def one(i):
        if hung:
            return [], {}
        uid = "%d.%d.%d" % (os.getpid(), int(time.time() * 1e6) % 10**9, i)
        res = run_shard(chk, binp, [[cmds[i]]], uid, timeout, env, cap, cwd, multi=True)
        if any(e["op"] == "HANG" for e in res[-1]):
            hung.append(i)
        stat, hs = None, []
        for h in res:
            evs = [e for e in h if e["op"] != "stat"]
            st = [e for e in h if e["op"] == "stat"]
            stat = st[-1] if st else stat
            hs.append(evs)
        return hs, stat or {}
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, range(len(cmds))))


def validate_runs(chk, binp, specdir, module, cmds, timeout=None, env=None, drv_env=None, cfg=None, what="", batch=60000, cap=1 << 28, cwd=None):
    """Explores schedules with the deterministic scheduler and validates every distinct history."""
    timeout = timeout or chk.n(200, 2400)
    res = run_cmds(chk, binp, cmds, timeout, drv_env, cap, cwd)
    seen, todo = set(), []
    runs = complete = 0
    for c, (hs, st) in zip(cmds, res):
        runs += st.get("runs", 0)
        complete += bool(st.get("complete"))
        for h in hs:
            k = json.dumps([{a: b for a, b in e.items() if a != "_err"} for e in h])
            if k not in seen:
                seen.add(k)
                todo.append((c, h))
    total = sum(len(h) for _, h in todo)
    dbg("%s: %d schedules of %d scenarios (%d exhausted), %d distinct histories, %d events at %.1fs" % (
        what, runs, len(cmds), complete, len(todo), total, chk.elapsed()))
    s = chk.notes.setdefault("schedules", {})
    s[what or module] = dict(scenarios=len(cmds), schedules=runs, scenarios_exhausted_within_bound=complete, distinct_histories=len(todo))
    k = max(1, min(len(todo), max(-(-total // batch), min(4, -(-total // 8000)))))
    batches = [todo[i::k] for i in range(k)]
    w = NCPU if k == 1 else 2
    with ThreadPoolExecutor(4) as ex:
        rejs = list(ex.map(lambda i: tlc_trace(chk, specdir, module, [h for _, h in batches[i]], env=env, cfg=cfg, workers=w, heap="4g", tag=".%d" % i), range(k)))
    strip = lambda h: [{a: x for a, x in e.items() if a != "_err"} for e in h]
    for i, b in enumerate(batches):
        rej, tries = rejs[i], 0
        while rej is not None:
            ci, ei, reason = rej
            cmd, evs = b[ci]
            again = run_cmds(chk, binp, [cmd], timeout, drv_env, cap, cwd)[0][0]
            if strip(evs) not in [strip(h) for h in again]:
                log("history not reproduced", cmd)
                chk.notes["unconfirmed_rejections"] = chk.notes.get("unconfirmed_rejections", 0) + 1
                del b[ci]
                tries += 1
                if not b or tries == 3:
                    break
                rej = tlc_trace(chk, specdir, module, [h for _, h in b], env=env, cfg=cfg, workers=NCPU, heap="4g", tag=".r%d" % i)
                continue
            bade = evs[ei] if ei < len(evs) else None
            chk.report("%s: %s at event %d (%s)" % (what or module, reason.split("\n")[0], ei, (bade or {}).get("op")),
                       dict(spec="%s/%s" % (specdir, module), commands=[cmd], event_index=ei, rejected_event=bade, events=evs[:ei + 1][-60:], reason=reason))
            return False
        if rej is None:
            chk.traces += len(b)
            chk.events += sum(len(h) for _, h in b)
    for c, h in todo[:2]:
        if len(chk.samples) < 8:
            chk.samples.append(dict(what=what or module, commands=[c], events=[trim(e) for e in h[:8]]))
    return True


def trim(e):
    s = json.dumps(e)
    return e if len(s) < 400 else s[:400] + "..."


def hexs(b):
    if b is None:
        return "N"
    if isinstance(b, str):
        b = b.encode("latin1")
    return b.hex() if b else "-"


def selftest_rejects(chk, specdir, module, chunk_events, env=None, cfg=None, det=True):
    """Binding demonstration: the trace must be rejected (used on corrupted traces)."""
    return tlc_trace(chk, specdir, module, [chunk_events], env=env, cfg=cfg, det=det, workers=1) is not None


def main(fn, pid, level="model_checking"):
    chk = Check(pid, level)
    try:
        fn(chk)
    except InfraError as e:
        log("INFRA-ERROR", e)
        chk.cleanup()
        sys.exit(2)
    except Exception:
        chk.cleanup()
        raise
    chk.finish()
