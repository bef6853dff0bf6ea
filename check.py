#!/usr/bin/env python3
"""check.py --prop Cxx --tier quick|thorough | --replay FILE

Builds the monitored workloads (harness/) against /repo's working tree, runs
them for one property, and turns what the monitors reported into a verdict:
exit 0 (held on everything explored), exit 1 with a VIOLATION line, or exit 2
(the check itself could not decide).
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, struct
import subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
os.environ["PATH"] += ":/root/.cargo/bin"
os.environ["CARGO_NET_OFFLINE"] = "true"
for k in ("RUSTFLAGS", "MIRIFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
    os.environ.pop(k, None)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))

# ------------------------------------------------------------------ variants
VARIANTS = {
    # debug assertions and overflow checks, allocation monitor
    "dbg": dict(cmd=["cargo", "build", "--offline", "--profile", "dbg", "--features", "track"], bin="dbg/ecsmon"),
    # plain release, allocation monitor
    "rel": dict(cmd=["cargo", "build", "--offline", "--release", "--features", "track"], bin="release/ecsmon"),
    # unoptimised dev build / opt-level 3 with debug assertions off
    "dev": dict(cmd=["cargo", "build", "--offline", "--features", "track"], bin="debug/ecsmon"),
    "o3": dict(cmd=["cargo", "build", "--offline", "--profile", "o3", "--features", "track"], bin="o3/ecsmon"),
    # AddressSanitizer
    "san": dict(
        cmd=["cargo", "+nightly", "build", "--offline", "--profile", "san", "--target", "x86_64-unknown-linux-gnu"],
        bin="x86_64-unknown-linux-gnu/san/ecsmon",
        env={"RUSTFLAGS": "-Zsanitizer=address"},
    ),
    # Miri, the undefined-behaviour interpreter
    "miri": dict(
        cmd=["cargo", "+nightly", "miri", "run", "--release", "--offline", "--", "ops"],
        bin=None,
        env={"MIRIFLAGS": "-Zmiri-tree-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks"},
    ),
    # release without the monitor, for valgrind
    "vg": dict(cmd=["cargo", "build", "--offline", "--profile", "vg"], bin="vg/ecsmon"),
}


def harness_dir():
    """harness/ itself, or for development a copy pointing at another tree"""
    if REPO == "/repo":
        return os.path.join(VERIF, "harness")
    d = os.path.join(BUILD, "harness")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, "harness"), d)
    p = os.path.join(d, "Cargo.toml")
    s = open(p).read().replace('"/repo"', '"%s"' % REPO)
    open(p, "w").write(s)
    return d


def target_dir(v):
    return os.path.join(BUILD, v)


def build(variants):
    """build all variants concurrently; returns error text or None"""
    hd = harness_dir()
    errs = []

    def one(v):
        env = dict(os.environ, **VARIANTS[v].get("env", {}))
        cmd = list(VARIANTS[v]["cmd"])
        at = cmd.index("--") if "--" in cmd else len(cmd)
        cmd[at:at] = ["--target-dir", target_dir(v)]
        r = subprocess.run(cmd, cwd=hd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode != 0:
            errs.append("build %s:\n%s" % (v, r.stdout[-4000:]))

    with cf.ThreadPoolExecutor(len(variants)) as ex:
        list(ex.map(one, variants))
    return "\n".join(errs) or None


def argv(variant, args):
    v = VARIANTS[variant]
    if variant == "miri":
        return (["cargo", "+nightly", "miri", "run", "--release", "-q", "--offline", "--target-dir", target_dir(variant), "--"] + args, v["env"])
    b = os.path.join(target_dir(variant), v["bin"])
    if variant == "vg":
        return (
            ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--track-origins=yes", "--num-callers=20", b] + args,
            {},
        )
    env = {}
    if variant == "san":
        env["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=1"
    return ([b] + args, env)


_procs = set()
_plock = threading.Lock()


def run(variant, args, timeout):
    cmd, env = argv(variant, args)
    hd = os.path.join(VERIF, "harness") if REPO == "/repo" else os.path.join(BUILD, "harness")
    p = subprocess.Popen(
        cmd, cwd=hd, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True,
    )
    with _plock:
        _procs.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = "timeout"
    with _plock:
        _procs.discard(p)
    return rc, out.decode("utf8", "replace"), err.decode("utf8", "replace")


def kill_all():
    with _plock:
        for p in list(_procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


# ------------------------------------------------------------------ plans
MIX = "tiny:580,small:100,pages:50,medium:57,wide:60,large:2,churn:1"
MIXM = "tiny:580,small:100,pages:50,medium:57,wide:60"


def J(variant, mode, shards, secs, *args):
    return dict(variant=variant, mode=mode, shards=shards, secs=secs, args=list(args))


def plan(prop, tier):
    th = tier == "thorough"
    s = 240 if th else 20  # seconds of exploration per shard
    e = ["--tier", "1"] if th else []
    h = lambda v, n, secs=s, mix=MIX: J(v, "hist", n, secs, "--profiles", mix)
    x = lambda v, n, secs: J(v, "exh", n, secs, *e)
    p = int(prop[1:])
    # very many entities, pages, archetypes
    scale = [h("rel", 1, s, "huge:4,manypages:7,archs:7"), J("rel", "hist", 1, s, "--profiles", "xpages", "--cases", "6" if th else "2"),
             J("rel", "hist", 1, s * 2, "--profiles", "xarchs", "--cases", "6" if th else "2")]
    if p == 1:
        n = str(1 << 32 if th else 1 << 26)
        return [J("rel", "deep", 7, 600, "--n", n), h("dbg", 4), h("rel", 3), x("rel", 4, s)]
    # long runs of non-matching entities where nothing optimises recursion away
    depth = [J("dev", "depth", 1, 60, "--n", "1500000" if th else "300000")]
    if p in (4, 5, 6, 7, 8):
        scale = depth + scale
    # archetypes of hundreds of component types
    many = [J("rel", "many", 1, s * 0.6)]
    if p in (2, 3, 4, 6, 8, 16):
        scale = scale + many
    # exactly 256 or 65,536 operations of one kind between two looks
    if p in (2, 3, 4, 5, 6, 7, 8, 16, 17):
        scale = scale + [J("rel", "wrap", 1, s * 0.6)]
    if p in (2, 3, 4, 6):
        return scale + [x("rel", 6, s), h("dbg", 6), h("rel", 4)]
    if p in (5, 7, 8, 16):
        return scale + [x("rel", 5, s * 0.7), h("dbg", 6), h("rel", 5)]
    if p in (13,):
        return scale + [h("dbg", 3), h("rel", 2), J("rel", "cyc", 2, s), J("rel", "res", 1, s)] + many
    if p == 14:
        return scale[:1] + [h("dbg", 6), J("dbg", "res", 2, s)]
    if p in (15, 17, 18):
        return {15: scale[:1], 17: scale, 18: scale[:2] + [J("rel", "par", 1, s * 0.6)]}[p] + [h("dbg", 4), h("rel", 4)]
    if p == 9:
        return [J("dbg", "res", 4, s), J("rel", "res", 4, s)]
    if p == 11:
        return [J("dbg", "layout", 3, s), J("rel", "layout", 2, s), h("dbg", 2, mix=MIXM), h("rel", 1, mix=MIXM)] + scale[:1] + many
    if p == 12:
        return [J("dbg", "sets", 4, s), J("rel", "sets", 4, s)] + many
    if p == 10:
        jobs = [
            h("dbg", 2), h("rel", 1), J("dbg", "res", 1, s * 0.6), J("rel", "layout", 1, s * 0.6), 
            J("san", "hist", 2, s, "--profiles", MIX), J("san", "res", 1, s * 0.6),
            J("san", "many", 1, s * 0.6), J("miri", "lean", 6, s * 1.5),
        ]
        if th:
            jobs += [
                J("miri", "hist", 4, s, "--profiles", "tiny:3,small:1"), J("miri", "res", 2, s),
                J("vg", "hist", 3, s, "--profiles", MIXM), J("vg", "res", 1, s),
                J("san", "exh", 2, s),
            ]
        return jobs
    if p == 19:
        return [dict(diff=True, mode="hist", shards=6, secs=s, variants=["dbg", "rel"] + (["dev", "o3"] if th else []), args=["--profiles", MIXM]),
                dict(diff=True, mode="res", shards=2, secs=s, variants=["dbg", "rel"] + (["dev", "o3"] if th else []), args=[])]
    raise SystemExit("no plan for " + prop)


RULES = {
    "hist": "one case = one generated history (palette of component types, tuples, tags and order groups, initial capacity, weighted operations in grow/churn/shrink phases) run against the real store with a reference model compared after operations and at audits; distinct and non-trivial = distinct hashes of the model state reached at audits with at least one live entity",
    "exh": "one case = one operation word of an enumerated alphabet, every word up to the depth in which all operations apply; distinct = distinct model states at the end of the words",
    "cyc": "one case = one population cycle repeated until the footprint settles; distinct = distinct (case, footprint)",
    "res": "one case = one generated history over resource stores with drop-counted values; distinct = distinct model states",
    "layout": "one case = one generated mix of component sizes and alignments whose storage is filled, read back and checked for alignment, bounds and overlap; distinct = distinct layouts",
    "sets": "one case = a group of archetypes built in many ways whose every test is compared with set algebra; distinct = distinct sets of types",
    "deep": "one case = one id recycled very many times, or one very large population; distinct = checkpoints reached",
    "depth": "one case = one iteration over a very long run of entities most of which do not match, in the unoptimised build; distinct = sizes",
    "many": "one case = one generated history over entities of 1 to 320 component types; distinct = distinct entities (types and values) at audits",
    "wrap": "one case = a small world looked at before and after exactly 256 or 65,536 operations of one kind; distinct = distinct (operation, count, state)",
    "par": "one case = 24 straight-line histories run in four threads at the same time and alone; distinct = distinct results",
    "lean": "one case = one straight-line history interpreted by Miri; distinct = distinct final shapes (operation counts by kind)",
    "derive": "one case = one generated type definition compiled with the derive; distinct = distinct definitions",
}


# ------------------------------------------------------------------ verdicts
class Result:
    def __init__(self):
        self.lock = threading.Lock()
        self.summ = []      # (variant, summary)
        self.viol = None    # dict(text, msg, variant, kind)
        self.errors = []
        self.broken = {}    # job index: shards that ended without an answer (time limits excepted)
        self.crashes = []   # foreign crashes, skipped over
        self.stop = threading.Event()

    def violation(self, **kw):
        with self.lock:
            if self.viol is None:
                self.viol = kw
        self.stop.set()


def last(pattern, text):
    m = None
    for m in re.finditer(pattern, text, re.M):
        pass
    return m


SIGNALS = ("SIGSEGV", "SIGBUS", "SIGABRT", "SIGILL", "SIGFPE")


def owned(prop, crash):
    """does this crash break this property?"""
    p = int(prop[1:])
    if p == 10:
        return crash["what"] in SIGNALS
    return bool(crash["owners"] >> p & 1)


def base_args(prop, job, shard, secs):
    return [job["mode"], "--prop", str(int(prop[1:])), "--seed", str(SEED), "--shard", "%d/%d" % (shard, job["shards"]),
            "--secs", "%.1f" % secs] + job["args"]


def run_shard(prop, job, shard, res, tmp, ji):
    v = job["variant"]
    out = os.path.join(tmp, "j%d-%s-%s-%d" % (ji, v, job["mode"], shard))
    os.makedirs(out, exist_ok=True)
    deadline = time.time() + job["secs"]
    skip, frm, restarts = [], 0, 0
    while not res.stop.is_set():
        secs = deadline - time.time()
        if restarts and secs < 1:
            break
        args = base_args(prop, job, shard, max(secs, 1)) + ["--out", out]
        if skip:
            args += ["--skip", ",".join(map(str, skip))]
        if frm:
            args += ["--from", str(frm)]
        if v in ("san", "vg", "miri"):
            args += ["--announce"]
        limit = max(secs, 1) + (600 if v in ("miri", "vg") or job["mode"] in ("deep", "depth") else 180)
        rc, so, se = run(v, args, limit)
        if res.stop.is_set():
            return
        m = last(r"^SUMMARY (\{.*\})$", so)
        if rc == 0 and m:
            with res.lock:
                res.summ.append((v, shard, json.loads(m.group(1)), out))
            return
        m = last(r"^VIOL (\{.*\})$", so)
        if m and rc == 1:
            d = json.loads(m.group(1))
            if v == "miri":
                t = re.search(r"CASETEXT\n(.*?)ENDTEXT", so, re.S)
                text = t.group(1) if t else ""
            else:
                text = open(d["file"]).read()
            res.violation(text=text, msg=d["msg"], variant=v, kind="monitor")
            return
        case, name, why, crash = None, "?", None, None
        m = last(r"^CRASH (\{.*\})$", so)
        if m and rc in (70, 71):
            crash = json.loads(m.group(1))
            case, name, why = crash["case"], crash["name"], crash["what"]
        elif v in ("san", "vg", "miri"):
            c = last(r"^CASE (\d+)$", so)
            case = int(c.group(1)) if c else None
            if v == "san" and rc == 99 and "Sanitizer" in se:
                t = re.search(r"ERROR: AddressSanitizer: (.*)", se)
                why = "AddressSanitizer: " + (t.group(1) if t else "report")
                report = se[:6000]
            elif v == "vg" and rc == 99:
                why, report = "valgrind memcheck report", "\n".join(l for l in se.splitlines() if l.startswith("=="))[:6000]
            elif v == "miri" and re.search(r"^error: Undefined Behavior", se, re.M):
                t = re.search(r"^error: (Undefined Behavior.*)", se, re.M)
                why, report = "Miri: " + t.group(1), se[:6000]
            elif isinstance(rc, int) and rc < 0:
                why, report = "killed by signal %d" % -rc, se[-3000:]
                if -rc == signal.SIGKILL:
                    case = None
            if why and case is not None:
                crash = dict(what="SIGABRT", case=case, owners=1 << 10, name=why)
        if crash is None or case is None:
            with res.lock:
                res.errors.append("%s %s shard %d: exit %s: %s" % (v, job["mode"], shard, rc, (so[-300:] + se[-700:])))
                if rc != "timeout":
                    res.broken[ji] = res.broken.get(ji, 0) + 1
            return
        if owned(prop, crash):
            rc2, so2, se2 = run(v if v not in ("vg",) else "vg", base_args(prop, job, shard, 600) + ["--dump", str(case)] + (["--skip", ",".join(map(str, skip))] if skip else []), 300)
            text = so2 if rc2 == 0 else ""
            if v in ("san", "vg", "miri"):
                text = "# %s\n" % why + "".join("# %s\n" % l for l in report.splitlines()) + text
            res.violation(text=text, msg="%s during %s (case %s)" % (why, name, case), variant=v, kind="crash")
            return
        with res.lock:
            res.crashes.append("%s %s case %s: %s during %s" % (v, job["mode"], case, why, name))
        restarts += 1
        skip.append(case)
        if job["mode"] in ("hist", "res", "layout", "sets", "lean", "many", "par", "wrap"):
            frm = max(frm, case)
        if restarts > 25 or job["mode"] in ("deep", "depth"):
            return


# ------------------------------------------------------------------ C19: two builds, one history
def run_diff(prop, job, shard, res, tmp, ji):
    skip = []
    traces = {}
    stem = "restrace" if job["mode"] == "res" else "trace"
    for attempt in range(8):
        if res.stop.is_set():
            return
        secs = job["secs"] if attempt == 0 else max(3, job["secs"] / 4)
        outs, procs = {}, {}

        def one(v):
            out = os.path.join(tmp, "d%d-%s-%d-%d" % (ji, v, shard, attempt))
            os.makedirs(out, exist_ok=True)
            args = base_args(prop, job, shard, secs) + ["--out", out, "--variant", v]
            if skip:
                args += ["--skip", ",".join(map(str, skip))]
            return (out,) + run(v, args, secs + 180)

        # the variants of one shard run one after the other on one worker
        again = False
        got = {}
        for v in job["variants"]:
            out, rc, so, se = one(v)
            if res.stop.is_set():
                return
            m = last(r"^SUMMARY (\{.*\})$", so)
            if rc == 0 and m:
                got[v] = os.path.join(out, "%s-%s-%d.txt" % (stem, v, shard))
                with res.lock:
                    res.summ.append((v, shard, json.loads(m.group(1)), out))
                continue
            m = last(r"^VIOL (\{.*\})$", so)
            if m and rc == 1:
                d = json.loads(m.group(1))
                res.violation(text=open(d["file"]).read(), msg=d["msg"], variant=v, kind="monitor")
                return
            m = last(r"^CRASH (\{.*\})$", so)
            if not (m and rc in (70, 71)):
                with res.lock:
                    res.errors.append("%s %s shard %d: exit %s: %s" % (v, job["mode"], shard, rc, so[-300:] + se[-700:]))
                return
            crash = json.loads(m.group(1))
            rc2, text, _ = run(v, base_args(prop, job, shard, 60) + ["--dump", str(crash["case"])], 120)
            # does the other build survive this history?
            f = os.path.join(tmp, "x%d-%s-%d.case" % (ji, v, shard))
            open(f, "w").write(text)
            for o in job["variants"]:
                if o != v:
                    rc3, so3, _ = run(o, ["replay", "--file", f, "--prop", "19"], 60)
                    if rc3 == 0:
                        res.violation(text=text, msg="%s in the %s build during %s, none in the %s build" % (crash["what"], v, crash["name"], o), variant=v, kind="diff")
                        return
            with res.lock:
                res.crashes.append("%s %s case %s: %s during %s, in every build" % (v, job["mode"], crash["case"], crash["what"], crash["name"]))
            skip.append(crash["case"])
            again = True
            break
        if again:
            continue
        maps = {}
        for v, f in got.items():
            maps[v] = {}
            for l in open(f):
                w = l.split()
                maps[v][w[0]] = w[1:]
        a = job["variants"][0]
        n = 0
        for b in job["variants"][1:]:
            for k, tr in maps[a].items():
                if k in maps[b]:
                    n += 1
                    if maps[b][k] != tr:
                        at = next((i for i, (p, q) in enumerate(zip(tr, maps[b][k])) if p != q), min(len(tr), len(maps[b][k])))
                        rc2, text, _ = run(a, base_args(prop, job, shard, 60) + ["--dump", k], 120)
                        res.violation(text=text, msg="case %s: results of the %s and %s builds differ from observation %d on" % (k, a, b, at), variant=a, other=b, kind="diff")
                        return
        with res.lock:
            res.compared = getattr(res, "compared", 0) + n
        return


# ------------------------------------------------------------------ shrinking
def fails(prop, viol, text, tmp, tag):
    f = os.path.join(tmp, "shrink-%s.case" % tag)
    open(f, "w").write(text)
    args = ["replay", "--file", f, "--prop", str(int(prop[1:]))]
    if viol["kind"] == "diff":
        rs = []
        for v in (viol["variant"], viol.get("other") or ("rel" if viol["variant"] == "dbg" else "dbg")):
            rc, so, _ = run(v, args, 30)
            m = re.search(r"^TRACE (.*)$", so, re.M)
            rs.append((rc if rc in (0, 1) else "crash", m.group(1) if m else ""))
        return rs[0] != rs[1]
    rc, so, se = run(viol["variant"], args, 40)
    if viol["kind"] == "crash":
        m = last(r"^CRASH (\{.*\})$", so)
        if m:
            return owned(prop, json.loads(m.group(1)))
        return rc == 99
    return rc == 1 and "VIOL " in so


def shrink(prop, viol, tmp, budget):
    text = viol["text"]
    if viol["variant"] in ("miri", "vg") or "\nop " not in text:
        return text
    end = time.time() + budget
    lines = text.splitlines()
    if not fails(prop, viol, text, tmp, "0"):
        return text + "# note: does not repeat on its own\n"
    idx = [i for i, l in enumerate(lines) if l.startswith("op ")]
    keep = list(idx)

    def make(ks):
        s = set(ks)
        return "\n".join(l for i, l in enumerate(lines) if not l.startswith("op ") or i in s) + "\n"

    n = 2
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        while len(keep) > 1 and time.time() < end:
            size = max(1, len(keep) // n)
            cands = [keep[:i] + keep[i + size:] for i in range(0, len(keep), size)]
            hit = None
            for k0 in range(0, len(cands), WORKERS):
                if time.time() > end:
                    break
                part = cands[k0:k0 + WORKERS]
                rs = list(ex.map(lambda t: fails(prop, viol, make(t[1]), tmp, "%d" % t[0]), enumerate(part)))
                if any(rs):
                    hit = part[rs.index(True)]
                    break
            if hit is not None:
                keep = hit
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(keep), n * 2)
    return make(keep)


# ------------------------------------------------------------------ known findings
def known(prop):
    """finding lines: `finding: property=Cxx match=/REGEX/ description`"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", l)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def save_replay(prop, viol, text):
    os.makedirs(REPLAYS, exist_ok=True)
    head = "# property %s, build %s, %s: %s\n# repeat: python3 /verif/check.py --replay THIS_FILE\n" % (
        prop, viol["variant"], viol["kind"], viol["msg"].replace("\n", " "))
    body = head + text
    h = hashlib.sha1(body.encode()).hexdigest()[:10]
    f = os.path.join(REPLAYS, "%s-%s.case" % (prop, h))
    open(f, "w").write(body)
    return f


def write_evidence(prop, tier, cov, wall, viols, assumptions):
    os.makedirs(EVID, exist_ok=True)
    d = dict(property=prop, tier=tier, seed=SEED, level="exploration", coverage=cov, wall_s=round(wall, 2), violations=viols,
             assumptions=assumptions)
    f = os.path.join(EVID, prop + ".json")
    with open(f + ".tmp", "w") as o:
        json.dump(d, o, indent=1)
    os.replace(f + ".tmp", f)


def coverage(res):
    modes = {}
    states = set()
    total = 0
    for v, shard, s, out in res.summ:
        m = modes.setdefault(s["mode"] + "/" + v, {})
        for k in ("cases", "cut", "ops", "calls", "checks"):
            m[k] = m.get(k, 0) + s.get(k, 0)
        m["max_live"] = max(m.get("max_live", 0), s.get("max_live", 0))
        m["grew"] = m.get("grew", 0) + s.get("grew", 0)
        for k, n in s.get("per_op", {}).items():
            m.setdefault("per_op", {})[k] = m.get("per_op", {}).get(k, 0) + n
        for k, n in s.get("feats", {}).items():
            m.setdefault("observed", {})[k] = m.get("observed", {}).get(k, 0) + n
        for k in ("enumerations",):
            if k in s:
                agg = m.setdefault(k, {})
                for x in s[k]:
                    key = "%s cap %s depth %s" % (x["alphabet"], x["cap"], x["depth"])
                    a = agg.setdefault(key, dict(words=0, complete=True, letters=x["letters"]))
                    a["words"] += x["words"]
                    a["complete"] = a["complete"] and x["complete"]
        for k, val in s.items():
            if k not in ("mode", "cases", "cut", "ops", "skipped", "calls", "checks", "max_live", "grew", "states", "per_op", "feats",
                         "enumerations", "sample", "cut_reasons", "states_list") and isinstance(val, (int, str)):
                m.setdefault("other", {})[k] = (m.get("other", {}).get(k, 0) + val) if isinstance(val, int) else val
        if s.get("cut_reasons"):
            m.setdefault("cut_reasons", []).extend(s["cut_reasons"][:2])
            m["cut_reasons"] = m["cut_reasons"][:6]
        total += s["cases"] - s["cut"]
        for f in glob.glob(os.path.join(out, "states-*.bin")):
            b = open(f, "rb").read()
            states.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        states.update(s.get("states_list", []))
    return total, states, modes


def samples(res):
    out, seen = [], set()
    for v, shard, s, _ in res.summ:
        if s["mode"] not in seen and s.get("sample"):
            seen.add(s["mode"])
            out.append(s["sample"])
    return out


ASSUME = [
    "the operations observed are those the generators produce; nothing is claimed about histories not run",
    "callers respect the documented preconditions (C10)",
]


def check(prop, tier):
    t0 = time.time()
    if prop == "C20":
        import derive
        return derive.check(tier, SEED, t0, sys.modules[__name__])
    jobs = plan(prop, tier)
    variants = sorted({v for j in jobs for v in (j.get("variants") or [j["variant"]])})
    err = build(variants)
    if err:
        print("ERROR: the harness does not build\n" + err)
        return 2
    tb = time.time() - t0
    res = Result()
    tmp = tempfile.mkdtemp(prefix="ecsmon-")
    try:
        work = []
        for ji, j in enumerate(jobs):
            for k in range(j["shards"]):
                work.append((run_diff if j.get("diff") else run_shard, prop, j, k, res, tmp, ji))
        # round-robin over the jobs, so that every kind starts early
        order = sorted(range(len(work)), key=lambda i: (work[i][3], work[i][6]))
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            fs = [ex.submit(work[i][0], *work[i][1:]) for i in order]
            while True:
                done, rest = cf.wait(fs, timeout=0.3)
                if not rest:
                    break
                if res.stop.is_set():
                    for f in rest:
                        f.cancel()
                    kill_all()
            for f in fs:
                if not f.cancelled():
                    f.result()
        total, states, modes = coverage(res)
        rules = "; ".join("%s: %s" % (m, RULES[m]) for m in sorted({s[2]["mode"] for s in res.summ}) if m in RULES)
        cov = dict(evaluations=total, distinct_nontrivial=len(states), rule=rules, samples=samples(res), by_mode_and_build=modes,
                   build_s=round(tb, 1))
        if hasattr(res, "compared"):
            cov["histories_compared_between_builds"] = res.compared
        if res.crashes:
            cov["skipped_crashing_cases_of_other_properties"] = res.crashes[:20]
        if res.errors:
            cov["errors"] = res.errors[:10]
        kf = known(prop)
        for rx, desc in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, desc))
        if res.viol and not any(rx.search(res.viol["msg"]) for rx, _ in kf):
            v = res.viol
            text = shrink(prop, v, tmp, 25 if tier == "quick" else 120)
            f = save_replay(prop, v, text)
            write_evidence(prop, tier, cov, time.time() - t0, 1, ASSUME)
            print("%s: %s (build %s)" % (prop, v["msg"], v["variant"]))
            print("VIOLATION property=%s replay=%s" % (prop, f))
            return 1
        write_evidence(prop, tier, cov, time.time() - t0, 0, ASSUME)
        for c in res.crashes[:5]:
            print("note: case given up, crash owned by another property: " + c)
        for e in res.errors[:5]:
            print("note: " + e)
        if total == 0 or any(n >= jobs[ji]["shards"] for ji, n in res.broken.items()) or (res.errors and len(res.errors) * 4 >= len(work)):
            print("ERROR: %s: nothing decided (%d cases, %d failed runs)" % (prop, total, len(res.errors)))
            return 2
        cut = sum(m.get("cut", 0) for m in modes.values())
        print("%s held: %d cases, %d distinct states, %d cut short, %.0f s (build %.0f s)" % (prop, total, len(states), cut, time.time() - t0, tb))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(f):
    text = open(f).read()
    m = re.search(r"^# property (\S+), build (\S+), (\S+):", text)
    prop, v, kind = m.groups()
    err = build([v] + (["rel" if v == "dbg" else "dbg"] if kind == "diff" else []))
    if err:
        print(err)
        return 2
    for b in [v] + (["rel" if v == "dbg" else "dbg"] if kind == "diff" else []):
        rc, so, se = run(b, ["replay", "--file", f, "--prop", str(int(prop[1:]))], 300)
        print("[%s] exit %s\n%s%s" % (b, rc, so[-3000:], se[-3000:]))
    return 0


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--build", help="only build these variants (comma separated)")
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    if a.build:
        e = build(a.build.split(","))
        print(e or "built")
        sys.exit(2 if e else 0)
    if a.replay:
        sys.exit(replay(a.replay))
    try:
        rc = check(a.prop, a.tier)
    finally:
        kill_all()
    sys.exit(rc)
