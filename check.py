#!/usr/bin/env python3
"""Decides one property by generated-input search. Usage: check.py PROP [--thorough] | --setup | --replay FILE

Builds the harness against the working tree of /repo with the hook on, in two profiles (with and
without debug assertions and overflow checks), runs workers on enumerated and random cases, and
writes evidence/<PROP>.json. Exit 0: held on everything explored. Exit 1: violation, with a replay
file. Exit 2: no answer (the build failed, or a worker hung).
"""
import concurrent.futures as cf
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(HARNESS, "target")
REPO = "/repo"
OUT = os.path.join(ROOT, "out")
EVIDENCE = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known-findings.txt")

# Percent of the harness's basic number of random cases that a worker of the quick tier runs.
SCALE = {
    "C01": 800, "C02": 800, "C03": 900, "C04": 800, "C05": 700, "C06": 500, "C07": 1200, "C08": 1200,
    "C09": 1500, "C10": 900, "C11": 250, "C12": 1000, "C13": 500, "C14": 700, "C15": 1500, "C16": 600,
    "C17": 800, "C18": 1000, "C19": 700, "C20": 600, "C21": 500,
    "C22": 800, "C23": 1500,
}
WIDE = ("C16", "C21")  # all ID types instead of three
CONC = ("C22",)  # with threads
THOROUGH_FUZZ_S = 240

RULES = {
    "C01": "histories of at least five edits with an accepted move or detachment of a node that has children",
    "C02": "histories with an accepted move of a node with children, or within one sibling list, or to the place it already has",
    "C03": "histories with at least one refused edit",
    "C04": "histories that detach (wholly or singly) a node with children",
    "C05": "histories that remove a subtree of several nodes, without a panicking hook",
    "C06": "histories in which a hook panicked during panic-safe removal of several nodes, and operations follow",
    "C07": "histories that, after a removal, use a removed or never issued ID and also create nodes",
    "C08": "histories with an explicit mutation, a removal and a structural edit",
    "C09": "iterator programs taking from both ends of a sequence of more than one item",
    "C10": "iterator programs taking from both ends of a sequence of more than one item",
    "C11": "forests whose traversals yield more than ten items in all",
    "C12": "iterator programs taking from both ends of a sequence of more than one item",
    "C13": "histories that copy a subtree of several nodes and edit afterwards",
    "C14": "histories in which a whole forest is cloned and at least two edits follow",
    "C15": "histories with a builder session of at least four steps",
    "C16": "histories replayed with other ID types, or in which all IDs were issued",
    "C17": "printed trees of several nodes with multi-line, empty or piecewise texts or depth over one",
    "C18": "histories with a refused, misused or overflowing call and with a call of every read-only method",
    "C19": "measured operations on big shapes, and histories after which a tree of more than 30 nodes is traversed",
    "C20": "histories with structural edits made by different routes",
    "C21": "histories of more than six calls, digested in each of four builds",
    "C22": "histories with at least three edits, run by several threads",
    "C23": "histories over at least three nodes with three edits, or after which calls are repeated 40 times or more",
}


class NoAnswer(Exception):
    pass


# ------------------------------------------------------------------- building

def env_build():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTC", "MIRIFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
            del e[k]
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTFLAGS"] = "--cfg treena_verif"
    e["RUSTC_WRAPPER"] = ""
    return e


def files_under(top, skip=("target", ".git")):
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            yield os.path.join(d, f)


def sources_hash():
    h = hashlib.sha256()
    for top in (REPO, HARNESS):
        for f in files_under(top):
            try:
                with open(f, "rb") as r:
                    b = r.read()
            except OSError:
                continue
            h.update(("%s %d\n" % (f, len(b))).encode())
            h.update(b)
    h.update(b"4")
    return h.hexdigest()[:24]


BUILDS = {
    # name: (cargo arguments, profile directory)
    "dbg": ([], "debug"),
    "rel": (["--release"], "release"),
    "dbg-wide": (["--features", "allids"], "debug"),
    "rel-wide": (["--release", "--features", "allids"], "release"),
    "dbg-nostd": (["--no-default-features", "--features", "allids"], "debug"),
    "dbg-conc": (["--features", "conc"], "debug"),
    "rel-conc": (["--release", "--features", "conc"], "release"),
    "rel-nostd": (["--release", "--no-default-features", "--features", "allids"], "release"),
}


def build_one(name, digest):
    """Path of the worker binary, building it if these very sources were not built before."""
    cache = os.path.join(TARGET, "bin")
    os.makedirs(cache, exist_ok=True)
    path = os.path.join(cache, "%s-%s" % (name, digest))
    if os.path.exists(path):
        return path, ""
    args, prof = BUILDS[name]
    tdir = os.path.join(TARGET, name)
    e = env_build()
    stamp = os.path.join(tdir, "stamp")
    old = None
    if os.path.exists(stamp):
        with open(stamp) as f:
            old = f.read()
    if old != digest and os.path.isdir(tdir):
        # Cargo judges by time of modification. Contents count here.
        for pr in ("debug", "release"):
            fp = os.path.join(tdir, pr, ".fingerprint")
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x.startswith("treena-") or x.startswith("tvh-"):
                        shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", "tvh", "--target-dir", tdir] + args,
                       cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        return None, r.stdout
    with open(stamp, "w") as f:
        f.write(digest)
    tmp = path + ".tmp%d" % os.getpid()
    shutil.copy2(os.path.join(tdir, prof, "tvh"), tmp)
    os.replace(tmp, path)
    for x in os.listdir(cache):
        if x.startswith(name + "-") and x != os.path.basename(path) and len(x) == len(name) + 25:
            try:
                os.remove(os.path.join(cache, x))
            except OSError:
                pass
    return path, ""


def build(names):
    digest = sources_hash()
    with cf.ThreadPoolExecutor(len(names)) as ex:
        return dict(zip(names, ex.map(lambda n: build_one(n, digest), names)))


# -------------------------------------------------------------------- workers

def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    g = 5 << 30
    resource.setrlimit(resource.RLIMIT_AS, (g, g))


def start(cmd, log):
    # Each arena of a thread would take 64 MB of the limited address space.
    e = dict(os.environ, MALLOC_ARENA_MAX="4")
    return subprocess.Popen(cmd, stdout=open(log, "w"), stderr=subprocess.STDOUT, preexec_fn=limits, env=e)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


class Worker:
    def __init__(self, prop, name, binary, seed, shard, shards, thorough, scale, tmp, digests=False):
        self.prop, self.name, self.binary = prop, name, binary
        b = os.path.join(tmp, "%s-%d" % (name, shard))
        self.out, self.journal, self.found, self.log = b + ".json", b + ".case", b + ".found", b + ".log"
        self.digests = b + ".dig" if digests else None
        self.args = ["--seed", str(seed), "--shard", str(shard), "--shards", str(shards),
                     "--thorough", "1" if thorough else "0", "--scale", str(scale)]
        cmd = [binary, "run", "--prop", prop] + self.args + ["--journal", self.journal, "--out", self.out, "--replay", self.found]
        if digests:
            cmd += ["--digests", self.digests]
        self.p = start(cmd, self.log)
        self.seen = time.time()
        self.mark = None

    def stuck(self, limit):
        """Whether the case at hand has been running for too long."""
        try:
            m = (os.stat(self.journal).st_mtime_ns, )
        except OSError:
            m = None
        if m != self.mark:
            self.mark, self.seen = m, time.time()
        return time.time() - self.seen > limit


def wait_all(ws, patience, deadline):
    """Waits for all workers, or until one has found something."""
    while True:
        live = [w for w in ws if w.p.poll() is None]
        bad = [w for w in ws if w.p.poll() not in (None, 0)]
        if bad or not live:
            for w in live:
                if w is not bad[0] and w.p.poll() is None:
                    kill(w.p)
            return bad
        for w in live:
            if w.stuck(patience) or time.time() > deadline:
                for x in live:
                    kill(x.p)
                raise NoAnswer("worker %s made no progress; its case is kept in %s" % (w.name, keep(w.journal, w.prop, "hung")))
        time.sleep(0.05)


def keep(path, prop, what):
    os.makedirs(OUT, exist_ok=True)
    d = os.path.join(OUT, "%s-%s.case" % (prop, what))
    try:
        shutil.copy2(path, d)
    except OSError:
        pass
    return d


def replay(binary, prop, path, timeout=300):
    with open(path + ".replay.log", "w+") as f:
        p = subprocess.Popen([binary, "replay", path, "--prop", prop], stdout=f, stderr=subprocess.STDOUT, preexec_fn=limits, env=dict(os.environ, MALLOC_ARENA_MAX="4"))
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            kill(p)
            return None, ""
        f.seek(0)
        return rc, f.read()


# ------------------------------------------------------------------ violations

def known():
    """Findings that are recorded and not repaired: (property, text that the report contains)."""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property="):
                prop, _, rest = l[len("known: property="):].partition(" ")
                res.append((prop, rest))
    return res


def save_replay(prop, seed, text):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-%s.case" % (prop, hashlib.sha256(text.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(text)
    return path


def crashed(w, seed):
    """A worker was ended by a signal. Its last case is tried alone."""
    rc, log = replay(w.binary, w.prop, w.journal)
    if rc is None or rc in (0, 2):
        raise NoAnswer("worker %s ended with %s, which its last case alone does not reproduce" % (w.name, w.p.returncode))
    case = open(w.journal).read()
    what = "ended by signal %d" % -rc if rc < 0 else "fails"
    text = "# property %s, build %s: the process %s on this case\n" % (w.prop, w.name, what)
    return save_replay(w.prop, seed, text + "".join("# %s\n" % l for l in log.strip().splitlines()[-8:]) + case)


# -------------------------------------------------------------------- evidence

def merge(ws, digests=False):
    cov = {"evaluations": 0, "histories_or_programs_nontrivial": 0, "classes": {}, "failures_of_other_properties": {},
           "calls_checked": 0}
    keys = set()
    per = {}
    samples = []
    for w in ws:
        try:
            d = json.load(open(w.out))
        except (OSError, ValueError):
            continue
        cov["evaluations"] += d["evaluations"]
        cov["histories_or_programs_nontrivial"] += d["nontrivial_runs"]
        cov["calls_checked"] += d.get("calls", 0)
        per[w.name] = per.get(w.name, 0) + d["evaluations"]
        for a, b in (("classes", "classes"), ("foreign", "failures_of_other_properties")):
            for k, v in d[a].items():
                cov[b][k] = cov[b].get(k, 0) + v
        samples += d["samples"][-2:]
        try:
            b = open(w.out + ".keys", "rb").read()
            keys.update(b[i:i + 8] for i in range(0, len(b), 8))
        except OSError:
            pass
    cov["evaluations_per_build"] = per
    cov["distinct_nontrivial"] = len(keys)
    samples = sorted(set(samples), key=lambda s: (len(s), s))
    n = len(samples)
    cov["samples"] = [samples[i] for i in sorted({n // 4, n // 2, 3 * n // 4})] if n else []
    return cov


def write_evidence(prop, tier, seed, cov, t0, violations, extra_rule=""):
    os.makedirs(EVIDENCE, exist_ok=True)
    cov["rule"] = ("Cases: every small forest with every edit or program, enumerated; then random histories by "
                   "weighted operation generators. Counted as non-trivial: " + RULES[prop] + ". Distinct by the operations "
                   "of the case (and the ID type)." + extra_rule)
    d = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": ["The reference model and the harness are right.", "The builds of the installed stable toolchain stand for others."],
         "wall_s": round(time.time() - t0, 2), "violations": violations}
    path = os.path.join(EVIDENCE, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.replace(path + ".tmp", path)


def report(prop, path, why):
    """Prints the result for a violation. Returns the exit code."""
    for kp, text in known():
        if kp == prop and text and text in why:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
            return 0
    print(why.strip()[:2000])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


# ------------------------------------------------------------------- the checks

def check(prop, tier, seed):
    t0 = time.time()
    thorough = tier == "thorough"
    names = builds_of(prop)
    if prop == "C21":
        return check_c21(tier, seed, t0)
    bins = build(names)
    if prop in CONC and any(bins[n][0] is None for n in names):
        return no_threads(prop, tier, seed, t0, bins)
    for n in names:
        if bins[n][0] is None:
            raise NoAnswer("building %s failed:\n%s" % (n, bins[n][1][-4000:]))
    tmp = workdir(prop)
    try:
        scale = 100 if thorough else SCALE[prop]
        ws = []
        for i, n in enumerate(names):
            for s in range(4):
                ws.append(Worker(prop, n, bins[n][0], 2 * seed + i, s, 4, thorough, scale, tmp))
        bad = wait_all(ws, 240, t0 + (6 * 3600 if thorough else 860))
        if bad:
            w = next((w for w in bad if w.p.returncode == 1 and os.path.exists(w.found)), bad[0])
            if w.p.returncode == 1 and os.path.exists(w.found):
                text = open(w.found).read()
                path = save_replay(prop, seed, "# build %s\n%s" % (w.name, text))
            elif w.p.returncode < 0 and w.p.returncode != -signal.SIGKILL:
                path = crashed(w, seed)
            else:
                raise NoAnswer("worker %s ended with %s:\n%s" % (w.name, w.p.returncode, open(w.log).read()[-2000:]))
            why = "\n".join(l for l in open(path).read().splitlines() if l.startswith("#"))
            rc = report(prop, path, why)
            write_evidence(prop, tier, seed, merge(ws), t0, rc)
            return rc
        cov = merge(ws)
        if thorough:
            rc, path, stats = fuzz(prop, seed)
            cov["fuzzing"] = stats
            if rc:
                why = "\n".join(l for l in open(path).read().splitlines() if l.startswith("#"))
                rc = report(prop, path, why)
                write_evidence(prop, tier, seed, cov, t0, rc)
                return rc
        write_evidence(prop, tier, seed, cov, t0, 0)
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def builds_of(prop):
    kind = "-wide" if prop in WIDE else "-conc" if prop in CONC else ""
    return ["dbg" + kind, "rel" + kind]


def no_threads(prop, tier, seed, t0, bins):
    """The harness with threads does not compile. If the one without does, types may not cross threads any more."""
    plain = build(["dbg"])
    logs = "".join(bins[n][1] for n in bins if bins[n][0] is None)
    if plain["dbg"][0] is None or not ("cannot be sent between threads safely" in logs or "cannot be shared between threads safely" in logs):
        raise NoAnswer("building failed:\n" + logs[-4000:])
    lines = [l for l in logs.splitlines() if "between threads safely" in l]
    why = "# property %s: a public type may not cross threads\n# %s\n" % (prop, "\n# ".join(sorted(set(lines))[:5]))
    path = save_replay(prop, seed, why + logs[-20000:])
    rc = report(prop, path, why)
    cov = {"evaluations": 1, "distinct_nontrivial": 0, "samples": [why]}
    write_evidence(prop, tier, seed, cov, t0, rc)
    return rc


def workdir(prop):
    import tempfile
    return tempfile.mkdtemp(prefix="tvh-%s-" % prop)


def plain_builds(tmp):
    """The crate itself, as a user builds it, with and without the feature `std`."""
    e = env_build()
    del e["RUSTFLAGS"]
    res = {}
    for n, a in (("std", ["--cfg", 'feature="std"']), ("no-std", [])):
        r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "treena", "--emit=metadata",
                            "-o", os.path.join(tmp, "lib-%s.rmeta" % n), "--cap-lints", "allow", os.path.join(REPO, "src", "lib.rs")] + a,
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        res[n] = (r.returncode, r.stdout)
    return res


def check_c21(tier, seed, t0):
    prop, thorough = "C21", tier == "thorough"
    tmp = workdir(prop)
    try:
        plain = plain_builds(tmp)
        names = ["dbg-wide", "rel-wide", "dbg-nostd", "rel-nostd"]
        bins = build(names)
        broken = [n for n in names if bins[n][0] is None]
        fails = [n for n in plain if plain[n][0] != 0]
        if len(broken) == 4 or len(fails) == 2:
            raise NoAnswer("no build works:\n" + bins[names[0]][1][-3000:] + plain["std"][1][-1000:])
        if broken or fails:
            text = "# property C21: the crate does not build in every configuration\n# failing: %s\n" % ", ".join(broken + fails)
            for n in broken:
                text += "# --- %s\n%s\n" % (n, bins[n][1][-6000:])
            for n in fails:
                text += "# --- rustc, %s\n%s\n" % (n, plain[n][1][-6000:])
            path = save_replay(prop, seed, text)
            rc = report(prop, path, text.splitlines()[0] + "\n" + text.splitlines()[1])
            write_evidence(prop, tier, seed, {"evaluations": 6, "distinct_nontrivial": 0, "samples": [text[:2000]]}, t0, rc)
            return rc
        scale = 100 if thorough else SCALE[prop]
        bins = {n: bins[n][0] for n in names}
        ws = [Worker(prop, n, bins[n], seed, s, 2, thorough, scale, tmp, digests=True) for s in range(2) for n in names]
        bad = wait_all(ws, 240, t0 + (6 * 3600 if thorough else 860))
        case = None
        if bad:
            w = bad[0]
            if w.p.returncode >= 0 or w.p.returncode == -signal.SIGKILL:
                raise NoAnswer("worker %s ended with %s:\n%s" % (w.name, w.p.returncode, open(w.log).read()[-2000:]))
            case = open(w.journal).read()
            if not differ(bins, case, tmp):
                raise NoAnswer("worker %s was ended by a signal, as in all builds" % w.name)
        else:
            for s in range(2):
                lines = [open(w.digests).read().split() for w in ws if w.digests.endswith("-%d.dig" % s)]
                for i in range(max(map(len, lines))):
                    if len({l[i] if i < len(l) else "" for l in lines}) > 1:
                        g = os.path.join(tmp, "gen.case")
                        w = next(w for w in ws if w.digests.endswith("-%d.dig" % s))
                        subprocess.run([w.binary, "gen", "--prop", prop, "--index", str(i), "--out", g] + w.args, check=True)
                        case = open(g).read()
                        break
                if case:
                    break
        cov = merge(ws)
        # Each case counts once, though it ran in four builds.
        cov["evaluations"] //= 4
        cov["histories_or_programs_nontrivial"] //= 4
        cov["executions"] = 4 * cov["evaluations"]
        if case is None:
            write_evidence(prop, tier, seed, cov, t0, 0)
            return 0
        if not differ(bins, case, tmp):
            raise NoAnswer("digests differ, but not when the case runs alone")
        case = shrink(bins, case, tmp)
        head, logs = compare(bins, case, tmp)
        text = "# property C21: builds behave differently\n" + head + case + logs
        path = save_replay(prop, seed, text)
        rc = report(prop, path, "# builds behave differently\n" + head)
        write_evidence(prop, tier, seed, cov, t0, rc)
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def digest_of(binary, case, tmp):
    p = os.path.join(tmp, "d%d-%s.case" % (os.getpid(), os.path.basename(binary)))
    with open(p, "w") as f:
        f.write(case)
    try:
        r = subprocess.run([binary, "digest", p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=200, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        raise NoAnswer("a build hangs on a case")
    if r.returncode != 0:
        return "ended with %d" % r.returncode, r.stdout
    h, _, rest = r.stdout.partition("\n")
    return h, rest


def digests(bins, case, tmp):
    with cf.ThreadPoolExecutor(4) as ex:
        return dict(zip(bins, ex.map(lambda n: digest_of(bins[n], case, tmp), bins)))


def differ(bins, case, tmp):
    return len({d[0] for d in digests(bins, case, tmp).values()}) > 1


def shrink(bins, case, tmp):
    """Deletes operations while the builds still differ."""
    head = [l for l in case.splitlines() if l and not l.startswith("op ") and not l.startswith("#")]
    ops = [l for l in case.splitlines() if l.startswith("op ")]
    at = next((i for i, l in enumerate(head) if l.startswith("prog")), len(head))

    def make(o):
        return "\n".join(head[:at] + o + head[at:]) + "\n"
    best, left = ops, 400
    size = max(1, len(best) // 2)
    while left > 0:
        i, any_ = 0, False
        while i < len(best) and left > 0:
            left -= 1
            t = best[:i] + best[i + size:]
            if differ(bins, make(t), tmp):
                best, any_ = t, True
            else:
                i += size
        if size == 1 and not any_:
            break
        if not any_:
            size = max(1, size // 2)
    return make(best)


def compare(bins, case, tmp):
    ds = digests(bins, case, tmp)
    head = "".join("# %s: %s\n" % (n, d[0]) for n, d in ds.items())
    groups = {}
    for n, d in ds.items():
        groups.setdefault(d[0], (n, d[1]))
    logs = ""
    for n, t in list(groups.values())[:2]:
        logs += "# --- %s\n" % n + "".join("# %s\n" % l for l in t.splitlines())
    a, b = [t.splitlines() for _, t in list(groups.values())[:2]] if len(groups) > 1 else ([], [])
    for x, y in zip(a, b):
        if x != y:
            head += "# first difference: %s | %s\n" % (x, y)
            break
    return head, logs


# --------------------------------------------------------------------- fuzzing

def fuzz(prop, seed):
    """Coverage-guided search in the same space of cases, with the same oracle."""
    fdir = os.path.join(ROOT, "fuzz")
    if prop == "C21" or not os.path.isdir(fdir):
        return 0, None, {"skipped": True}
    e = env_build()
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    tdir = os.path.join(fdir, "target")
    r = subprocess.run(["cargo", "fuzz", "build", "--fuzz-dir", fdir, "--target-dir", tdir, "-s", "none", "-O", "-a", "cases"] + (["--features", "conc"] if prop in CONC else []), cwd=fdir, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise NoAnswer("building the fuzz target failed:\n" + r.stdout[-3000:])
    binary = os.path.join(tdir, "x86_64-unknown-linux-gnu", "release", "cases")
    tmp = workdir(prop)
    corpus = os.path.join(tmp, "corpus")
    os.makedirs(corpus)
    e["TVH_PROP"] = prop
    e["TVH_FOUND"] = os.path.join(tmp, "found.case")
    secs = int(os.environ.get("TVH_FUZZ_S", THOROUGH_FUZZ_S))
    try:
        ps = []
        for i in range(8):
            ps.append(subprocess.Popen([binary, corpus, "-seed=%d" % (seed * 8 + i + 1), "-max_total_time=%d" % secs, "-reload=1",
                                        "-len_control=20", "-max_len=420", "-timeout=300", "-rss_limit_mb=4000", "-print_final_stats=1",
                                        "-artifact_prefix=%s/" % tmp], cwd=tmp, env=e,
                                       stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, "fuzz%d.log" % i), "w"), preexec_fn=os.setsid))
        while any(p.poll() is None for p in ps):
            if os.path.exists(e["TVH_FOUND"] + ".done"):
                break
            time.sleep(0.5)
        for p in ps:
            if p.poll() is None:
                kill(p)
        runs = 0
        cover = 0
        for i in range(8):
            t = open(os.path.join(tmp, "fuzz%d.log" % i), errors="replace").read()
            for l in t.splitlines():
                if l.startswith("stat::number_of_executed_units:"):
                    runs += int(l.split(":")[-1])
                if " cov: " in l:
                    cover = max(cover, int(l.split(" cov: ")[1].split()[0]))
        stats = {"executions": runs, "corpus": len(os.listdir(corpus)), "edges": cover, "seconds": secs}
        if os.path.exists(e["TVH_FOUND"] + ".done"):
            return 1, save_replay(prop, seed, open(e["TVH_FOUND"]).read()), stats
        if any(p.returncode not in (0, -9) for p in ps):
            raise NoAnswer("a fuzzer ended with %s" % [p.returncode for p in ps])
        return 0, None, stats
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        r = build(list(BUILDS))
        for n, (p, log) in r.items():
            if p is None:
                print("building %s failed:\n%s" % (n, log[-3000:]))
        # A tree that does not build is for the checks to tell.
        return 0
    if args[:1] == ["--replay"]:
        lines = open(args[1]).read()
        prop = os.path.basename(args[1]).split("-")[0]
        bins = build(["dbg-wide", "rel-wide", "dbg-nostd", "rel-nostd"] if prop == "C21" else builds_of(prop))
        rc = 0
        if prop in CONC and any(b is None for b, _ in bins.values()):
            print("".join(log for _, log in bins.values())[-4000:])
            return 1
        if prop == "C21":
            tmp = workdir(prop)
            head, logs = compare({n: b[0] for n, b in bins.items()}, lines, tmp)
            shutil.rmtree(tmp, ignore_errors=True)
            print(head + logs)
            return 0 if "first difference" not in head else 1
        for n, (b, _) in bins.items():
            r, log = replay(b, prop, args[1])
            os.remove(args[1] + ".replay.log")
            print("--- build %s: exit %s\n%s" % (n, r, log))
            rc = rc or (1 if r else 0)
        return rc
    prop = args[0]
    tier = "thorough" if "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    seed &= (1 << 60) - 1
    try:
        return check(prop, tier, seed)
    except NoAnswer as e:
        print("no answer: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
