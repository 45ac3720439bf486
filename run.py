#!/usr/bin/env python3
"""Builds the harnesses of one property from /repo's working tree, runs them under their monitors, and judges.

usage: run.py check <property> [quick|thorough]   exit 0 held, 1 violation, 2 no answer
       run.py replay <replay.json>                re-runs the one case of a violation
       run.py setup                               checks the toolchain
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

JOBS = max(2, min(8, os.cpu_count() or 2))
BASE = ["-std=c++20", "-w", "-I", INC, "-I", os.path.join(HERE, "harness"), "-I", "/usr/include/eigen3"]
SAN_OFF = "-fno-sanitize=null,pointer-overflow"  # formed-but-not-dereferenced pointers of empty ranges are no finding
CONFIGS = {
    # address + undefined behaviour sanitizers, same vector width as the project's own build
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", SAN_OFF, "-fno-sanitize-recover=all"],
    # the project's own optimisation level, assertions live
    "o2": ["-O2", "-g1"],
    # wider vectors: other batch sizes, fused multiply-add
    "avx2": ["-O2", "-g1", "-mavx2", "-mfma"],
    # wide vectors under the memory sanitizers
    "asan-avx2": ["-O1", "-g1", "-mavx2", "-mfma", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", SAN_OFF, "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    # plain build executed by valgrind memcheck: decisions taken on uninitialised values
    "memcheck": ["-O1", "-g1", "-DVH_MEMCHECK=1"],
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1",
}


def cpu_has(flag):
    try:
        with open("/proc/cpuinfo") as f:
            for line in f:
                if line.startswith("flags"):
                    return flag in line.split()
    except OSError:
        pass
    return False


def supported(config):
    return not ("avx2" in config and not (cpu_has("avx2") and cpu_has("fma")))


def tree_hash():
    h = hashlib.sha256()
    for root in (INC, os.path.join(HERE, "harness")):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".cpp"):
                    continue
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h


def sh(cmd, timeout, **kw):
    """-> (returncode or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        return None, out.decode("utf8", "replace"), err.decode("utf8", "replace")


def compile_one(base_hash, src, config):
    flags = CONFIGS[config]
    name, _, part = src.partition("#")  # "x.cpp#2": the part of x.cpp guarded by VH_PART == 2
    if part:
        flags = flags + ["-DVH_PART=" + part]
    path = os.path.join(HERE, "harness", name)
    h = base_hash.copy()
    with open(path, "rb") as f:
        h.update(f.read())
    h.update(" ".join(flags + BASE).encode())
    out = os.path.join(BUILD, "bin", "%s-%s-%s" % (src.replace(".cpp", "").replace("#", "_"), config, h.hexdigest()[:16]))
    if os.path.exists(out):
        return out, None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d.tmp" % (out, os.getpid())
    cmd = ["g++"] + BASE + flags + [path, "-o", tmp, "-pthread"]
    rc, o, e = sh(cmd, 700)
    if rc != 0:
        return None, "compile failed (%s, %s, rc=%s):\n%s" % (src, config, rc, "\n".join((o + e).splitlines()[:40]))
    os.replace(tmp, out)
    return out, None


def command(binary, config, args):
    if config == "memcheck":
        return ["valgrind", "-q", "--error-exitcode=96", "--exit-on-first-error=yes", "--leak-check=no", "--undef-value-errors=yes", binary] + args
    return [binary] + args


def read_cur(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        fam = b[:64].split(b"\0")[0].decode()
        return {"family": fam, "index": int.from_bytes(b[64:72], "little"), "done": int.from_bytes(b[72:80], "little"),
                "case": b[80:].split(b"\0")[0].decode("utf8", "replace")}
    except (OSError, ValueError):
        return None


def crash_kind(rc, err):
    m = re.search(r"AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan:" + m.group(1)
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "ubsan:" + re.sub(r"0x[0-9a-f]+|-?[0-9][0-9.e+]*", "N", m.group(1))[:100]
    m = re.search(r"ThreadSanitizer: ([\w ()-]+)", err)
    if m:
        return "tsan:" + m.group(1).strip()
    m = re.search(r"Assertion `(.*)' failed", err)
    if m:
        return "assert:" + m.group(1)[:120]
    if rc == 97:
        return "hang"
    if rc == 96:
        return "memcheck"
    m = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
    if m:
        return "terminate:" + m.group(1)
    return "crash:%s" % rc


class Shard:
    def __init__(self, binary, src, config, idx, n, scale, seed, tier, work, case_cpu, wall):
        self.__dict__.update(locals())
        self.tag = os.path.join(work, "%s-%s-%d" % (src.replace(".cpp", "").replace("#", "_"), config, idx))

    def base_args(self):
        return ["--seed", str(self.seed), "--tier", self.tier, "--case-cpu", str(self.case_cpu)]

    def run(self):
        for attempt in (0, 1):
            for ext in (".json", ".cur", ".hash"):
                if os.path.exists(self.tag + ext):
                    os.unlink(self.tag + ext)
            args = self.base_args() + ["--scale", str(self.scale), "--shard", "%d/%d" % (self.idx, self.n),
                                       "--out", self.tag + ".json", "--cur", self.tag + ".cur", "--hashes", self.tag + ".hash"]
            env = dict(os.environ, **ENV)
            rc, out, err = sh(command(self.binary, self.config, args), self.wall, env=env)
            if rc == 0 and os.path.exists(self.tag + ".json"):
                try:
                    with open(self.tag + ".json") as f:
                        self.res = json.loads(f.read())
                except ValueError as e:
                    self.note = "unreadable result: %s" % e
                    self.res = None
                    continue
                hs = set()
                with open(self.tag + ".hash", "rb") as f:
                    b = f.read()
                for i in range(0, len(b), 8):
                    hs.add(b[i:i + 8])
                self.hashes = hs
                for v in self.res["violations"]:
                    v.update(src=self.src, config=self.config)
                return
            cur = read_cur(self.tag + ".cur")
            if rc is None:  # wall clock: says nothing about the code
                self.note = "wall-clock limit of %d s" % self.wall
                continue
            if rc == -9:  # memory pressure: says nothing about the code
                self.note = "killed"
                continue
            if "unexpected memory mapping" in err or rc == 3 or cur is None:
                self.note = "harness did not run: rc=%s %s" % (rc, err[-500:])
                continue
            kind = crash_kind(rc, err)
            if kind == "hang":  # confirm alone before believing it
                rc2, _, err2 = sh(command(self.binary, self.config, self.base_args() + ["--family", cur["family"], "--index", str(cur["index"])]), 400, env=env)
                if rc2 != 97:
                    self.note = "a case used over %d s of CPU once, not when run alone" % self.case_cpu
                    continue
            v = {"family": cur["family"], "index": cur["index"], "key": kind, "case": cur["case"], "src": self.src, "config": self.config,
                 "msg": "process died (rc=%s): %s" % (rc, err[-3000:])}
            self.res = {"complete": False, "evaluations": cur["done"] + 1, "checks": 0, "families": {}, "samples": [], "violations": [v], "violating_cases": 1}
            self.hashes = set()
            return
        self.res = None


def load_known():
    known = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) family=(\S+) key=(\S+) case=/(.*)/ what=(.*)$", line.strip())
                if m:
                    known.append(dict(property=m.group(1), family=m.group(2), key=m.group(3), case=re.compile(m.group(4)), text=m.group(5)))
    return known


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = PROPS[pid]
    plan = []  # (src, config, scale, shards)
    for src in prop["src"]:
        for config, scale in prop["configs"][tier]:
            if isinstance(src, tuple):
                if config not in src[1]:
                    continue
                s = src[0]
            else:
                s = src
            if supported(config):
                plan.append((s, config, scale))
    work = os.path.join(BUILD, "work", "%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    base = tree_hash()
    with ThreadPoolExecutor(JOBS) as ex:
        bins = list(ex.map(lambda p: compile_one(base, p[0], p[1]), plan))
    errors = [e for _, e in bins if e]
    if errors:
        print("ERROR property=%s the harness does not build against this tree\n%s" % (pid, "\n".join(errors)))
        return 2
    t_build = time.time() - t0
    nsh = prop.get("shards", JOBS)
    wall = 300 if tier == "quick" else 3600 * 2
    case_cpu = prop.get("case_cpu", 60) * (10 if tier == "thorough" else 1)
    shards = []
    for (src, config, scale), (binary, _) in zip(plan, bins):
        for i in range(nsh):
            shards.append(Shard(binary, src, config, i, nsh, scale, seed, tier, work, case_cpu, wall))
    with ThreadPoolExecutor(max(1, JOBS // prop.get("threads", 1))) as ex:
        list(ex.map(lambda s: s.run(), shards))

    known = [k for k in load_known() if k["property"] == pid]
    evals = checks = 0
    distinct, fams, samples, viols, dead = set(), {}, [], [], []
    margins = {}
    per_config = {}
    for s in shards:
        if s.res is None:
            dead.append("%s/%s shard %d: %s" % (s.src, s.config, s.idx, getattr(s, "note", "?")))
            continue
        r = s.res
        evals += r["evaluations"]
        checks += r["checks"]
        per_config[s.config] = per_config.get(s.config, 0) + r["evaluations"]
        distinct |= s.hashes
        for k, v in r["families"].items():
            f = fams.setdefault(k, {"cases": 0, "checks": 0})
            f["cases"] += v["cases"]
            f["checks"] += v["checks"]
        samples += r["samples"]
        for k, m in r.get("margins", {}).items():
            margins[k] = max(margins.get(k, 0), m)
        viols += r["violations"]
    # one sample per family is enough to show what was run
    seen, keep = set(), []
    for s in samples:
        if s["family"] not in seen:
            seen.add(s["family"])
            keep.append(s)
    fresh, listed = [], {}
    for v in viols:
        k = next((k for k in known if k["family"] == v["family"] and k["key"] == v["key"] and k["case"].search(v["case"])), None)
        if k:
            listed.setdefault(k["text"], 0)
            listed[k["text"]] += 1
        else:
            fresh.append(v)
    for text, n in listed.items():
        print("KNOWN-FINDING: property=%s %s (%d observations)" % (pid, text, n))
    unchecked = [f for f, v in fams.items() if v["checks"] == 0]
    rc = 0
    replay_dir = os.path.join(HERE, "replay")
    groups = {}
    for v in fresh:
        groups.setdefault((v["family"], v["key"]), []).append(v)
    for n, ((fam, key), vs) in enumerate(sorted(groups.items())):
        if n >= 8:
            break
        v = vs[0]
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, "%s-%s-%s.json" % (pid, fam, hashlib.sha1(key.encode()).hexdigest()[:8]))
        with open(path, "w") as f:
            json.dump(dict(v, property=pid, seed=seed, tier=tier, similar=len(vs)), f, indent=1)
        print("%s/%s [%s] %s: %s\n  case: %s" % (v["src"], fam, v["config"], key, v["msg"][-1500:], v["case"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    if rc == 0 and dead:
        print("INCONCLUSIVE property=%s\n%s" % (pid, "\n".join(dead[:10])))
        rc = 2
    if rc == 0 and (evals == 0 or checks == 0 or unchecked):
        print("INCONCLUSIVE property=%s nothing observed (%s)" % (pid, unchecked))
        rc = 2
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct), "rule": prop["rule"],
            "samples": keep[:40], "oracle_comparisons": checks, "executions_per_build": per_config, "families": fams,
            "worst_error_over_tolerance": {k: round(m, 4) for k, m in sorted(margins.items())},
            "builds": {c: " ".join(CONFIGS[c]) for c in per_config},
            "sanitizer_or_crash_reports": sum(1 for v in viols if re.match(r"asan|ubsan|tsan|memcheck|assert|crash|terminate|hang", v["key"])),
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d executions, %d distinct cases, %d oracle comparisons, %s, build %.0f s, total %.0f s -> %s" % (
        pid, tier, evals, len(distinct), checks, per_config, t_build, time.time() - t0, ["held", "VIOLATED", "no answer"][rc]))
    return rc


def replay(path):
    with open(path) as f:
        v = json.load(f)
    binary, err = compile_one(tree_hash(), v["src"], v["config"])
    if err:
        print(err)
        return 2
    rc, out, err = sh(command(binary, v["config"], ["--seed", str(v["seed"]), "--tier", v["tier"], "--family", v["family"], "--index", str(v["index"])]), 900, env=dict(os.environ, **ENV))
    print(out[-4000:], err[-4000:])
    bad = rc != 0 or json.loads(out)["violations"]
    print("reproduced" if bad else "not reproduced")
    return 1 if bad else 0


def setup():
    for tool in ("g++", "valgrind"):
        if not shutil.which(tool):
            print("missing: " + tool)
            return 2
    for d in ("build", "replay", "evidence"):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    print("toolchain present; harnesses are built by each check from the current tree of " + REPO)
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "setup":
        sys.exit(setup())
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")))
