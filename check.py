#!/usr/bin/env python3
"""Decide one property of jeaiii/ce by running its monitored harness.

usage: check.py ID [--thorough] [--seed N] [--replay FILE] [--config NAME] [--keep]

Builds harness/ID.cpp against the sources in /repo's working tree (CE_REPO overrides the path) in the
configurations specs.py lists, runs them, and judges what the monitors observed.
exit 0: held on everything explored   exit 1: VIOLATION lines   exit 2: no verdict (harness error)
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CE_REPO", "/repo")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from specs import SPECS, CONFIGS  # noqa: E402

CXX = os.environ.get("CE_CXX", "clang++-18")
BASE = ["-std=c++17", "-g", "-fno-omit-frame-pointer", "-m64", "-fno-rtti", "-fno-exceptions", "-ftemplate-depth=4096"]
BASE_FOR = {"clang": ["-Wno-enum-constexpr-conversion", "-Wno-everything", "-fconstexpr-steps=200000000"],
            "gcc": ["-w", "-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=2000000000", "-fconstexpr-depth=4096"]}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1:handle_segv=1:print_summary=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99:print_summary=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=4",
    "MSAN_OPTIONS": "exitcode=99:print_summary=1",
}


class NoVerdict(Exception):
    pass


class Inconclusive(NoVerdict):
    """something took too long, but not when done again"""


class Unusable(Exception):
    """the library no longer compiles for a program which uses it as it could be used before"""


class Skipped(Exception):
    """a compiler other than the one the project is built with does not take the harness"""


def not_built(what, out, bdir, cxx=CXX, must=False):
    if cxx != CXX and not must:
        raise Skipped(what)
    # is it the library's doing? the same compiler must manage a program without it
    c = os.path.join(tempfile.mkdtemp(dir=bdir), "control.cpp")
    open(c, "w").write("#include <vector>\n#include <string>\nint main() { return int(std::vector<std::string>(3).size()) - 3; }\n")
    p = subprocess.run([cxx, "-std=c++17", c, "-o", c[:-4]], capture_output=True, text=True)
    if p.returncode or subprocess.run([c[:-4]]).returncode or not re.search(r"error: |undefined reference|undefined symbol", out):
        raise NoVerdict("%s:\n%s" % (what, out[:6000]))
    raise Unusable("%s:\n%s" % (what, out[:6000]))


def run(cmd, timeout, cwd, env=None, stall=None):
    """-> (returncode or None on timeout or when the case under way did not change for `stall` seconds, output)"""
    with open(os.path.join(cwd, "out.txt"), "w+b") as f:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             env={**os.environ, **ENV, **(env or {})}, start_new_session=True)
        try:
            if not stall:
                rc = p.wait(timeout)
            else:
                rc, end, last, since = None, time.time() + timeout, None, time.time()
                while rc is None and time.time() < end and time.time() - since < stall:
                    try:
                        rc = p.wait(1)
                    except subprocess.TimeoutExpired:
                        try:
                            now = open(os.path.join(cwd, "progress"), "rb").read()
                        except OSError:
                            now = None
                        if now != last:
                            last, since = now, time.time()
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        f.seek(0)
        return rc, f.read().decode("utf-8", "replace")


def generate(pid, spec, seed, tier, bdir):
    if spec.get("gen"):
        sys.path.insert(0, os.path.join(HERE, "harness"))
        import gen
        os.makedirs(os.path.join(bdir, "gen"), exist_ok=True)
        for what in spec["gen"]:
            gen.generate(what, seed, tier == "thorough", os.path.join(bdir, "gen", what + ".inc"))


def compile_one(pid, spec, name, bdir):
    """compile and link one configuration; returns the executable"""
    cfg = CONFIGS[name]
    cxx = cfg.get("cxx", CXX)
    d = os.path.join(bdir, name)
    os.makedirs(d, exist_ok=True)
    flags = BASE + BASE_FOR["clang" if "clang" in cxx else "gcc"] + cfg["flags"] + spec.get("flags", []) + [
        "-I" + os.path.join(REPO, "lib", "h"), "-I" + os.path.join(HERE, "harness"),
        '-DCE_USER_INCLUDE="' + os.path.join(HERE, "harness", "hooks.h") + '"', '-DKIT_REPO="' + REPO + '"',
        "-I" + os.path.join(REPO, "lib"), "-I" + os.path.join(bdir, "gen"),
        '-DKIT_GEN="' + os.path.join(bdir, "gen") + '"', '-DKIT_HARNESS="' + os.path.join(HERE, "harness") + '"']
    srcs = [os.path.join(HERE, "harness", s) for s in spec["src"]] + [os.path.join(HERE, "harness", "kit.cpp")]
    srcs += [os.path.join(REPO, "lib", s + ".cpp") for s in spec.get("lib", [])]
    must = spec.get("must_build", False)
    # generated units, each with its own flags in its first line
    units = sorted(glob.glob(os.path.join(bdir, "gen", "u_*.cpp")))

    def cc(s):
        o = os.path.join(d, os.path.basename(s).replace(".cpp", ".o"))
        f = list(flags)
        if s in units:
            f += open(s).readline().split()[2:]
        if os.path.basename(s) == "kit.cpp":
            f = [x for x in f if not x.startswith("-DKIT_NO")]
        p = subprocess.run([cxx] + f + ["-c", s, "-o", o], capture_output=True, text=True)
        if p.returncode:
            not_built("does not compile (%s, %s)" % (name, s), p.stdout + p.stderr, d, cxx, must)
        return o

    with cf.ThreadPoolExecutor(4) as ex:
        objs = list(ex.map(cc, units[::2] + srcs + units[1::2]))
    exe = os.path.join(d, "h")
    p = subprocess.run([cxx] + flags + objs + ["-o", exe, "-lpthread"] + spec.get("link", []), capture_output=True, text=True)
    if p.returncode:
        not_built("does not link (%s)" % name, p.stdout + p.stderr, d, cxx, must)
    return exe


def build_wasm(bdir):
    """the library and work.h as WebAssembly modules, for 32 and 64 bit memories, optimized and with UBSan's traps"""
    hw = os.path.join(HERE, "harness", "wasm")
    flags = ["-std=c++17", "-g1", "-fno-rtti", "-fno-exceptions", "-nostdlib", "-ffreestanding", "-fno-math-errno", "-ftemplate-depth=4096"] + BASE_FOR["clang"] + [
        "-I" + os.path.join(REPO, "lib", "h"), "-I" + os.path.join(REPO, "lib"), "-I" + os.path.join(HERE, "harness"), "-I" + hw, '-DCE_USER_INCLUDE="' + os.path.join(hw, "hooks.h") + '"']

    def control(t):
        c = os.path.join(tempfile.mkdtemp(dir=bdir), "c.cpp")
        open(c, "w").write("extern \"C\" int f(int a) { return a * 3; }\n")
        return subprocess.run(["clang++-18", "--target=" + t, "-nostdlib", "-Wl,--no-entry", "-Wl,--export-all", c, "-o", c + ".wasm"], capture_output=True).returncode == 0

    def one(kind):
        t, name, o = kind
        d = os.path.join(bdir, "wasm", t + name)
        os.makedirs(d, exist_ok=True)
        objs = []
        for src in (os.path.join(hw, "run.cpp"), os.path.join(hw, "unit.cpp"), os.path.join(REPO, "lib", "os.cpp"), os.path.join(REPO, "lib", "to_text.cpp")):
            obj = os.path.join(d, os.path.basename(src) + ".o")
            extra = ["-O2", "-fno-builtin"] if src.endswith("run.cpp") else o
            p = subprocess.run(["clang++-18", "--target=" + t] + flags + extra + ["-c", src, "-o", obj], capture_output=True, text=True)
            if p.returncode:
                raise (Unusable if control(t) else NoVerdict)("does not compile for %s (%s):\n%s" % (t, src, (p.stdout + p.stderr)[:6000]))
            objs.append(obj)
        out = os.path.join(bdir, "gen", t + "-" + name + ".wasm")
        p = subprocess.run(["wasm-ld"] + (["-mwasm64"] if t == "wasm64" else []) + ["--no-entry", "--export=__wasm_call_ctors", "--export-memory", "-z", "stack-size=1048576"] + objs + ["-o", out],
                           capture_output=True, text=True)
        if p.returncode:
            raise (Unusable if control(t) else NoVerdict)("does not link for %s:\n%s" % (t, (p.stdout + p.stderr)[:6000]))

    os.makedirs(os.path.join(bdir, "gen"), exist_ok=True)
    kinds = [(t, n, o) for t in ("wasm32", "wasm64") for n, o in (("O2", ["-O2"]), ("trap", ["-O1", "-fsanitize=undefined", "-fsanitize-trap=undefined"]))]
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(one, kinds))


def compile_or_skip(pid, spec, name, bdir):
    try:
        return compile_one(pid, spec, name, bdir)
    except Skipped as e:
        print("  left out: %s" % e)
        return None


def read_progress(path):
    try:
        b = open(path, "rb").read()
        return b[:64].split(b"\0")[0].decode(), int.from_bytes(b[64:72], "little")
    except OSError:
        return "", 0


def classify_crash(rc, out):
    """-> (key, one line of detail) of an abnormal end, or None when it says nothing about the code"""
    m = re.search(r"^(.*runtime error: (.*))$", out, re.M)
    if m:
        what = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(2))
        return "ubsan:" + what[:80].strip(), m.group(1)
    m = re.search(r"ERROR: (AddressSanitizer|MemorySanitizer): ([\w-]+)", out) or re.search(r"WARNING: (ThreadSanitizer|MemorySanitizer): ([\w -]+)", out)
    if m:
        kind = m.group(2).strip()
        s = re.search(r"^SUMMARY: (.*)$", out, re.M)
        if kind in ("out-of-memory", "allocation-size-too-big"):
            kind = "alloc"
        return {"AddressSanitizer": "asan:", "ThreadSanitizer": "tsan:", "MemorySanitizer": "msan:"}[m.group(1)] + kind, s.group(1) if s else m.group(0)
    if rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT, signal.SIGTRAP):
        return "signal:" + signal.Signals(-rc).name, out.strip()[-300:]
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--quick", action="store_true")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--config")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid = a.id
    spec = SPECS[pid]
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = "thorough" if a.thorough or (os.environ.get("VERIF_TIER") == "thorough" and not a.quick) else "quick"
    t0 = time.time()
    bdir = os.path.join(os.environ.get("CE_BUILD", os.path.join(HERE, "build")), pid + ("" if tier == "quick" else "-thorough"))
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    rdir = os.path.join(os.path.dirname(bdir), "replay")
    os.makedirs(rdir, exist_ok=True)

    replay = None
    if a.replay:
        replay = json.load(open(a.replay))
        seed, tier = replay["seed"], replay["tier"]
        spec = dict(spec, runs=[dict(config=replay["config"], shards=1)], thorough=[dict(config=replay["config"], shards=1)])
    runs = spec.get("thorough", spec["runs"]) if tier == "thorough" else spec["runs"]
    runs = [dict(r) for r in runs]
    if a.config:
        runs = [r for r in runs if r["config"] == a.config]

    # ---- build
    generate(pid, spec, seed, tier, bdir)
    names = sorted({r["config"] for r in runs})
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            if spec.get("wasm"):
                build_wasm(bdir)
            exes = dict(zip(names, ex.map(lambda n: compile_or_skip(pid, spec, n, bdir), names)))
    except Unusable as e:
        # the harness uses the public interface only, so programs relying on the property cannot be built either
        path = os.path.join(rdir, "%s-interface.json" % pid)
        json.dump(dict(property=pid, tier=tier, seed=seed, config=names[0], section="", index=0, key="interface", detail="the harness cannot be built any more",
                       output=str(e), how="python3 check.py %s" % pid), open(path, "w"), indent=1)
        print("  [interface] programs using this part cannot be built any more: %s" % str(e)[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1

    # ---- run
    jobs = []
    skipped = sorted(n for n in names if not exes[n])
    runs = [r for r in runs if exes[r["config"]]]
    for r in runs:
        for s in range(r.get("shards", 1)):
            jobs.append((r, s))
    timeout = spec.get("timeout", 300) if tier == "quick" else spec.get("timeout_thorough", 800)
    cpu_limit = spec.get("case_cpu", 40)

    stall = spec.get("stall")
    refuted = []  # once something is, what takes long needs not be looked at

    def job(rs):
        if refuted and time.time() - t0 > 100:
            return dict(run=rs[0], shard=rs[1], rc=0, out="", wall=0, fails=[], result=None)
        try:
            res = attempt(rs)
        except Inconclusive:
            res = attempt(rs)
        if res["fails"]:
            refuted.append(rs)
        return res

    def attempt(rs):
        r, s = rs
        cfg = CONFIGS[r["config"]]
        jd = os.path.join(bdir, "%s-%d-%d" % (r["config"], runs.index(r), s))
        os.makedirs(jd, exist_ok=True)
        base = [exes[r["config"]], "--seed", str(seed), "--scale", str(r.get("scale", 1)), "--out", "result.json", "--progress", "progress"]
        if tier == "thorough":
            base.append("--thorough")
        base += r.get("args", [])
        only = ["--only", "%s:%d" % (replay["section"], replay["index"])] if replay and replay["section"] else []
        shard = [] if only else ["--shard", "%d/%d" % (s, r.get("shards", 1))]
        env = dict(cfg.get("env", {}), **r.get("env", {}))
        t = time.time()
        rc, out = run(base + shard + only + ["--case-cpu", str(cpu_limit)], timeout, jd, env, stall)
        res = dict(run=r, shard=s, rc=rc, out=out, wall=time.time() - t, fails=[], result=None)
        if rc == 0:
            res["result"] = json.load(open(os.path.join(jd, "result.json")))
            for f in res["result"]["failures"]:
                res["fails"].append((f["key"], f["section"], f["index"], f["detail"]))
            return res
        sec, idx = read_progress(os.path.join(jd, "progress"))
        # what had been refuted before the process ended
        for m in re.finditer(r"^KIT-FAIL (\S+?):(\d+) \[(.*?)\] (.*)$", out, re.M):
            res["fails"].append((m.group(3), m.group(1), int(m.group(2)), m.group(4)))
        if rc is None or rc == 77:
            if refuted or res["fails"]:
                return res
            # a hang? decide on the case alone, with more time
            rc2, out2 = run(base + ["--only", "%s:%d" % (sec, idx), "--case-cpu", str(cpu_limit * 2)], max(200, cpu_limit * 4), jd, env, stall and stall * 2)
            if rc2 is None or rc2 == 77:
                res["fails"].append(("hang", sec, idx, "the case did not finish within %d s%s, twice" % (stall or cpu_limit, "" if stall else " of cpu time")))
            elif rc2 != 0 and classify_crash(rc2, out2):
                k, d = classify_crash(rc2, out2)
                res["fails"].append((k, sec, idx, d))
                res["out"] = out2
            elif not res["fails"]:
                raise Inconclusive("%s timed out at %s:%d (rc %s), and the case alone finished: inconclusive" % (r["config"], sec, idx, rc))
            return res
        c = classify_crash(rc, out)
        if c:
            res["fails"].append((c[0], sec, idx, c[1]))
            return res
        if res["fails"]:
            return res
        raise NoVerdict("%s ended with %s at %s:%d:\n%s" % (r["config"], rc, sec, idx, out[-3000:]))

    width = spec.get("width", 8)
    with cf.ThreadPoolExecutor(width) as ex:
        results = list(ex.map(job, jobs))

    # ---- cross configuration agreement
    fails = []
    for r in results:
        for f in r["fails"]:
            fails.append((r["run"]["config"], r["shard"]) + tuple(f) + (r["out"],))
    if spec.get("digest") and not replay:
        groups = {}
        for r in results:
            if r["result"]:
                groups.setdefault((r["run"].get("scale", 1), r["shard"], r["run"].get("shards", 1)), []).append(r)
        for key, g in groups.items():
            ds = {x["result"]["digest"] for x in g}
            if len(ds) > 1 and not fails:
                fails.append((g[0]["run"]["config"], key[1], "digest-differs", "", 0,
                              "the same workload gave different results: " + ", ".join("%s=%s" % (x["run"]["config"], x["result"]["digest"]) for x in g), ""))

    # ---- known findings
    known = {}
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    except OSError:
        pass
    seen_known, violations = {}, {}
    for cfgname, shard, key, sec, idx, detail, out in fails:
        if key in known:
            seen_known[key] = known[key]
        else:
            violations.setdefault(key, (cfgname, shard, sec, idx, detail, out))
    for k, what in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))

    # ---- evidence
    ok = [r for r in results if r["result"]]
    ev = sum(r["result"]["evaluations"] for r in ok)
    per = {}
    for r in ok:
        per.setdefault(json.dumps(r["run"], sort_keys=True), []).append(r["result"]["distinct"])
    distinct = max([sum(v) for v in per.values()] or [0])
    counters, covers, buckets, sections, samples, cfgs = {}, {}, {}, {}, [], {}
    for r in ok:
        for k, v in r["result"]["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r["result"]["covers"].items():
            if isinstance(v, list):
                buckets.setdefault(k, set()).update(v)
                v = len(buckets[k])
            covers[k] = max(covers.get(k, 0), v)
        for k, v in r["result"]["sections"].items():
            sections[k] = sections.get(k, 0) + v
        for s in r["result"]["samples"]:
            if s not in samples and len(samples) < 20:
                samples.append(s)
        c = cfgs.setdefault(r["run"]["config"], dict(runs=0, wall_s=0, flags=" ".join(CONFIGS[r["run"]["config"]]["flags"])))
        c["runs"] += 1
        c["wall_s"] = round(c["wall_s"] + r["wall"], 2)
    evidence = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=ev, distinct_nontrivial=distinct, rule=spec["rule"], samples=samples or ["(none)"],
                      cases_by_section=sections, observed=counters, distinct_observed=covers, configurations=cfgs, configurations_left_out=skipped,
                      known_findings_seen=sorted(seen_known), exhaustive=bool(spec.get("exhaustive", False))),
        assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    if not replay and not os.environ.get("CE_NO_EVIDENCE"):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % pid)
        json.dump(evidence, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))

    for n, (key, (cfgname, shard, sec, idx, detail, out)) in enumerate(sorted(violations.items())):
        path = os.path.join(rdir, "%s-%d.json" % (pid, n))
        json.dump(dict(property=pid, tier=tier, seed=seed, config=cfgname, section=sec, index=idx, key=key, detail=detail,
                       output=out[-6000:], how="python3 check.py %s --replay %s" % (pid, path)), open(path, "w"), indent=1)
        print("  %s: %s:%d [%s] %s" % (cfgname, sec, idx, key, detail[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if violations:
        return 1
    if not replay:
        if ev == 0 or distinct < spec.get("min_distinct", 1):
            raise NoVerdict("observed too little: %d evaluations, %d distinct" % (ev, distinct))
        for k, v in spec.get("require", {}).items():
            if counters.get(k, covers.get(k, 0)) < v:
                raise NoVerdict("observed too little: %s = %d < %d" % (k, counters.get(k, covers.get(k, 0)), v))
    print("%s: held on %d evaluations, %d distinct, %d runs in %s (%.1f s)" % (pid, ev, distinct, len(ok), ", ".join(sorted(cfgs)), time.time() - t0))
    if not a.keep:
        shutil.rmtree(bdir, ignore_errors=True)
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        print("NO VERDICT: %s" % e)
        sys.exit(2)
