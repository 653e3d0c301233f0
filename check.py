#!/usr/bin/env python3
"""check.py ID            run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
check.py setup         build every area once (warms the build cache)
check.py replay FILE   re-run one stored replay
check.py all           run every check of MANIFEST.json, print a table
"""
import array, base64, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.23.12"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from areas import NOFUZZ, CHECKS, PROGRAMS          # noqa: E402

CRASH = [
    ("data race", re.compile(r"^WARNING: DATA RACE", re.M)),
    ("stuck case", re.compile(r"^VERIF-STUCK: ", re.M)),
    ("deadlock", re.compile(r"^fatal error: all goroutines are asleep", re.M)),
    ("fatal error", re.compile(r"^fatal error: (concurrent map|stack overflow|sync: |index out|slice bounds)", re.M)),
    ("stack overflow", re.compile(r"goroutine stack exceeds .*-byte limit")),
    ("segfault", re.compile(r"\[signal SIG(SEGV|BUS|FPE)")),
    ("panic", re.compile(r"^panic: ", re.M)),
]

FUZZ_SECONDS = int(os.environ.get("VERIF_FUZZTIME", "60"))    # per target; thorough tier only

def env(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("RAPID_") or k in ("GOFLAGS", "GODEBUG", "GORACE", "GOROOT"):
            del e[k]
    e.update(PATH=GOROOT + "/bin:" + e.get("PATH", ""), HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod",
             GOPROXY="off", GOSUMDB="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"), GOTRACEBACK="single", TZ="UTC", LC_ALL="C")
    e.update(extra or {})
    return e

def prepare(work):
    """writes go.mod copy and overlay into the scratch directory"""
    mod = open(os.path.join(REPO, "go.mod")).read()
    mod = mod.replace("require (", "require pgregory.net/rapid v1.3.0\n\nrequire (", 1)
    mod = re.sub(r"(?m)^go 1\.22\.0.*$", "go 1.23", mod)
    mod = re.sub(r"(?m)^toolchain.*\n", "", mod)
    mod = "".join(l for l in mod.splitlines(True)
                  if not re.search(r"zaphandler|svcrunner|snqk\.dev", l))
    open(os.path.join(work, "gomod.mod"), "w").write(mod)
    s = open(os.path.join(REPO, "go.sum")).read()
    s += ("pgregory.net/rapid v1.3.0 h1:vBvO0VSqti75J1jjYqpgPNBLKMd1+gxa9fYo7vk/Exc=\n"
          "pgregory.net/rapid v1.3.0/go.mod h1:dPlE4OBBxgXPqkP79flB6sJL1dx5azpI7HQ9MY9Z7uk=\n")
    open(os.path.join(work, "gomod.sum"), "w").write(s)
    repl = {}
    for root, _, files in os.walk(os.path.join(VERIF, "harness")):
        for f in files:
            if f.endswith(".go"):
                src = os.path.join(root, f)
                rel = os.path.relpath(src, os.path.join(VERIF, "harness"))
                if rel.startswith("stubs/"):
                    # stub/<pkg path>/creator.go replaces a creator whose module is not available here
                    repl[os.path.join(REPO, rel[len("stubs/"):])] = src
                else:
                    repl[os.path.join(REPO, "internal/zzverif", rel)] = src
    json.dump({"Replace": repl}, open(os.path.join(work, "overlay.json"), "w"))

def build(work, area, race):
    """compiles the test binary of an area from the working tree"""
    out = os.path.join(work, area + (".race" if race else "") + ".test")
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", os.path.join(work, "overlay.json"),
           "-modfile", os.path.join(work, "gomod.mod"), "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./internal/zzverif/" + area)
    r = subprocess.run(cmd, cwd=REPO, env=env({"CGO_ENABLED": "1"} if race else None),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0 or not os.path.exists(out):
        raise SystemExit(fail2("build of %s failed:\n%s" % (area, r.stdout[-8000:])))
    return out

def fuzz_tests(area, prop):
    """-> {test: whether it takes a whole text} for the tests of a property that Fuzz can drive"""
    out, pkg = {}, area
    for path in sorted(glob.glob(os.path.join(VERIF, "harness", area, "*_test.go"))):
        src = open(path).read()
        pkg = re.search(r"^package (\w+)", src, re.M).group(1)
        for m in re.finditer(r"^func (Test%s_\w+)\(t \*testing\.T\) \{\n((?:(?!\}\n).*\n)*)" % prop, src, re.M):
            if re.search(r"^\t(kit\.Check|checks)\(", m.group(2), re.M) and not re.search(NOFUZZ, m.group(1)):
                out[m.group(1)] = "kit.Given(" in m.group(2)
    return pkg, out

def build_fuzz(work, area, prop):
    """compiles an area with the fuzz target, instrumented for coverage guidance"""
    pkg, tests = fuzz_tests(area, prop)
    src = os.path.join(work, area + "_fuzz_test.go")
    with open(src, "w") as f:
        f.write('package %s\n\nimport (\n"testing"\n\n"github.com/madkins23/go-slog/internal/zzverif/kit"\n)\n\n'
                'func FuzzCases(f *testing.F) { kit.Fuzz(f, map[string]func(*testing.T){%s}) }\n'
                % (pkg, "".join('"%s": %s, ' % (t, t) for t in sorted(tests))))
    overlay = json.load(open(os.path.join(work, "overlay.json")))
    overlay["Replace"][os.path.join(REPO, "internal/zzverif", area, "zz_fuzz_test.go")] = src
    of = os.path.join(work, area + "_fuzz.json")
    json.dump(overlay, open(of, "w"))
    out = os.path.join(work, area + ".fuzz.test")
    r = subprocess.run(["go", "test", "-c", "-vet=off", "-fuzz=FuzzCases", "-overlay", of, "-modfile", os.path.join(work, "gomod.mod"),
                        "-o", out, "./internal/zzverif/" + area], cwd=REPO, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0 or not os.path.exists(out):
        raise SystemExit(fail2("build of %s for fuzzing failed:\n%s" % (area, r.stdout[-8000:])))
    return out, tests

def run_fuzz(work, binary, test, raw, seed, seconds, given=None):
    """fuzzes one test for some seconds, or runs it on a given input"""
    cwd = tempfile.mkdtemp(prefix="fuzz-", dir=work)
    corpus = os.path.join(cwd, "testdata", "fuzz", "FuzzCases")
    e = env({"VERIF_SEED": str(seed), "VERIF_TIER": "thorough", "VERIF_OUT": cwd, "VERIF_BIN": work, "VERIF_REPO": REPO,
             "TMPDIR": cwd, "VERIF_FUZZ": test, "VERIF_FUZZRAW": "1" if raw else ""})
    def run(args):
        p = subprocess.run([binary, "-test.timeout=0"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    r = dict(test=test + ("/text" if raw else "/choices"), name=test, raw=raw, given=None, text="", cases=0, seen=set(), execs=0, interesting=0)
    if given is None:
        rc, r["text"] = run(["-test.run=^$", "-test.fuzz=^FuzzCases$", "-test.fuzztime=%ds" % seconds, "-test.fuzzminimizetime=200x",
                             "-test.fuzzcachedir=" + os.path.join(cwd, "cache"), "-test.parallel=" + os.environ.get("VERIF_JOBS", "8")])
        for m in re.finditer(r"execs: (\d+) .*new interesting: (\d+)", r["text"]):
            r["execs"], r["interesting"] = int(m.group(1)), int(m.group(2))
        for f in glob.glob(os.path.join(cwd, "fuzz.*.seen")):
            keys = array.array("Q")
            b = open(f, "rb").read()
            keys.frombytes(b[:len(b) // 8 * 8])
            r["cases"] += len(keys)
            r["seen"].update(k for k in keys if k & 1)
        bad = glob.glob(os.path.join(corpus, "*"))
        first = re.search(r"failure while testing seed corpus entry: FuzzCases/(seed#\d+)", r["text"])
        if rc == 0:
            r["verdict"], r["why"] = "ok", ""
        elif first and "VERIF-HARNESS-ERROR" not in r["text"]:
            given = first.group(1)
            r["fuzzlog"] = r["text"][-4000:]
        elif "VERIF-HARNESS-ERROR" in r["text"] or not bad:
            r["verdict"], r["why"] = "error", "the fuzzer ended with %d" % rc
        else:
            given = open(bad[0]).read()
            shutil.rmtree(corpus)
            r["fuzzlog"] = r["text"][-4000:]
    if given is not None:
        name = given
        if not given.startswith("seed#"):
            os.makedirs(corpus)
            open(os.path.join(corpus, "given"), "w").write(given)
            name = "given"
        rc, r["text"] = run(["-test.run=^FuzzCases$/^%s$" % name, "-test.v"])
        r["given"] = given
        if rc == 0:
            r["verdict"], r["why"] = "error" if "fuzzlog" in r else "ok", "the failing input does not fail again"
        elif "VERIF-HARNESS-ERROR" in r["text"]:
            r["verdict"], r["why"] = "error", "the harness reported an error of its own"
        else:
            m = re.search(r"\[rapid\] (failed|panic|flaky)[^\n]*|VERIF-STUCK[^\n]*|^panic: [^\n]*", r["text"], re.M)
            r["verdict"], r["why"] = "violation", m.group(0) if m else "the fuzzed case fails"
    shutil.rmtree(cwd, ignore_errors=True)
    return r

def build_program(work, name):
    """compiles one of the repository's commands; NAME.race is built with the race detector"""
    base, _, race = name.partition(".")
    cmd = ["go", "build", "-overlay", os.path.join(work, "overlay.json"), "-modfile",
           os.path.join(work, "gomod.mod"), "-o", os.path.join(work, name)]
    if race:
        cmd.append("-race")
    r = subprocess.run(cmd + [PROGRAMS[base]], cwd=REPO, env=env({"CGO_ENABLED": "1"} if race else None),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise SystemExit(fail2("build of %s failed:\n%s" % (name, r.stdout[-8000:])))

def fail2(msg):
    print("ERROR " + msg, flush=True)
    return 2

def run_test(work, binary, test, tier, seed, race, extra_env=None, args=(), shard="0/1"):
    """runs one test function in its own process and directory"""
    tag = re.sub(r"\W", "_", test) + ("_race" if race else "") + "_" + shard.split("/")[0]
    cwd = os.path.join(work, "run_" + tag)
    os.makedirs(cwd)
    e = env({"VERIF_SEED": str(seed), "VERIF_TIER": tier, "VERIF_OUT": cwd, "VERIF_BIN": work,
             "VERIF_REPO": REPO, "TMPDIR": cwd, "VERIF_SHARD": shard, "VERIF_SPLIT": "1" if CHECKS[re.match("Test([^_]*)", test).group(1)].get("split") else ""})
    if race:
        e["GORACE"] = "halt_on_error=1 exitcode=66"
    e.update(extra_env or {})
    t0 = time.time()
    log = os.path.join(cwd, "output.log")
    with open(log, "wb") as f:
        p = subprocess.run([binary, "-test.run", "^%s$" % test, "-test.timeout=0", "-test.v"] + list(args),
                           cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT)
    text = open(log, "rb").read().decode("utf-8", "replace")
    res = None
    rf = os.path.join(cwd, test + ".result.json")
    if os.path.exists(rf):
        try:
            res = json.load(open(rf))
        except ValueError:
            res = None
    fails = glob.glob(os.path.join(cwd, "testdata", "rapid", "*", "*.fail"))
    seen = array.array("Q")
    sf = os.path.join(cwd, test + ".seen")
    if os.path.exists(sf):
        seen.frombytes(open(sf, "rb").read())
    return dict(test=test, race=race, shard=shard, seen=seen, rc=p.returncode, text=text, res=res, wall=time.time() - t0,
                failfile=open(fails[0], errors="surrogateescape", newline="").read() if fails else None)

def judge(r):
    """-> (verdict, reason): ok, violation or error"""
    text = r["text"]
    if r["rc"] == 0 and r["res"] and r["res"]["done"] and not r["res"]["failed"]:
        return "ok", ""
    if "VERIF-HARNESS-ERROR" in text:
        return "error", "the harness reported an error of its own"
    if r["res"] is None:
        return "error", "the test did not start (exit %s)" % r["rc"]
    if r["res"]["done"] and r["res"]["failed"]:
        if "[rapid] only generated" in text and "[rapid] failed" not in text:
            return "error", "too few valid cases"
        m = re.search(r"\[rapid\] (failed|panic|flaky)[^\n]*|\[enum case[^\n]*", text)
        return "violation", m.group(0) if m else "test failed"
    for name, rx in CRASH:
        m = rx.search(text)
        if m:
            return "violation", name + ": " + text[m.start():m.start() + 300].replace("\n", " | ")
    return "error", "the test process ended with %s" % r["rc"]

def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, errors="replace"):
            m = re.match(r"known: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out

def main_check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = CHECKS[prop]
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        prepare(work)
        jobs = []
        for name in spec.get("programs", []):
            build_program(work, name)
        for area, race in spec["runs"]:
            binary = build(work, area, race)
            l = subprocess.run([binary, "-test.list", "^Test%s_" % prop], cwd=work, env=env(),
                               stdout=subprocess.PIPE, text=True, errors="replace")
            tests = [x for x in l.stdout.split() if x.startswith("Test")]
            if l.returncode != 0 or not tests:
                return fail2("no tests for %s in %s" % (prop, area))
            shards = 1 if race else spec.get("shards", 4)
            jobs += [(binary, t, race, "%d/%d" % (i, shards)) for i in range(shards) for t in tests]
        with ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            results = list(ex.map(lambda j: run_test(work, j[0], j[1], tier, seed, j[2], shard=j[3]), jobs))
        fuzzed = []
        if tier == "thorough" and FUZZ_SECONDS > 0:
            for area in sorted({a for a, _ in spec["runs"]}):
                if fuzz_tests(area, prop)[1]:
                    binary, tests = build_fuzz(work, area, prop)
                    for t, text in sorted(tests.items()):
                        for raw in (False, True)[:1 + text]:
                            fuzzed.append((area, run_fuzz(work, binary, t, raw, seed, FUZZ_SECONDS)))
        violations, errors = [], []
        for r in results:
            verdict, why = judge(r)
            if verdict == "violation":
                violations.append((r, why))
            elif verdict == "error":
                errors.append((r, why))
        cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], tests={}, classes={})
        rules, seen = [], {}
        for r in results:
            res = r["res"]
            if not res:
                continue
            name = r["test"] + ("/race" if r["race"] else "")
            cov["evaluations"] += res["evaluations"]
            seen.setdefault(name, set()).update(r["seen"])
            one = cov["tests"].setdefault(name, dict(evaluations=0, processes=0, seeds=[], classes={}, wall_s=0))
            if not one["processes"]:
                rules.append("%s: %s" % (r["test"], res["rule"]))
                cov["samples"] += [r["test"] + ": " + s for s in res["samples"][-3:]]
            one["processes"] += 1
            one["evaluations"] += res["evaluations"]
            one["seeds"].append(res["seed"])
            for k, v in res["classes"].items():
                one["classes"][k] = one["classes"].get(k, 0) + v
            one["wall_s"] = round(max(one["wall_s"], r["wall"]), 2)
        for _, r in fuzzed:
            cov["evaluations"] += r["cases"]
            cov["distinct_nontrivial"] += len(r["seen"])
            cov["tests"][r["test"] + "/fuzz"] = dict(evaluations=r["cases"], distinct_nontrivial=len(r["seen"]), seconds=FUZZ_SECONDS,
                                                     executions=r["execs"], inputs_with_new_coverage=r["interesting"])
        if fuzzed:
            rules.append("/fuzz: the same cases, found by coverage-guided mutation of the generators' choices or of the whole text; the same rules")
        for name, keys in seen.items():
            cov["tests"][name]["distinct_nontrivial"] = len(keys)
            cov["distinct_nontrivial"] += len(keys)
        del cov["classes"]
        cov["rule"] = " || ".join(rules)
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
                  wall_s=round(time.time() - t0, 2), violations=len(violations),
                  assumptions=spec.get("assumptions", []))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        for k in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        firsts = {}     # one replay per test is enough, preferably one with a shrunk case
        for r, why in sorted(violations, key=lambda v: v[0]["failfile"] is None):
            firsts.setdefault((r["test"], r["race"]), (r, why))
        for r, why in firsts.values():
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            h = hashlib.sha1((r["failfile"] or r["text"][-4000:]).encode(errors="surrogateescape")).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (prop, r["test"], h))
            m = re.search(r"VERIF_ENUM_ONLY=(\d+)", r["text"])
            json.dump(dict(property=prop, test=r["test"], race=r["race"], shard=r["shard"], tier=tier, seed=seed, why=why,
                           area=next(a for a, rc in spec["runs"] if rc == r["race"]), failfile=r["failfile"],
                           enum_only=m.group(1) if m else None, output=r["text"][-20000:]), open(path, "w"), indent=1)
            tail = r["text"].strip().splitlines()
            print("--- %s: %s" % (r["test"], why[:2000]))
            print("\n".join(x[:600] for x in tail[-25:]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        for area, r in fuzzed:
            if r["verdict"] == "error":
                errors.append((r, r["why"]))
            elif r["verdict"] == "violation":
                violations.append((r, r["why"]))
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                path = os.path.join(VERIF, "replays", "%s-%s-fuzz-%s.json" % (prop, r["name"], hashlib.sha1(r["given"].encode()).hexdigest()[:10]))
                json.dump(dict(property=prop, test=r["name"], fuzz=True, raw=r["raw"], tier=tier, seed=seed, why=r["why"], area=area,
                               given=r["given"], output=r["text"][-20000:]), open(path, "w"), indent=1)
                print("--- %s: %s" % (r["test"], r["why"][:2000]))
                print("\n".join(x[:600] for x in r["text"].strip().splitlines()[-25:]))
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        for r, why in errors:
            print("--- %s: %s" % (r["test"], why[:2000]))
            print("\n".join(r["text"].strip().splitlines()[-30:]))
        if violations:
            return 1
        if errors:
            return fail2("%s: %d tests gave no answer" % (prop, len(errors)))
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
            prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
        return 0
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)

def main_replay(path):
    rp = json.load(open(path))
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        prepare(work)
        spec = CHECKS[rp["property"]]
        for name in spec.get("programs", []):
            build_program(work, name)
        if rp.get("fuzz"):
            binary, _ = build_fuzz(work, rp["area"], rp["property"])
            r = run_fuzz(work, binary, rp["test"], rp["raw"], rp["seed"], 0, rp["given"])
            print(r["text"][-6000:])
            print("replay: %s %s" % (r["verdict"], r["why"]))
            if r["verdict"] == "violation":
                print("VIOLATION property=%s replay=%s" % (rp["property"], path))
            return {"violation": 1, "ok": 0}.get(r["verdict"], 2)
        for area, race in spec["runs"]:
            if race != rp["race"]:
                continue
            binary = build(work, area, race)
            l = subprocess.run([binary, "-test.list", "^%s$" % rp["test"]], cwd=work, env=env(), stdout=subprocess.PIPE, text=True, errors="replace")
            if rp["test"] not in l.stdout.split():
                continue
            args, extra = [], {}
            if rp.get("failfile"):
                ff = os.path.join(work, "replay.fail")
                open(ff, "w", errors="surrogateescape", newline="").write(rp["failfile"])
                args = ["-rapid.failfile=" + ff, "-rapid.nofailfile"]
                extra["VERIF_REPLAY"] = "1"
            if rp.get("enum_only"):
                extra["VERIF_ENUM_ONLY"] = rp["enum_only"]
            r = run_test(work, binary, rp["test"], rp["tier"], rp["seed"], race, extra, args, rp.get("shard", "0/1"))
            verdict, why = judge(r)
            print(r["text"][-6000:])
            print("replay: %s %s" % (verdict, why))
            if verdict == "violation":
                print("VIOLATION property=%s replay=%s" % (rp["property"], path))
                return 1
            return 0 if verdict == "ok" else 2
        return fail2("test %s not found" % rp["test"])
    finally:
        shutil.rmtree(work, ignore_errors=True)

def main_setup():
    work = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        prepare(work)
        todo = sorted({(a, r) for s in CHECKS.values() for a, r in s["runs"]})
        for a, r in todo:
            t0 = time.time()
            build(work, a, r)
            print("built %s race=%s %.1fs" % (a, r, time.time() - t0), flush=True)
        for name in sorted({n for s in CHECKS.values() for n in s.get("programs", [])}):
            t0 = time.time()
            build_program(work, name)
            print("built %s %.1fs" % (name, time.time() - t0), flush=True)
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def main_all(ids):
    bad = 0
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    for c in man["checks"]:
        if ids and c["property"] not in ids:
            continue
        r = subprocess.run([sys.executable, __file__, c["property"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        lines = r.stdout.strip().splitlines()
        print("%s rc=%d %s" % (c["property"], r.returncode, lines[-1][:200] if lines else ""), flush=True)
        bad += r.returncode != 0
    return 1 if bad else 0

if __name__ == "__main__":
    a = sys.argv[1:]
    for stream in (sys.stdout, sys.stderr):
        stream.reconfigure(errors="backslashreplace")
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == "setup":
        sys.exit(main_setup())
    if a[0] == "replay":
        sys.exit(main_replay(a[1]))
    if a[0] == "all":
        sys.exit(main_all(a[1:]))
    try:
        rc = main_check(a[0])
    except Exception:
        # A failure of this program is no answer, not a violation.
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
