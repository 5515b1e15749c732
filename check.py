#!/usr/bin/env python3
"""check.py ID: decides property ID on /repo's current tree.

Builds the harness crates of the property from /repo's working tree, runs them
with VERIF_SEED / VERIF_TIER, merges their reports into evidence/ID.json and
prints a VIOLATION line (exit 1) for every violation that KNOWN_FINDINGS.txt
does not list.  `check.py replay FILE` runs a stored case again.
`check.py setup` builds everything.
"""
import concurrent.futures, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
OUT = os.path.join(HERE, "out")
REPO = "/repo"

# property -> harness crates whose binaries check it
CRATES = {}
for i in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C27"]:
    CRATES[i] = ["h_regex"]
for i in ["C09", "C10", "C14", "C15", "C16", "C17", "C18", "C20", "C23", "C24", "C26"]:
    CRATES[i] = ["h_core"]
CRATES["C25"] = ["h_nolog"]
CRATES["C28"] = ["h_examples", "h_nolog"]
CRATES["C29"] = ["h_bad"]

# properties over generated definitions, which are compiled for every run
GEN = ["C11", "C12", "C13", "C17", "C19", "C20", "C21", "C22"]
for i in GEN:
    CRATES.setdefault(i, [])
ROUNDS = {"quick": 8, "thorough": 60}
CHUNKS = 16

# Crates that have to build for the property to hold, provided that the other
# crate (the library with its default features) does.
MUST_BUILD = {"C25": (["h_bare", "h_nolog"], "h_core")}

ASSUME = {
    "h_core": ["display widths come from the unicode-width crate, as in laps itself"],
    "h_regex": ["the pattern syntax is parsed by the same regex-syntax version as laps uses (its parse is trusted, its meaning is given by an independent position automaton)"],
}


def env():
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e["VERIF_HOME"] = HERE
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTC_WRAPPER", None)
    return e


def source_hash():
    h = hashlib.sha256()
    for base in ["src", "laps_macros", "laps_regex", "examples", "Cargo.toml"]:
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else []
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as g:
                h.update(g.read() + b"\0")
    return h.hexdigest()


def cargo(args, timeout=700):
    return subprocess.run(["cargo"] + args, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def refresh():
    """Cargo decides by modification times, so the packages under test are
    dropped whenever their content changed."""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "source.stamp")
    h = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h:
        if old:
            cargo(["clean", "--offline", "-p", "laps", "-p", "laps_regex", "-p", "laps_macros"])
        with open(stamp, "w") as f:
            f.write(h)


def build_one(c):
    return cargo(["build", "--offline", "--locked", "-q", "-p", c])


def build(crates, optional=False):
    """Builds crates; returns whether all could be built, if optional."""
    refresh()
    for c in crates:
        r = build_one(c)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            if optional:
                return False
            print(f"ERROR: building {c} failed; no verdict")
            sys.exit(4)
    if "h_bad" in crates:
        # it compiles definitions against the library
        os.environ["LAPS_RLIB"] = library("h_bad")
        os.environ["LAPS_DEPS"] = os.path.join(TARGET, "debug", "deps")
    return True


def library(c):
    """The library file of laps that a crate was built with."""
    r = cargo(["build", "--offline", "--locked", "-q", "-p", c, "--message-format=json"])
    for line in r.stdout.splitlines():
        m = json.loads(line) if line.startswith("{") else {}
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "laps":
            return next(f for f in m["filenames"] if f.endswith(".rlib"))
    print("ERROR: no library of laps; no verdict")
    sys.exit(4)


def build_failure(pid):
    """The property says that these crates build: returns a failure if one
    does not although the library with its default features does."""
    if pid not in MUST_BUILD:
        return None
    refresh()
    crates, other = MUST_BUILD[pid]
    for c in crates:
        r = build_one(c)
        if r.returncode != 0 and "error" in r.stdout and build_one(other).returncode == 0:
            return {"crate": c, "sub": "builds", "index": 0, "message": f"{c} does not build although {other} does", "case": [r.stdout[-4000:]], "build": c}
    return None


def artifacts():
    """Builds h_gen; returns its program, and the libraries of h_gen and laps."""
    refresh()
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "-p", "h_gen", "--message-format=json"], cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
    libs, exe = {}, None
    for line in r.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            print(m["message"].get("rendered", "")[:2000])
        if m.get("reason") == "compiler-artifact":
            if m["target"]["name"] in ("h_gen", "laps", "pbt") and "lib" in m["target"]["kind"]:
                libs[m["target"]["name"]] = next(f for f in m["filenames"] if f.endswith(".rlib"))
            if m["executable"]:
                exe = m["executable"]
    if r.returncode != 0 or len(libs) != 3 or not exe:
        print("ERROR: building h_gen failed; no verdict")
        sys.exit(4)
    return exe, libs


def generate(pid, seed, rnd, tier):
    """Writes and compiles the definitions of a round.  Returns the program,
    or a failure if a definition does not compile."""
    exe, libs = artifacts()
    d = os.path.join(OUT, "gen", pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    r = subprocess.run([exe, pid, str(seed), str(rnd), tier, d, str(CHUNKS)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    if r.returncode != 0:
        print(r.stdout[-3000:])
        print("ERROR: generating definitions failed; no verdict")
        sys.exit(4)
    common = ["rustc", "--edition", "2021", "-C", "debuginfo=0", "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-C", "codegen-units=4", "-L", "dependency=" + os.path.join(TARGET, "debug", "deps"), "--cap-lints", "allow"]
    for n, f in libs.items():
        common += ["--extern", f"{n}={f}"]
    t0 = time.time()

    def limited():
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

    def compile_chunk(k):
        cmd = common + ["--crate-type", "rlib", "--crate-name", f"g{k}", "--error-format=json", "-o", os.path.join(d, f"libg{k}.rlib"), os.path.join(d, f"g{k}", "lib.rs")]
        r = subprocess.run(cmd, cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=500, preexec_fn=limited)
        return r.returncode, r.stdout

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(compile_chunk, range(CHUNKS)))
    bad = {}
    for k, (code, text) in enumerate(results):
        if code == 0:
            continue
        for line in text.splitlines():
            m = json.loads(line) if line.startswith("{") else {}
            if m.get("level") != "error":
                continue
            for sp in m.get("spans", []):
                f = re.search(r"/d(\d+)\.rs$", sp["file_name"])
                if f:
                    bad.setdefault(int(f.group(1)), (k, m.get("rendered") or m["message"]))
                    break
        if not any(b[0] == k for b in bad.values()):
            print(text[-3000:])
            print("ERROR: compiling generated definitions failed; no verdict")
            sys.exit(4)
    if bad:
        i = min(bad)
        k, text = bad[i]
        source = open(os.path.join(d, f"g{k}", f"d{i}.rs")).read().split("// driver")[0]
        return None, {"property": pid, "sub": "definitions compile", "index": i, "message": f"a definition does not compile: {text[:1500]}", "case": [source], "choices": [], "crate": "h_gen", "gen": [pid, seed, rnd, tier], "failed": i}
    cmd = common + ["-o", os.path.join(d, "run"), os.path.join(d, "main.rs")]
    for k in range(CHUNKS):
        cmd += ["--extern", f"g{k}=" + os.path.join(d, f"libg{k}.rlib")]
    r = subprocess.run(cmd, cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    if r.returncode != 0:
        print(r.stdout[-3000:])
        print("ERROR: linking generated definitions failed; no verdict")
        sys.exit(4)
    print(f"compiled the definitions of round {rnd} in {time.time() - t0:.1f} s", flush=True)
    return os.path.join(d, "run"), None


def known(pid):
    """Listed findings of a property: (label of the cases that show it, text).
    The harness labels a case so if the code behaves exactly as the reference
    with that defect built into it."""
    v = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) label=/(.*?)/ (.*)$", line.strip())
            if m and m.group(1) == pid:
                v.append((m.group(2), m.group(3)))
    return v


def merge(subs, new):
    """Adds counts of further rounds of the same generators."""
    for n in new:
        o = next((s for s in subs if s["name"] == n["name"]), None)
        if not o:
            subs.append(n)
            continue
        for k in ("evaluations", "nontrivial", "distinct_nontrivial", "checks", "wall_s"):
            o[k] += n[k]
        for l, v in n["labels"].items():
            o["labels"][l] = o["labels"].get(l, 0) + v


def run(pid):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for x in glob.glob(os.path.join(OUT, f"{pid}.*.replay.json")):
        os.unlink(x)
    crates = CRATES.get(pid, [])
    subs, failures = [], []
    bad = build_failure(pid)
    if bad:
        failures.append(bad)
        crates = []
        subs.append({"name": "builds", "rule": "the library builds with these features", "evaluations": 1, "nontrivial": 1, "distinct_nontrivial": 1, "checks": 1, "labels": {}, "samples": bad["case"], "wall_s": 0})
    # The checks over generated definitions also go on without the other
    # harness, but cannot pass then.
    complete = build(crates, pid in GEN)
    if not complete:
        crates = []
    built = time.time() - t0
    limit = 690 if tier == "quick" else 6 * 3600

    def execute(exe, c, args, gen):
        report = os.path.join(OUT, f"{pid}.{c}.json")
        left = limit if tier == "thorough" else max(60, int(limit - (time.time() - t0)))
        cmd = [exe, "run", pid, "--tier", tier, "--report", report, "--limit", str(left)] + args
        e = env()
        e["VERIF_OUT"] = OUT
        r = subprocess.run(cmd, cwd=HERE, env=e)
        for x in glob.glob(os.path.join(OUT, "scratch.*")):
            shutil.rmtree(x, ignore_errors=True)
        if r.returncode != 0 or not os.path.exists(report):
            print(f"ERROR: {c} ended with {r.returncode}; no verdict")
            sys.exit(4)
        rep = json.load(open(report))
        merge(subs, rep["subs"])
        if rep["failure"]:
            rep["failure"]["crate"] = c
            if gen:
                rep["failure"]["gen"] = gen
            failures.append(rep["failure"])
            if not rep["subs"]:
                merge(subs, [{"name": rep["failure"]["sub"], "rule": "(the harness process crashed before it could report counts)", "evaluations": rep["failure"]["index"] + 1, "nontrivial": 0, "distinct_nontrivial": 0, "checks": 0, "labels": {}, "samples": rep["failure"]["case"] or ["crashed case"], "wall_s": 0}])

    for c in crates:
        execute(os.path.join(TARGET, "debug", c), c, ["--seed", str(seed)], None)
    if pid in GEN:
        crates = crates + ["h_gen"]
        for rnd in range(ROUNDS[tier]):
            tb = time.time()
            exe, bad = generate(pid, seed, rnd, tier)
            built += time.time() - tb
            if bad:
                failures.append(bad)
                merge(subs, [{"name": bad["sub"], "rule": "generated definitions compile", "evaluations": 1, "nontrivial": 1, "distinct_nontrivial": 1, "checks": 1, "labels": {}, "samples": bad["case"], "wall_s": 0}])
            else:
                execute(exe, "h_gen", ["--seed", str(seed * 1000 + rnd)], [pid, seed, rnd, tier])
            shutil.rmtree(os.path.join(OUT, "gen", pid), ignore_errors=True)
            if failures:
                break
    findings = []
    for label, text in known(pid):
        n = sum(s["labels"].get("known: " + label, 0) for s in subs)
        if n:
            print(f"KNOWN-FINDING: property={pid} {text} ({n} cases)")
            findings.append(text)
    violations = failures
    cov = {
        "evaluations": sum(s["evaluations"] for s in subs),
        "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in subs),
        "rule": " | ".join(f"[{s['name']}] {s['rule']}" for s in subs),
        "samples": [f"[{s['name']}] {x}" for s in subs for x in s["samples"][:2]] or ["none"],
        "oracle_comparisons": sum(s["checks"] for s in subs),
        "by_generator": {s["name"]: {k: s[k] for k in ("evaluations", "nontrivial", "distinct_nontrivial", "labels", "wall_s")} for s in subs},
        "build_s": round(built, 1),
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": [a for c in crates for a in ASSUME.get(c, [])],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    if findings:
        ev["known_findings"] = findings
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for i, f in enumerate(violations):
        path = os.path.join(OUT, f"{pid}.{i}.replay.json")
        with open(path, "w") as g:
            json.dump(f, g, ensure_ascii=False)
        print(f"violated ({f['sub']}): {f['message'][:2000]}")
        for n in f["case"]:
            print(f"  case: {n[:2000]}")
        print(f"VIOLATION property={pid} replay={path}")
    if not violations and not complete:
        print("ERROR: building a harness failed; no verdict")
        return 4
    if not violations:
        print(f"{pid}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct non-trivial) in {ev['wall_s']} s")
    return 1 if violations else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        build(sorted({c for v in CRATES.values() for c in v} | {c for v, _ in MUST_BUILD.values() for c in v} | {"h_gen"}))
        return 0
    if a[:1] == ["replay"]:
        f = json.load(open(a[1]))
        if "build" in f:
            refresh()
            r = build_one(f["build"])
            print(r.stdout[-4000:])
            return 1 if r.returncode else 0
        if "gen" in f:
            exe, bad = generate(*f["gen"])
            if bad:
                print(bad["message"])
                return 1
            r = subprocess.run([exe, "replay", a[1]], cwd=HERE, env=env()).returncode
            shutil.rmtree(os.path.join(OUT, "gen", f["gen"][0]), ignore_errors=True)
            return r
        build([f["crate"]])
        return subprocess.run([os.path.join(TARGET, "debug", f["crate"]), "replay", a[1]], cwd=HERE, env=env()).returncode
    return run(a[0])


try:
    sys.exit(main())
except subprocess.TimeoutExpired as e:
    print(f"ERROR: {e}; no verdict")
    sys.exit(4)
