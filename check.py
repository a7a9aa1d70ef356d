#!/usr/bin/env python3
"""Decide one property of /repo's current source by static analysis.

usage: check.py PROPERTY        (tier from VERIF_TIER, default quick)
       check.py --setup         (build the analyzer and the dependencies)
"""
import signal
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
ANALYZER = os.path.join(TARGET, "analyzer", "debug", "kemcheck")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks_meta import CHECKS, CONFIGS, TRUST  # noqa: E402

REPO_CRATES = ["kemharness", "ml-kem", "ml_kem", "x-wing", "x_wing", "dhkem"]


def env():
    e = dict(os.environ)
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def die(msg, out=""):
    print(msg)
    if out:
        print(out[-6000:])
    sys.exit(2)


def build_analyzer():
    r = subprocess.run(
        ["cargo", "+nightly", "build", "--offline", "--target-dir", os.path.join(TARGET, "analyzer")],
        cwd=os.path.join(HERE, "analyzer"), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(ANALYZER):
        die("the analyzer does not build", r.stdout)


def forget(target):
    """make cargo look at /repo's files again, whatever their time stamps"""
    for d in glob.glob(os.path.join(target, "debug")) + glob.glob(os.path.join(target, "*", "debug")):
        for c in REPO_CRATES:
            for p in glob.glob(os.path.join(d, ".fingerprint", c + "-*")) + [os.path.join(d, "build", c)]:
                shutil.rmtree(p, ignore_errors=True)


# seconds the analyses of one configuration may take; what is not decided by then is reported as such
BUDGET = 780
LATE = []
# seconds a run may take in all; violations found by then are reported
LIMIT = 840
START = time.time()


def analyse(prop, crate, out):
    """one build of a harness crate under the analyzer; `@name` is the harness in a configuration"""
    e = env()
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, text=True).stdout.strip()
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
    e["RUST_MIN_STACK"] = "4000000000"
    e["RUSTFLAGS"] = "-Zalways-encode-mir"
    e["RUSTC_WORKSPACE_WRAPPER"] = ANALYZER
    e["CARGO_INCREMENTAL"] = "0"
    e["KEMCHECK_PROP"] = prop
    e["KEMCHECK_OUT"] = out
    e["KEMCHECK_TIER"] = os.environ.get("VERIF_TIER", "quick")
    e["KEMCHECK_VARIANT"] = os.path.basename(crate)
    e.pop("KEMCHECK_PARTIAL", None)
    cmd = ["cargo", "+nightly", "check", "--offline"]
    target = os.path.join(TARGET, crate.split("/")[0])
    c = None
    if crate.startswith("@"):
        c = CONFIGS[crate[1:]]
        target = os.path.join(TARGET, "configs", crate[1:])
        crate = "harness"
        e["KEMCHECK_PARTIAL"] = "1"
        e["KEMCHECK_BUDGET"] = str(BUDGET)
        e["KEMCHECK_JOBS"] = str(c.get("jobs", 8))
        if c.get("release"):
            e["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
            e["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "false"
        cmd += ["--no-default-features", "--features", c["features"]]
        if c.get("target"):
            cmd += ["-Zbuild-std=core,alloc", "--target", c["target"]]
    forget(target)
    p = subprocess.Popen(cmd + ["--target-dir", target], start_new_session=True,
                         cwd=os.path.join(HERE, crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        log, _ = p.communicate(timeout=None if c else max(60, LIMIT - (time.time() - START)))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        log, _ = p.communicate()
        log += f"\nnot finished after {LIMIT} s"
    if os.path.exists(out + ".found"):
        if not os.path.exists(out):
            os.replace(out + ".found", out)
        else:
            os.remove(out + ".found")
    return subprocess.CompletedProcess(cmd, p.returncode, log)


def does_not_build(prop, crate, log):
    """the repository compiles with all features but not in this configuration"""
    out = os.path.join(TARGET, f"{prop}.build.json")
    r = analyse("none", "harness", out)
    errors = re.findall(r"^error.*(?:\n(?!error).*){0,8}", log, re.M)
    if r.returncode != 0 or not errors:
        die(f"{prop}: no analysis result; does /repo build?", log)
    text = f"the repository builds with every feature, but not as {crate.lstrip('@')}:\n" + "\n".join(errors)[:3000]
    return {"violations": [{"key": f"{prop}:build:{os.path.basename(crate)}", "text": text}], "obligations": 1, "discharged": 0,
            "counts": {}, "functions": [], "roots": [], "samples": []}


def configuration(prop, name):
    """the reports of every property decided in one configuration"""
    c = CONFIGS[name[1:]]
    props = list(c["props"])
    tmp = tempfile.mkdtemp(prefix="kemcheck.")
    try:
        out = os.path.join(tmp, "out")
        r = analyse("+".join(props), name, out)
        reports = []
        if r.returncode != 0:
            return [does_not_build(prop, name, r.stdout)]
        for p in props:
            f = f"{out}.{p}"
            if os.path.exists(f + ".late"):
                LATE.append(f"{name[1:]}:{p}")
                if not os.path.exists(f + ".found"):
                    continue
                f += ".found"
            if not os.path.exists(f):
                log = open(f + ".log").read() if os.path.exists(f + ".log") else r.stdout
                die(f"{prop}: no result for {p} in configuration {name}", log)
            with open(f) as h:
                rep = json.load(h)
            tag = f"{name[1:]}:{p}"
            rep["violations"] = [
                {"key": f"{prop}:{name[1:]}:{v['key']}", "text": f"in configuration {name[1:]} ({c['what']}): {v['text']}"} for v in rep["violations"]]
            rep["roots"] = [f"{tag}:{x}" for x in rep["roots"]]
            rep["samples"] = [f"{tag}: {x}" for x in rep["samples"][:4]]
            rep["counts"] = {k: v for k, v in rep["counts"].items()}
            rep["counts"][f"obligations of {tag}"] = rep["obligations"]
            reports.append(rep)
        return reports
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def feature_sets(crate):
    """every set of at most two features of a crate, every set lacking at most one, and what it offers"""
    import itertools, tomllib
    with open(f"/repo/{crate}/Cargo.toml", "rb") as f:
        feats = sorted(x for x in tomllib.load(f).get("features", {}) if x != "default")
    n = len(feats)
    return [c for k in range(n + 1) for c in itertools.combinations(feats, k) if k <= 2 or k >= n - 1]


def compile_sets(prop, crate):
    """type-check a crate in its feature sets; what the compiler rejects is a violation"""
    e = env()
    target = os.path.join(TARGET, "sets", crate)
    forget(target)
    viol, samples, n = [], [], 0
    for feats in feature_sets(crate):
        r = subprocess.run(["cargo", "check", "--offline", "--locked", "--quiet", "-p", crate, "--no-default-features",
                            "--features", ",".join(feats), "--target-dir", target],
                           cwd="/repo", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        name = f"{crate}[{','.join(feats)}]"
        n += 1
        samples.append(f"{name} compiles" if r.returncode == 0 else f"{name} does not compile")
        if r.returncode == 0:
            continue
        errors = [x for x in re.findall(r"^error.*(?:\n(?!error|warning).*){0,8}", r.stdout, re.M)
                  if not re.match(r"error: (could not compile|aborting)", x)]
        if not errors:
            die(f"{prop}: cargo check of {name} failed", r.stdout)
        for x in errors:
            what = re.sub(r"^error(\[\w+\])?: ", "", x.splitlines()[0])
            lost = re.search(r"(?:could not|cannot) find `(\w+)` in `([\w:]+)`", x)
            if lost:
                what = f"{lost.group(2)}::{lost.group(1)} does not exist"
            viol.append({"key": f"{prop}:build:{name}:{what}", "text": f"{name} does not compile:\n{x}"})
    bad = sum("does not" in s for s in samples)
    return {"violations": viol, "obligations": n, "discharged": n - bad, "counts": {f"feature sets of {crate} compiled": n},
            "functions": [], "roots": [], "samples": samples[:6] + [s for s in samples[6:] if "does not" in s]}


SETS = ["ml-kem", "x-wing", "dhkem"]


def feature_report():
    """no feature other than `deterministic` may switch it on, in ml-kem's own manifest"""
    import tomllib
    path = "/repo/ml-kem/Cargo.toml"
    with open(path, "rb") as f:
        feats = tomllib.load(f).get("features", {})
    viol, samples = [], []
    for name in feats:
        todo, seen = [name], set()
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += feats.get(x, [])
        on = sorted(x for x in seen if x == "deterministic" or x.endswith("/deterministic"))
        if name != "deterministic" and on:
            viol.append({"key": f"C18:feature:{name}", "text": f"{path}: feature `{name}` switches on {', '.join(on)}"})
        samples.append(f"feature {name} implies {sorted(seen - {name})}")
    return {"violations": viol, "obligations": len(feats), "discharged": len(feats) - len(viol), "counts": {"features": len(feats)},
            "functions": [], "roots": [path], "samples": samples}


def main():
    if len(sys.argv) != 2:
        die(__doc__)
    if sys.argv[1] == "--setup":
        build_analyzer()
        for crate in sorted({h for c in CHECKS.values() for h in c["harness"]}):
            print("building", crate, flush=True)
            out = os.path.join(TARGET, "setup.json")
            r = analyse("none", crate, out)
            if r.returncode != 0:
                die(f"{crate} does not build", r.stdout)
        for crate in SETS:
            print("feature sets of", crate, flush=True)
            compile_sets("setup", crate)
        print("ready")
        return 0
    prop = sys.argv[1]
    meta = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    build_analyzer()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    reports = []
    configs = [h for h in meta["harness"] if h.startswith("@")]
    with concurrent.futures.ThreadPoolExecutor(len(configs) + len(SETS)) as ex:
        sets = [ex.submit(compile_sets, prop, c) for c in SETS] if meta.get("feature_sets") else []
        for crate, reps in zip(configs, ex.map(lambda h: configuration(prop, h), configs)):
            reports += [dict(rep, harness=crate) for rep in reps]
        reports += [s.result() for s in sets]
    for crate in meta["harness"]:
        if crate in configs:
            continue
        out = os.path.join(ev, f"{prop}.{os.path.basename(crate)}.raw.json")
        if os.path.exists(out):
            os.remove(out)
        r = analyse(prop, crate, out)
        if not os.path.exists(out) and crate != "harness" and r.returncode != 0:
            reports.append(dict(does_not_build(prop, crate, r.stdout), harness=crate))
            continue
        if not os.path.exists(out):
            die(f"{prop}: no analysis result; does /repo build?", r.stdout)
        with open(out) as f:
            rep = json.load(f)
        os.remove(out)
        rep["harness"] = crate
        reports.append(rep)

    if prop == "C18":
        reports.append(feature_report())

    with open(os.path.join(HERE, "known_findings.json")) as f:
        known = {x["key"]: x for x in json.load(f)["findings"] if x["property"] == prop}
    viol, seen = {}, {}
    for rep in reports:
        for v in rep["violations"]:
            (seen if v["key"] in known else viol)[v["key"]] = v["text"]

    def total(k):
        return sum(r[k] for r in reports)
    counts, funcs, roots, samples = {}, [], [], []
    for r in reports:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for src, dst in (("functions", funcs), ("roots", roots), ("samples", samples)):
            dst.extend(x for x in r[src] if x not in dst)
    evidence = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": meta["rule"],
            "rule": meta["rule"],
            "obligations": total("obligations"),
            "discharged": total("discharged"),
            "analysed_entry_points": roots,
            "analysed_functions": funcs,
            "counts": counts,
            "samples": samples,
            "not_decided_in_time": sorted(LATE),
            "known_findings": sorted(seen),
            "violation_keys": sorted(viol),
        },
        "assumptions": TRUST + meta.get("assumes", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(ev, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k, t in sorted(seen.items()):
        print(f"KNOWN-FINDING: property={prop} {known[k]['what']} [{k}]")
    print(f"{prop}: {evidence['coverage']['obligations']} obligations, {evidence['coverage']['discharged']} discharged, "
          f"{len(roots)} entry points, {len(funcs)} functions of the repository, {evidence['wall_s']} s")
    if viol:
        path = os.path.join(ev, f"{prop}.violation.txt")
        with open(path, "w") as f:
            for k, t in sorted(viol.items()):
                f.write(f"[{k}]\n{t}\n\n")
        for k, t in sorted(viol.items())[:8]:
            print(f"  {k}: {t[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
