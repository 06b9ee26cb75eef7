#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] : decides one property (see DESIGN.md).

Builds the engine and the harness crate of the property from the current tree,
lets the engine execute the harness entries symbolically over the LLVM IR of
the real code, replays what it found natively, and writes evidence/<id>.json.
"""
import concurrent.futures, fcntl, json, os, re, shutil, subprocess, sys, time
from pathlib import Path

ROOT = Path(__file__).resolve().parent
sys.path.insert(0, str(ROOT / "lib"))
import specs  # noqa: E402

BUILD = ROOT / "build"
REPO = Path("/repo")
CORES = os.cpu_count() or 8


# what the engine itself reports, whatever the harness asserts
BUILTIN = ("panic", "allocation", "memory-safety", "unreachable", "deadlock", "hang")


class Broken(Exception):
    pass


def sh(cmd, log, cwd=None, env=None, timeout=1800):
    e = dict(os.environ)
    e.update(env or {})
    with open(log, "w") as f:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode


def tail(p, n=40):
    try:
        return "\n".join(Path(p).read_text(errors="replace").splitlines()[-n:])
    except OSError:
        return ""


class Lock:
    def __init__(self, name):
        BUILD.mkdir(exist_ok=True)
        self.p = BUILD / (name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_engine():
    with Lock("engine"):
        tgt = BUILD / "engine"
        rc = sh(["cargo", "build", "--release", "--offline"], BUILD / "engine.log", cwd=ROOT / "engine",
                env={"CARGO_TARGET_DIR": str(tgt), "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": ""})
        if rc:
            raise Broken("the engine does not build:\n" + tail(BUILD / "engine.log"))
        return tgt / "release" / "vsx"


COMMON = {"RUSTUP_TOOLCHAIN": "1.85", "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0"}


def prepare(crate):
    """Generates the mirrored sources a crate needs."""
    gen = specs.CRATES.get(crate, {}).get("prepare")
    if gen:
        gen(ROOT, REPO, BUILD)


def forget(profile, crate):
    """What setup built of the libraries is kept; what comes from the tree, and the harness, is compiled again."""
    for n in ("sync-ls-*", "tinymist-*", "vsym-*", "vfs-*", crate + "-*", crate.replace("_", "-") + "-*"):
        for d in (profile / ".fingerprint").glob(n):
            shutil.rmtree(d, ignore_errors=True)


def build_ir(crate):
    with Lock("ir-" + crate):
        d = ROOT / "harness" / crate
        tgt = BUILD / "ir" / crate
        forget(tgt / "release", crate)
        for f in (tgt / "release" / "deps").glob(crate + "-*.ll"):
            f.unlink()
        log = BUILD / f"ir-{crate}.log"
        env = dict(COMMON, CARGO_TARGET_DIR=str(tgt), RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -C save-temps -Awarnings")
        # the link step fails (the harness interface is undefined): that is expected
        sh(["cargo", "rustc", "--release", "--offline", "--", "--emit=llvm-ir"], log, cwd=d, env=env)
        out = [f for f in (tgt / "release" / "deps").glob(crate + "-*.ll") if "rcgu" not in f.name]
        if not out:
            raise Broken(f"harness {crate} does not compile against the tree:\n" + tail(log, 60))
        return out[0]


def build_native(crate):
    with Lock("native-" + crate):
        d = ROOT / "harness" / crate
        tgt = BUILD / "native" / crate
        forget(tgt / "debug", crate)
        log = BUILD / f"native-{crate}.log"
        env = dict(COMMON, CARGO_TARGET_DIR=str(tgt), RUSTFLAGS="-Awarnings", CARGO_PROFILE_DEV_DEBUG="0")
        rc = sh(["cargo", "build", "--offline", "--features", "native"], log, cwd=d, env=env)
        if rc:
            raise Broken(f"native harness {crate} does not build:\n" + tail(log, 60))
        return tgt / "debug" / crate


def run_engine(vsx, ll, run, shard, outdir, budget):
    out = outdir / f"{run['entry']}-{shard[0]}.json"
    if out.exists():
        out.unlink()
    cmd = [str(vsx), "--ll", str(ll), "--entry", run["entry"], "--json", str(out), "--time", str(budget)]
    if shard[1] > 1:
        cmd += ["--shard", f"{shard[0]}/{shard[1]}", "--shard-width", str(shard[1] * 24)]
    for k, v in run.get("args", {}).items():
        cmd += ["--" + k] + ([] if v is True else [str(v)])
    log = outdir / f"{run['entry']}-{shard[0]}.log"
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT)
        end = time.time() + budget + 30
        while True:
            try:
                rc = p.wait(1)
                break
            except subprocess.TimeoutExpired:
                # one violation is enough: the others get a little more time
                if FOUND:
                    end = min(end, max(FOUND[0] + 30, time.time()))
                if time.time() >= end:
                    p.kill()
                    p.wait()
                    return {"entry": run["entry"], "cut": True}
    if rc or not out.exists():
        return {"entry": run["entry"], "crash": f"engine exit {rc}: " + tail(log, 6)}
    r = json.loads(out.read_text())
    if any(counts(run, v) for v in r["violations"]):
        FOUND.append(time.time())
    return r


FOUND = []


def replay_text(run, inputs, sched=()):
    t = f"# entry {run['entry']}\n"
    lim = run.get("args", {}).get("max-alloc", 8388608)
    t += f"!limit {lim}\n"
    for n, b in inputs:
        t += f"{n} {bytes(b).hex()}\n"
    return t


def native_run(binary, run, path):
    e = dict(os.environ, VS_REPLAY=str(path), RUST_BACKTRACE="0")
    try:
        p = subprocess.run([str(binary), run["entry"]], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    except subprocess.TimeoutExpired:
        return None, ["VS timeout"]
    return p.returncode, [l for l in p.stdout.decode(errors="replace").splitlines() if l.startswith("VS ")] + (
        ["VS allocation"] if b"memory allocation of" in p.stderr else [])


def reproduces(v, rc, lines):
    if rc is None:
        return v["label"] in ("deadlock", "hang")
    if v["label"] == "panic":
        return any(l.startswith("VS panic ") for l in lines) or rc in (-6, 134)
    if v["label"] == "allocation":
        return "VS allocation" in lines or rc in (-6, 134) or any(l.startswith("VS panic ") for l in lines)
    if v["label"] in ("memory-safety", "unreachable"):
        return rc != 0
    return any(l == "VS assert " + v["label"] for l in lines)


def setup():
    """Builds everything once, so that a check only compiles the tree and its harness."""
    crates = sorted({r["crate"] for p in specs.PROPS.values() for r in p["runs"]})
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        jobs = [ex.submit(build_engine)]
        for c in crates:
            prepare(c)
            jobs += [ex.submit(build_ir, c), ex.submit(build_native, c)]
        for j in jobs:
            try:
                j.result()
            except Broken as e:
                print("not built yet:", str(e)[-300:])
    return 0


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        return setup()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = specs.PROPS[pid]
    t0 = time.time()
    runs = [dict(r) for r in spec["runs"] if tier == "thorough" or r.get("tier", "quick") == "quick"]
    for r in runs:
        if tier == "thorough":
            r.update(r.get("thorough", {}))
    crates = sorted({r["crate"] for r in runs})
    outdir = BUILD / "out" / pid
    shutil.rmtree(outdir, ignore_errors=True)
    outdir.mkdir(parents=True)
    for c in crates:
        prepare(c)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build_engine)
        fi = {c: ex.submit(build_ir, c) for c in crates}
        fn = {c: ex.submit(build_native, c) for c in crates}
        vsx = fe.result()
        lls = {c: f.result() for c, f in fi.items()}
        natives = {c: f.result() for c, f in fn.items()}
    t_build = time.time() - t0

    # symbolic execution
    jobs = []
    only, other, known = spec.get("only"), set(), load_known(pid)
    global counts
    counts = lambda r, v: (not only or v["label"] in BUILTIN or any(o in v["label"] for o in only)) and match_known(known, r, v) is None
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        for r in sorted(runs, key=lambda r: -r.get("shards", 1)):
            n = r.get("shards", 1)
            for i in range(n):
                b = r.get("time", 240 if tier == "quick" else 3000)
                jobs.append((r, ex.submit(run_engine, vsx, lls[r["crate"]], r, (i, n), outdir, b)))
        res = [(r, f.result()) for r, f in jobs]

    problems, incomplete, violations, samples = [], [], [], []
    total = dict(paths={}, queries=0, sat=0, unsat=0, cache_hits=0, byte_domain=0, confirmed=0, model_hits=0, time_s=0.0, instrs=0, forks=0)
    per_entry, files, summ = {}, {}, {}
    z3 = ""
    for r, j in res:
        e = per_entry.setdefault(r["entry"], dict(paths={}, covers={}, asserts={}, split=set(), queries=0, solver_s=0.0, symbolic_bytes=0, forks=0, instructions=0, wall_s=0.0))
        if "crash" in j:
            problems.append(f"{r['entry']}: {j['crash']}")
            continue
        if "cut" in j:
            incomplete.append(f"{r['entry']}: stopped before it was done")
            e["cut"] = True
            continue
        z3 = j["solver"]["name"]
        e["split"].add((j["split_hash"], j["split_width"]))
        e["queries"] += j["solver"]["queries"]
        e["solver_s"] += j["solver"]["time_s"]
        e["forks"] += j["forks"]
        e["instructions"] += j["instrs"]
        e["wall_s"] = max(e["wall_s"], j["wall_s"])
        e["symbolic_bytes"] = max(e["symbolic_bytes"], j["max_symbolic_bytes"])
        for k, v in j["paths"].items():
            e["paths"][k] = e["paths"].get(k, 0) + v
            total["paths"][k] = total["paths"].get(k, 0) + v
        for k, v in j["covers"].items():
            e["covers"][k] = e["covers"].get(k, 0) + v
        for k, (n, q) in j["asserts"].items():
            a = e["asserts"].setdefault(k, [0, 0])
            a[0] += n
            a[1] += q
        for k in ("queries", "sat", "unsat", "cache_hits", "byte_domain", "confirmed", "model_hits", "time_s"):
            total[k] += j["solver"][k]
        total["instrs"] += j["instrs"]
        total["forks"] += j["forks"]
        for f, d in j["files"].items():
            x = files.setdefault(f, dict(functions=set(), lines=0))
            x["functions"] |= set(d["functions"])
            x["lines"] = max(x["lines"], d["lines"])
        for k, v in j["summaries"].items():
            summ[k] = summ.get(k, 0) + v
        e["cut"] = e.get("cut") or any(k.startswith("time limit") for k in j["problems"])
        for k, v in j["problems"].items():
            (incomplete if "time" in k.split(" at ")[0] or k.startswith("time limit") else problems).append(f"{r['entry']}: {k} (x{v})")
        for v in j["violations"]:
            if only and v["label"] not in BUILTIN and not any(o in v["label"] for o in only):
                other.add(f"{r['entry']}: {v['label']}")
                continue
            violations.append((r, v))
        for s in j.get("samples", []):
            samples.append((r, s))
    for n, e in per_entry.items():
        if len(e["split"]) > 1:
            problems.append(f"{n}: the shards split differently")
        e["split"] = len(e["split"])
    for r in runs:
        e = per_entry[r["entry"]]
        for c in r.get("covers", []):
            if not e["covers"].get(c) and not e.get("cut"):
                problems.append(f"{r['entry']}: '{c}' was never reached")

    # the engine against the real code: sampled completed paths, run natively
    validated, mismatches = 0, []
    for i, (r, s) in enumerate(samples[: 400]):
        # a run with threads must reach the same whichever schedule it takes
        if not r.get("validate", True) or (s["sched"] and not r.get("threads")):
            continue
        p = outdir / f"sample-{i}.txt"
        p.write_text(replay_text(r, s["inputs"]))
        rc, lines = native_run(natives[r["crate"]], r, p)
        covers = [l[len("VS cover "):] for l in lines if l.startswith("VS cover ")]
        want = s["trace"]
        okend = any(l in ("VS completed", "VS panic_ok") for l in lines) or (s["end"] == "panic_ok" and "VS allocation" in lines)
        if rc is None or covers != want or not okend:
            mismatches.append(f"{r['entry']}: engine {want} ({s['end']}), native rc={rc} {lines[-3:]} ({p})")
        else:
            validated += 1
    for m in mismatches[:5]:
        problems.append("native run disagrees: " + m)

    # violations: replay on the real code, then the known-findings file
    (ROOT / "replays").mkdir(exist_ok=True)
    reported, knownhits, unrepro = [], {}, []
    seen = set()
    for r, v in violations:
        key = (r["entry"], v["label"], v["detail"] if v["label"] in ("panic", "memory-safety") else "")
        kf = match_known(known, r, v)
        if kf is not None:
            knownhits.setdefault(kf, (r, v))
            continue
        if key in seen and len(reported) > 0:
            continue
        path = ROOT / "replays" / f"{pid}-{r['entry']}-{len(reported) + len(unrepro)}.txt"
        path.write_text(replay_text(r, v["inputs"]))
        rc, lines = native_run(natives[r["crate"]], r, path) if r.get("replay", True) else (1, [])
        ok = reproduces(v, rc, lines) if r.get("replay", True) else True
        for _ in range(20 if r.get("threads") and not ok else 0):
            rc, lines = native_run(natives[r["crate"]], r, path)
            if reproduces(v, rc, lines):
                break
        # a schedule the native run may never take is evidence by itself
        ok = ok or bool(r.get("threads"))
        with open(path, "a") as f:
            f.write(f"# property {pid}: {v['label']} {v['detail']}\n# replay: VS_REPLAY={path} {natives[r['crate']]} {r['entry']}\n")
            f.write("# native: " + json.dumps(lines[-4:]) + "\n# schedule " + json.dumps(v["sched"]) + "\n")
            for s in v["stack"][:25]:
                f.write("#   " + s + "\n")
            for s in v["notes"][-20:]:
                f.write("# note " + s + "\n")
        if ok:
            seen.add(key)
            reported.append((r, v, path))
        else:
            unrepro.append((r, v, path, rc, lines))
    for r, v, path, rc, lines in unrepro:
        if not reported:
            problems.append(f"{r['entry']}: counterexample '{v['label']}' {v['detail']} does not reproduce natively (rc={rc} {lines[-3:]}) {path}")

    wall = time.time() - t0
    npaths = sum(total["paths"].values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2),
        "violations": len(reported),
        "assumptions": spec.get("assumptions", []) + specs.ASSUMPTIONS,
        "coverage": {
            "states": total["forks"] + npaths,
            "transitions": total["instrs"],
            "traces_validated_against_impl": validated,
            "exhaustive": not problems and not incomplete,
            "samples": [dict(entry=r["entry"], inputs=[[n, bytes(b).hex()] for n, b in s["inputs"]], reached=s["trace"]) for r, s in samples[:6]],
            "explanation": "states: symbolic states (forks plus path ends); transitions: LLVM instructions executed symbolically; "
                           "each path stands for all inputs satisfying its path condition",
            "bounds": spec["bounds"] if isinstance(spec["bounds"], str) else spec["bounds"][tier],
            "outside_bounds": spec.get("outside", ""),
            "paths": total["paths"],
            "solver": dict(name="Z3 " + z3, queries=total["queries"], sat=total["sat"], unsat=total["unsat"],
                           cached=total["cache_hits"], decided_by_byte_domains=total["byte_domain"], of_those_confirmed_by_z3=total["confirmed"], decided_by_earlier_models=total["model_hits"],
                           time_s=round(total["time_s"], 2)),
            "assertions": {f"{n}: {k}": dict(evaluated=a[0], solver_decided=a[1]) for n, e in per_entry.items() for k, a in e["asserts"].items()},
            "entries": {n: {k: (round(v, 2) if isinstance(v, float) else v) for k, v in e.items() if k not in ("asserts", "split")} for n, e in per_entry.items()},
            "functions_encoded": {f.replace(str(BUILD) + "/", ""): sorted(d["functions"])[:60] for f, d in sorted(files.items()) if "/repo" in f or "/mirror/" in f},
            "lines_encoded": {f.replace(str(BUILD) + "/", ""): d["lines"] for f, d in sorted(files.items())},
            "library_summaries": summ,
            "known_findings": len(knownhits),
            "build_s": round(t_build, 1),
            "problems": problems[:20],
            "incomplete": incomplete[:20],
            "violations_of_other_properties": sorted(other)[:20],
        },
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str))

    for n, e in sorted(per_entry.items()):
        print(f"  {n}: paths={e['paths']} queries={e['queries']} solver={e['solver_s']:.1f}s wall={e['wall_s']:.1f}s covers={e['covers']}")
    print(f"{pid} [{tier}] paths={npaths} queries={total['queries']} validated={validated} build={t_build:.0f}s wall={wall:.0f}s")
    for k, (r, v) in sorted(knownhits.items()):
        print(f"KNOWN-FINDING: property={pid} {k}")
    for k in known:
        if k["what"] not in knownhits:
            print(f"note: the listed finding was not observed in this run: {k['what']}")
    for p in incomplete[:10]:
        print("INCOMPLETE " + p[:400])
    for p in sorted(other)[:10]:
        print("note: not part of this property: " + p)
    if reported:
        for r, v, path in reported[:10]:
            print(f"  {r['entry']}: {v['label']}: {v['detail']} inputs={[(n, bytes(b)) for n, b in v['inputs']][:12]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if problems:
        for p in problems[:20]:
            print("PROBLEM " + p)
        print(f"{pid}: inconclusive")
        return 3
    return 0


def load_known(pid):
    p = ROOT / "known-findings.json"
    if not p.exists():
        return []
    return [k for k in json.loads(p.read_text())["known"] if k["property"] == pid]


def match_known(known, r, v):
    for k in known:
        if k["entry"] != r["entry"] or k["label"] != v["label"]:
            continue
        if not re.search(k.get("detail", ""), v["detail"]):
            continue
        if "inputs" in k:
            have = {n: bytes(b).hex() for n, b in v["inputs"]}
            if not all(re.fullmatch(x, have.get(n, "")) for n, x in k["inputs"].items()):
                continue
        return k["what"]
    return None


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("BROKEN", e)
        sys.exit(2)
