#!/usr/bin/env python3
"""check.py <ID>: decide one property of /verif/properties.jsonl on /repo's current tree.

Runs Kani (CBMC) on the proof harnesses registered for the property (registry.py), which are
compiled together with the code in /repo, and judges the result:
  exit 0  every obligation that could be decided holds
  exit 1  an obligation fails: VIOLATION property=<ID> replay=<file>[ no-failing-input-found]
  exit 2  no answer (the code or the harnesses do not compile, the verifier crashed)
VERIF_TIER=thorough adds the harnesses and feature sets marked as such. Writes evidence/<ID>.json.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from registry import CHECKS, TRUSTED, FEATURES

START = time.time()
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUDGET = 840 if TIER == "quick" else 4 * 3600
BUILD = Path(os.environ.get("VERIF_BUILD", HERE / "build"))
KANI = "cargo kani -Z function-contracts -Z stubbing -Z restrict-vtable -Z unstable-options".split()
CORES = min(8, os.cpu_count() or 4)
PARALLEL = 4  # groups verified at the same time


def left():
    return BUDGET - (time.time() - START)


def run(cmd, cwd, env=None, timeout=None):
    """run a command, ending its whole process group at the timeout; returns (rc or None, output)"""
    e = dict(os.environ, CARGO_NET_OFFLINE="true", **(env or {}))
    with tempfile.TemporaryFile("w+", errors="replace") as out:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        if rc is None:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
        out.seek(0)
        return rc, out.read()


class Result:
    def __init__(self, group, r, control=False):
        self.group = group
        self.name = r["harness_id"]
        self.ms = int(r["duration_ms"])
        self.checks = r.get("checks") or []
        self.success = r["status"] == "Success"
        self.failed, self.limits, self.bad_covers = [], [], []
        for c in self.checks:
            s, d = c["status"], c["description"]
            if c["category"] == "cover":
                if s not in ("Satisfied", "Success"):
                    self.bad_covers.append(c)
            elif s == "Failure":
                (self.limits if is_limit(c) else self.failed).append(c)
        if control:  # must fail: shows that a stand-in sees what it is there to see
            self.checks = [c for c in self.checks if c["status"] == "Success"]
            self.failed, self.bad_covers = [], []
            if not self.success:
                self.limits = [{"description": "LIMIT: control proof: the stand-ins do not see what they should", "category": "control", "location": {}}]
        if not self.success and not self.failed and not self.limits:
            self.limits.append({"description": "no result: the verifier ended without deciding (time or memory limit)", "category": "crash", "location": {}})

    def obligations(self):
        return [c for c in self.checks if c["category"] != "cover"]


def is_limit(c):
    d = c["description"]
    if c["category"] in ("unwind", "unsupported_construct", "reachability_check", "internal"):
        return True
    return "LIMIT:" in d or "unwinding assertion" in d or "not currently supported by Kani" in d or "undefined function" in d.lower() or "recursion unwinding" in d


def target(group):
    return BUILD / (group.features + ("-contracts" if group.cfgs else ""))


def kani(group, names=None, wide=False, timeout=None, extra=(), jobs=CORES):
    """one run of Kani; returns (results, error text)"""
    cfgs = list(group.cfgs) + (["colorz_wide"] if wide else []) + (["colorz_deep"] if TIER == "thorough" else [])
    flags = "--cap-lints allow" + "".join(f" --cfg {c}" for c in cfgs)
    filters = sum((["--harness", h] for h in (names or group.harnesses)), []) + (["--exact"] if names or group.exact else [])
    BUILD.mkdir(parents=True, exist_ok=True)
    with tempfile.TemporaryDirectory(dir=BUILD) as t:
        out = Path(t) / "kani.json"
        ht = int(max(60, min(left() - 30, group.timeout if TIER == "quick" else 7200)))
        cmd = KANI + ["-j", str(jobs), "--output-format", "terse", "--export-json", str(out), "--harness-timeout", f"{ht}s",
                      "--target-dir", str(target(group))]
        if FEATURES[group.features]:
            cmd += ["--features", FEATURES[group.features]]
        cmd += filters + list(extra)
        rc, log = run(cmd, HERE / "contracts", {"RUSTFLAGS": flags}, timeout or max(30, left()))
        COMMANDS.append(" ".join(["RUSTFLAGS='%s'" % flags] + [x for x in cmd if not x.startswith(str(BUILD))]))
        if not out.exists():
            return None, log
        data = json.loads(out.read_text())
    controls = {m["pretty_name"] for m in data["harness_metadata"] if m["attributes"]["should_panic"]}
    return [Result(group, r, r["harness_id"] in controls) for r in data["verification_results"]["results"]], log


COMMANDS = []


def describe(c):
    loc = c.get("location") or {}
    text = c["description"]
    if "placeholder message" in text:  # Kani drops the text of some panics
        try:
            lines = (HERE / "contracts" / str(loc["file"])).read_text().splitlines()
            text = lines[int(loc["line"]) - 1].strip()
        except (OSError, KeyError, ValueError, IndexError):
            pass
    return f'{text} [{c["category"]}] at {loc.get("file", "?")}:{loc.get("line", "?")} in {c.get("function", "?")}'


def faithful(res):
    """does a native run do what the proof is about? (not when terminals are stand-ins)"""
    return not (res.name.split("::")[0] in ("c02", "c16", "c17") and res.group.features in ("std", "sc", "scn"))


def playback(res, replay=True):
    """the verifier's counterexample as a test, run natively on the real code.
    Returns (test text or None, reproduced: bool, log)"""
    if left() < 60:
        return None, False, "no time left for a replay"
    cmd_extra = ["--concrete-playback=print", "-Z", "concrete-playback"]
    flags = "--cap-lints allow" + "".join(f" --cfg {c}" for c in list(res.group.cfgs) + (["colorz_wide"] if res.wide else []) + (["colorz_deep"] if TIER == "thorough" else []))
    cmd = KANI + cmd_extra + ["--harness", res.name, "--exact", "--target-dir", str(target(res.group))]
    feats = FEATURES[res.group.features]
    if feats:
        cmd += ["--features", feats]
    rc, log = run(cmd, HERE / "contracts", {"RUSTFLAGS": flags}, max(30, min(240, left() - 30)))
    tests = []
    for m in re.finditer(r"```\n(.*?)```", log, re.S):
        body = m.group(1)
        # tests for satisfied cover properties are not counterexamples
        if "cover" in body.split("#[test]")[0].lower() and "Check for cover" in body:
            continue
        tests.append(body)
    if not tests:
        return None, False, log[-4000:]
    if not replay or not faithful(res):
        return "\n".join(tests), False, ""
    tmp = Path(tempfile.mkdtemp(dir=BUILD))
    try:
        crate = tmp / "contracts"
        shutil.copytree(HERE / "contracts", crate, ignore=shutil.ignore_patterns("target"))
        text = ""
        for i, t in enumerate(tests):
            t = re.sub(r"fn kani_concrete_playback_\w+", f"fn replay_{i}", t)
            t = re.sub(r"kani::concrete_playback_run\(concrete_vals, \w+\)", f"kani::concrete_playback_run(concrete_vals, crate::{res.name})", t)
            text += t + "\n"
        with open(crate / "src/lib.rs", "a") as f:
            f.write("\n#[cfg(all(test, kani))]\nmod replay {\n" + text + "\n}\n")
        if left() < 40:
            return text, False, "no time left for a replay"
        cmd = ["cargo", "kani", "playback", "-Z", "concrete-playback"]
        if feats:
            cmd += ["--features", feats]
        rc, log = run(cmd + ["--", "replay::", "--test-threads=1"], crate, {"RUSTFLAGS": flags, "CARGO_TARGET_DIR": str(tmp / "t")}, max(20, left() - 10))
        # reproduced: the same obligation fails (and not, say, an assumption, as stand-ins are not in place)
        failed = {(Path(str(c["location"].get("file"))).name, str(c["location"].get("line"))) for c in res.failed if c.get("location")}
        panics = {(Path(f).name, l) for f, l in re.findall(r"panicked at ([^:\n]*):(\d+)", log)}
        texts = set(re.findall(r"panicked at [^\n]*\n([^\n]+)", log))
        return text, bool(failed & panics or texts & {c["description"] for c in res.failed}), log[-6000:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def confirm(res):
    """A proof about private functions (Group.hook) failed: is the compile time colour type of the
    counterexample's value wrong in the real code? Returns (the value, mismatches)"""
    text, _, log = playback(res, replay=False)
    vals = [int(v) for v in re.findall(r"vec!\[(\d+)\]", text or "")][:3]
    if len(vals) < 3:
        return None, []
    value = " ".join(map(str, vals))
    _, bad, _, _ = native("C07", "none", {"COLORZ_RGB": value})
    return value, bad


def native(pid, features, env=None):
    """the exhaustive native run standing in where the verifier misreads the compiled constants"""
    cmd = ["cargo", "run", "--offline", "-q", "--target-dir", str(BUILD / "native" / features)]
    if FEATURES[features]:
        cmd += ["--features", FEATURES[features]]
    rc, log = run(cmd + ["--", pid], HERE / "native", env, max(30, left()))
    m = re.search(r"^cases (\d+)$", log, re.M)
    bad = re.findall(r"^MISMATCH (.*)$", log, re.M)
    panicked = rc not in (0, None) and "panicked at" in log
    return (int(m.group(1)) if m else 0), bad or (["panic: " + log[-500:]] if panicked else []), log, rc


def main():
    pid = sys.argv[1]
    check = CHECKS[pid]
    groups = [g for g in check.groups if TIER == "thorough" or not g.thorough]
    results, notes, limits, missing = [], [], [], []
    errors = []
    with ThreadPoolExecutor(PARALLEL) as pool:
        jobs = CORES if len(groups) == 1 else max(2, CORES // 2)
        natives = [pool.submit(native, pid, f) for f in check.native]
        runs = list(pool.map(lambda g: (g, *kani(g, jobs=jobs)), groups))
        natives = [n.result() for n in natives]
    for g, rs, log in runs:
        if rs is None:
            if g.internal or g.hook:
                notes.append(f"contracts on private functions ({g.features}) not checked: {tail(log)}")
                continue
            if left() < 30:
                notes.append(f"time limit reached in group {g.features} {g.harnesses}")
                continue
            errors.append(tail(log, 3000))
            continue
        if len(rs) < g.expect:
            (notes if g.internal or g.hook else missing).append(f"{g.features} {g.harnesses}: {len(rs)} of {g.expect} harnesses")
        for r in rs:
            r.wide = False
        retry = [r for r in rs if r.limits and not r.failed and any("no result" not in c["description"] for c in r.limits)]
        if retry and left() > 120:
            ws, log = kani(g, [r.name for r in retry], wide=True, timeout=left() - 60)
            for w in ws or []:
                w.wide = True
                rs = [w if r.name == w.name else r for r in rs]
                notes.append(f"{w.name} ({g.features}) decided with wider bounds" if w.success else f"{w.name} ({g.features}) not decided with wider bounds either")
        results += rs
    cases, mismatches, nlog = 0, [], ""
    for f, (n, bad, nlog, rc) in zip(check.native, natives):
        cases += n
        mismatches += [f"{f}: {b}" for b in bad]
        if not bad and (rc != 0 or n == 0):
            errors.append("native run: " + tail(nlog, 2000))

    for r in results:
        if r.failed and r.group.hook and not mismatches:
            value, bad = confirm(r)
            mismatches += [f"compile time colour with the value of the verifier's counterexample ({value}): {b}" for b in bad[:3]]
    # a failed proof about private functions counts when the compile time types are wrong, too
    failing = [r for r in results if r.failed and not r.group.internal and not (r.group.hook and not mismatches)]
    internal = [r for r in results if r.failed and r not in failing]
    undecided = [r for r in results if r.limits and not r.failed]
    for r in internal:
        notes.append(f"internal contract not satisfied (observable property unaffected unless also reported): {r.name}: {describe(r.failed[0])}")
    for r in undecided:
        notes.append(f"undecided: {r.name} ({r.group.features}): {describe(r.limits[0])}")
    for r in results:
        for c in r.bad_covers:
            if r.success:
                notes.append(f"vacuity check not satisfied: {r.name}: {describe(c)}")
    obligations = sum(len(r.obligations()) for r in results)
    discharged = sum(1 for r in results for c in r.obligations() if c["status"] in ("Success", "Unreachable"))
    replay = None
    suffix = ""
    if failing or mismatches:
        replay = HERE / "evidence" / f"{pid}.replay.txt"
        replay.parent.mkdir(exist_ok=True)
        lines = [f"property {pid}: {check.title}", ""]
        for m in mismatches:
            lines.append(f"native run on the real code: {m}")
        reproduced = bool(mismatches)
        for r in failing:
            lines.append(f"failed obligation in proof {r.name} (features: {r.group.features}):")
            lines += ["    " + describe(c) for c in r.failed]
        for r in sorted(failing, key=lambda r: (not faithful(r), r.ms))[:3]:
            if reproduced and mismatches:
                break
            if left() < 90 + r.ms / 250:  # playback verifies it again and then compiles the test
                lines.append("no time left for further counterexamples")
                break
            text, ok, log = playback(r)
            lines += ["", f"counterexample of the verifier for {r.name}:", text or "none", "", f"replayed on the real code: {'reproduced' if ok else 'not reproduced (stand-ins for the environment are not in place in a native run)'}", log]
            if ok:
                reproduced = True
                break
        suffix = "" if reproduced else " no-failing-input-found"
        replay.write_text("\n".join(lines) + "\n")

    proofs = [r for r in results if r.success]
    evidence = {
        "property": pid, "tier": TIER, "seed": SEED, "level": check.level,
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "unreachable_obligations": sum(1 for r in results for c in r.checks if c["status"] == "Unreachable"),
            "covers_satisfied": sum(1 for r in results for c in r.checks if c["category"] == "cover" and c["status"] == "Satisfied"),
            "checker_cmd": " && ".join(COMMANDS) or "none",
            "back_end": "Kani 0.68.0, CBMC 6.11 (symbolic execution, SAT: CaDiCaL/MiniSat as chosen by Kani)",
            "solver_time_s": round(sum(r.ms for r in results) / 1000, 1),
            "proofs": [{"harness": r.name, "features": r.group.features, "kind": "function contract" if r.group.internal else "property contract",
                        "verified": r.success, "obligations": len(r.obligations()), "ms": r.ms} for r in results],
            "functions_under_contract": check.functions,
            "bounded": check.bounded,
            "trusted_base": TRUSTED + check.trusted,
            **({"native_cases": cases} if check.native else {}),
            **({"exhaustive": True} if pid in ("C05", "C19") else {}),
            "notes": notes + missing,
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - START, 1),
        "violations": len(failing) + len(mismatches),
    }
    if check.level == "other" and "explanation" not in evidence["coverage"]:
        evidence["coverage"]["explanation"] = check.note
    (HERE / "evidence").mkdir(exist_ok=True)
    (HERE / "evidence" / f"{pid}.json").write_text(json.dumps(evidence, indent=1) + "\n")
    for n in notes + missing:
        print("note:", n)
    print(f"{pid} {TIER}: {len(proofs)}/{len(results)} proofs, {discharged}/{obligations} obligations discharged"
          + (f", {cases} native cases" if check.native else "") + f", {evidence['wall_s']} s")
    for line in (HERE / "known_findings.txt").read_text().splitlines():
        if line.startswith(f"finding: property={pid} "):
            print("KNOWN-FINDING: " + line[len("finding: "):])
    if replay:
        print(f"VIOLATION property={pid} replay={replay}{suffix}")
        return 1
    if errors or missing:
        for e in errors:
            print("error:", e)
        return 2
    return 0


def tail(log, n=600):
    err = [l for l in log.splitlines() if l.startswith("error")]
    return ("; ".join(err[:5]) + " ... " if err else "") + log[-n:]


if __name__ == "__main__":
    sys.exit(main())
