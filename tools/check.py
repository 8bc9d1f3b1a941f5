#!/usr/bin/env python3
"""check.py PROPERTY

1. Proof leg (decides): govc reads /repo's current source (go/ssa), generates every obligation of the
   contracts the property rests on and hands them to the SMT solvers.
2. Bounded leg (labelled bounded, never counted as proved): the replay harness runs the real code on
   generated fonts against an independent oracle. It stands in for functions without a contract and
   searches for a concrete failing input when an obligation fails.

Exit 0: held. Exit 1 with a VIOLATION line: broken.
"""
import collections
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
prop = sys.argv[1]
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
tier = os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"):
    tier = "quick"
start = time.time()
BUDGET = {"quick": 20, "thorough": 240}[tier]
SEARCH = {"quick": 60, "thorough": 240}[tier]  # when an obligation failed

replay_dir = os.path.join(VERIF, "replay", prop)
shutil.rmtree(replay_dir, ignore_errors=True)
os.makedirs(replay_dir, exist_ok=True)
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)

def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)

def die(msg):
    print(msg)
    shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(2)

def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) obligation=\"([^\"]*)\"\s*(.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def proof_leg(violated):
    govc = os.path.join(tmp, "govc")
    p = sh(["go", "build", "-mod=vendor", "-o", govc, "."], 600, cwd=os.path.join(VERIF, "govc"),
           env=dict(os.environ, GOFLAGS=""))
    if p.returncode:
        die("cannot build govc:\n" + p.stdout)
    out = os.path.join(tmp, "govc.json")
    cmd = [govc, "-repo", REPO, "-specs", os.path.join(VERIF, "contracts"), "-j", "4", "-prop", prop, "-out", out]
    if violated:
        cmd.append("-violated")
    try:
        p = sh(cmd, 620)
    except subprocess.TimeoutExpired:
        return None, "the verifier did not finish within 620 s", cmd
    if p.returncode or not os.path.exists(out):
        return None, "the verifier stopped:\n" + p.stdout[-4000:], cmd
    return json.load(open(out)), None, cmd

def bounded_leg(budget, sd):
    out = os.path.join(tmp, "harness.json")
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ, VERIF_SEED=str(sd), VERIF_BUDGET=str(budget), VERIF_OUT=out, VERIF_REPLAY=replay_dir, REPO=REPO)
    try:
        p = sh(["bash", os.path.join(VERIF, "harness", "run.sh"), prop], budget + 240, env=env)
        log, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        log, rc = (e.stdout or ""), "timeout"
    if os.path.exists(out):
        return json.load(open(out)), None
    if "build failed" in log or "setup failed" in log or "cannot find" in log:
        return None, log
    # the test process died inside the library (fatal error: out of memory, stack overflow, ...)
    path = os.path.join(replay_dir, "crash.txt")
    with open(path, "w") as f:
        f.write("property %s: the process running the library died (%s)\nseed %d\n\n%s" % (prop, rc, sd, log[-20000:] if isinstance(log, str) else ""))
    return {"Evaluations": 0, "Distinct": 0, "Samples": [], "Violation": "the process running the library died", "Replay": path, "Seconds": 0}, None

def relevant(o):
    return not o["Props"] or prop in o["Props"]

b, berr = bounded_leg(BUDGET, seed)
res, proof_err, cmd = proof_leg(bool(b and b["Violation"]))
obligs = collections.Counter()
failed = []   # (unit, obligation)
missing = []
trusted = {}
funcs, inlined = set(), set()
solver_ms = 0
units = []
if res:
    for u in res["Units"]:
        if u["Err"].startswith("function ") and "not found" in u["Err"]:
            missing.append(u["Name"])
            continue
        trusted.update({k: (u.get("Notes") or {}).get(k, "") for k in (u["Trusted"] or {})})
        inlined.update(u["Inlined"] or {})
        funcs.add(u["Name"])
        if u["Err"]:
            failed.append((u["Name"], {"Name": u["Name"] + ": every obligation generated", "Kind": "unit", "Pos": "", "Output": u["Err"], "Status": "failed"}))
            obligs["total"] += 1
        if u["Vacuous"] and not u["Err"]:
            failed.append((u["Name"], {"Name": u["Name"] + ": some execution reaches the end (contract not vacuous)", "Kind": "cover", "Pos": "", "Output": "no reachable return", "Status": "failed"}))
            obligs["total"] += 1
        for k, n in (u.get("Trivial") or {}).items():
            if k in ("post", "pre", "frame") or prop == "C01":
                obligs["total"] += n
                obligs["discharged"] += n
                obligs["by simplifier"] += n
                obligs["kind " + k] += n
        for o in u["Obligs"] or []:
            if not relevant(o):
                obligs["not bearing on this property"] += 1
                continue
            obligs["total"] += 1
            obligs["kind " + o["Kind"]] += 1
            solver_ms += o["Ms"]
            if o["Status"] == "proved":
                obligs["discharged"] += 1
                obligs["by " + (o["Solver"] or "smt")] += 1
            else:
                failed.append((u["Name"], o))
        obligs["loop invariants (established and preserved)"] += u["Invs"]
        units.append({"unit": u["Name"], "obligations": len(u["Obligs"] or []), "loop_invariants": u["Invs"], "seconds": round(u["Dur"], 2)})

known = load_known()
unlisted = []
for un, o in failed:
    hit = [t for n, t in known if n == o["Name"]]
    if hit:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, o["Name"], hit[0]))
    else:
        unlisted.append((un, o))

if b is None:
    # without the harness the verifier still decides; only the search for a failing input is lost
    print("bounded leg unavailable: the replay harness does not build against %s:\n%s" % (REPO, (berr or "")[-2000:]))
    b = {"Evaluations": 0, "Distinct": 0, "Samples": [], "Violation": "", "Replay": "", "Seconds": 0}
    if proof_err is not None or res is None:
        die("neither the verifier nor the harness could run: %s" % proof_err)
evals, distinct, samples = b["Evaluations"], b["Distinct"], b["Samples"] or []
proof_bad = bool(unlisted) or proof_err is not None or (res is not None and obligs["total"] == 0)
if proof_bad and not b["Violation"]:
    b2, _ = bounded_leg(SEARCH, seed + 7919)
    if b2:
        evals += b2["Evaluations"]
        distinct += b2["Distinct"]
        if b2["Violation"]:
            b = b2

rc, line = 0, None
fail_path = os.path.join(replay_dir, "failed-obligations.txt")
if proof_bad:
    with open(fail_path, "w") as f:
        f.write("property %s: obligations the verifier does not accept for the current source\n\n" % prop)
        if proof_err:
            f.write(proof_err + "\n")
        if res is not None and obligs["total"] == 0:
            f.write("no obligation was generated for this property\n")
        for un, o in unlisted:
            f.write("obligation: %s\n  kind: %s\n  source: %s\n  verifier: %s\n\n" % (o["Name"], o["Kind"], o["Pos"], (o.get("Output") or "").strip()[:3000]))
        f.write("\ncommand: %s\n" % " ".join(cmd))
if b["Violation"]:
    rc = 1
    line = "VIOLATION property=%s replay=%s" % (prop, b["Replay"] or fail_path)
    if proof_bad and b["Replay"]:
        with open(b["Replay"], "a") as f:
            f.write("\nfailed obligations:\n" + open(fail_path).read())
elif proof_bad:
    rc = 1
    line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, fail_path)

level = "proof"
base = ["govc (verification condition generator in /verif/govc, over golang.org/x/tools/go/ssa %s): integers are exact machine integers (wrap-around modelled), sequential execution, slices as (array, offset, length, capacity), allocation always fresh" % "vendored",
        "z3 (z3-new), the deciding back end"]
base += ["assumed contract: %s%s" % (k, (": " + v) if v else "") for k, v in sorted(trusted.items())]
ev = {
    "property": prop, "tier": tier, "seed": seed, "level": level,
    "coverage": {
        "obligations": obligs["total"],
        "discharged": obligs["discharged"],
        "checker_cmd": "bash /verif/check.sh %s  (govc -repo /repo -specs /verif/contracts -prop %s)" % (prop, prop),
        "trusted_base": base,
        "breakdown": {k: v for k, v in sorted(obligs.items()) if k not in ("total", "discharged")},
        "solver_ms": solver_ms,
        "verifier_s": round(res["Seconds"], 1) if res else None,
        "functions_under_contract": sorted(funcs),
        "functions_inlined_into_them": sorted(inlined),
        "contracts_without_function": missing,
        "units": units,
        "failed_obligations": [o["Name"] for _, o in failed],
        "bounded_leg": {
            "label": "bounded: not proof; runs the real code on generated fonts against an independent oracle; stands in for functions without a contract and looks for failing inputs",
            "bound": "%d s of random cases (seed %d), fonts of at most a few hundred glyphs, plus the repository's fonts" % (BUDGET, seed),
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": "a case is a generated font (or a mutation of one) with a random sequence of operations; it is counted once per distinct bytes and operations, and not when it leaves the property's premise empty",
            "samples": samples,
        },
    },
    "assumptions": [
        "no other goroutine touches the font or its reader; the reader is an io.ReadSeeker obeying its documentation",
        "memory is not exhausted",
    ],
    "wall_s": round(time.time() - start, 2),
    "violations": 1 if rc else 0,
}
with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
    json.dump(ev, f, indent=1)
    f.write("\n")
print("%s: %d of %d obligations discharged over %d functions (%s s); bounded leg: %d cases, %d distinct" % (
    prop, obligs["discharged"], obligs["total"], len(funcs), round(res["Seconds"], 1) if res else "-", evals, distinct))
for m in missing:
    print("note: no function for contract", m)
for un, o in unlisted[:20]:
    print("not discharged: %s [%s] %s" % (o["Name"], o["Kind"], o["Pos"]))
if b["Violation"]:
    print("failing input: " + b["Violation"].split("\n")[0])
shutil.rmtree(tmp, ignore_errors=True)
if line:
    print(line)
sys.exit(rc)
