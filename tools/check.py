#!/usr/bin/env python3
"""check.py Cxx [quick|thorough]: decide one property.

1. govc (this repository's deductive verifier) regenerates every proof
   obligation of the property from /repo's current source and discharges it.
2. TestBounded* of replay/Cxx (if any) are run: bounded stand-ins, labelled so.
3. When an obligation fails (and always in the thorough tier) TestReplay* of
   replay/Cxx look for a failing input against the real code.
"""
import json, os, re, subprocess, sys, time, hashlib, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GOJI_REPO", "/repo")
prop = sys.argv[1]
tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
if len(sys.argv) > 2:
    tier = sys.argv[2]
if tier not in ("quick", "thorough"):
    tier = "quick"
try:
    seed = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    seed = 1
T0 = time.time()

env = dict(os.environ)
env.update(HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on", GOWORK="off",
           VERIF_SEED=str(seed), VERIF_TIER=tier)

def sh(cmd, cwd, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace") + "\n(timeout)"

def build_govc():
    bindir = os.path.join(VERIF, ".bin")
    os.makedirs(bindir, exist_ok=True)
    h = hashlib.sha256()
    d = os.path.join(VERIF, "govc")
    for f in sorted(os.listdir(d)):
        h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    out = os.path.join(bindir, "govc-" + h.hexdigest()[:16])
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        rc, o = sh(["go", "build", "-o", tmp, "."], d, 600)
        if rc != 0:
            print(o); raise SystemExit("cannot build govc")
        os.replace(tmp, out)
    return out

def ensure_gomod():
    if not os.path.exists(os.path.join(REPO, "go.mod")):
        shutil.copy("/opt/vp/goji.go.mod", os.path.join(REPO, "go.mod"))

def replay_overlay():
    """overlay of replay/Cxx into the repository: files at the top go to a
    directory of their own, files in subdirectories into that package."""
    base = os.path.join(VERIF, "replay", prop)
    rep, pkgs = {}, set()
    common = os.path.join(VERIF, "replay", "common")
    for root, _, files in os.walk(base):
        rel = os.path.relpath(root, base)
        for f in sorted(files):
            if not f.endswith(".go"):
                continue
            if rel == ".":
                rep[os.path.join(REPO, "zzverif", f)] = os.path.join(root, f)
                pkgs.add("./zzverif")
            else:
                rep[os.path.join(REPO, rel, "zz_" + prop.lower() + "_" + f)] = os.path.join(root, f)
                pkgs.add("./" + rel if rel != "root" else ".")
    if "./zzverif" in pkgs and os.path.isdir(common):
        for f in sorted(os.listdir(common)):
            rep[os.path.join(REPO, "zzverif", f)] = os.path.join(common, f)
    return rep, sorted(pkgs)

def run_tests(pat, outdir, timeout):
    rep, pkgs = replay_overlay()
    if not rep:
        return None
    # only when such tests exist
    if not any(re.search(r"func " + pat, open(p).read()) for p in rep.values()):
        return None
    ov = os.path.join(outdir, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"), indent=1)
    race = ["-race"] if any("//verif:race" in open(p).read() for p in rep.values()) else []
    t = time.time()
    out, rc, cmds = "", 0, []
    for i, pkg in enumerate(pkgs):
        exe = os.path.join(outdir, "t%d.test" % i)
        c1 = ["go", "test", "-c", "-vet=off"] + race + ["-overlay", ov, "-o", exe, pkg]
        c2 = [exe, "-test.run", "^" + pat, "-test.timeout", "%ds" % timeout, "-test.v"]
        cmds.append(" ".join(c1) + " && " + " ".join(c2))
        r, o = sh(c1, REPO, 300)
        out += o
        if r == 0:
            r, o = sh(c2, outdir, timeout + 30)
            out += o
        rc = rc or r
    return dict(cmd=" ; ".join(cmds), rc=rc, out=out, secs=time.time() - t)

def main():
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ensure_gomod()
    govc = build_govc()
    outdir = os.path.join(VERIF, "evidence", prop + ".run")
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    res_file = os.path.join(outdir, "govc.json")
    cmd = [govc, "-prop", prop, "-repo", REPO, "-verif", VERIF, "-jobs", "4", "-out", res_file]
    if tier == "thorough":
        cmd.append("-thorough")
    rc, o = sh(cmd, VERIF, 700 if tier == "quick" else 3000)
    open(os.path.join(outdir, "govc.log"), "w").write(o)
    try:
        res = json.load(open(res_file))
    except Exception:
        res = dict(functions=[], obligations=0, discharged=0, by_backend={}, solver_queries=0, solver_time_s=0,
                   trusted=[], failed=[dict(contract="", name="govc", kind="setup", result="error", output=o[-2000:])], wall_s=0)
    failed = res.get("failed") or []
    proof_ok = rc == 0 and not failed
    print("%s: %d/%d proof obligations discharged, %d contracts, %d queries, %.1fs" % (
        prop, res["discharged"], res["obligations"], len(res["functions"] or []), res.get("solver_queries", 0), res.get("wall_s", 0)))
    seen = set()
    for f in failed:
        k = (f.get("contract"), f.get("name"))
        if k in seen:
            continue
        seen.add(k)
        print("  failed obligation: %s %s [%s] %s" % (f.get("contract"), f.get("name"), f.get("result"), (f.get("output") or "").strip()[:300] if f.get("kind") in ("setup", "error") else ""))
    bounded = run_tests("TestBounded", outdir, 500)
    viol, found = False, None
    def failing(r):
        return r and r["rc"] != 0 and "FAILING INPUT" in r["out"]
    if bounded:
        if bounded["rc"] != 0:
            viol = True
            found = bounded if failing(bounded) else None
            print("  bounded stand-in failed:\n" + bounded["out"][-1500:])
        else:
            print("  bounded stand-in: passed in %.1fs" % bounded["secs"])
    replay = None
    if not proof_ok:
        viol = True
    if (viol and not found) or tier == "thorough":
        replay = run_tests("TestReplay", outdir, 240 if tier == "quick" else 900)
        if failing(replay):
            viol = True
            found = found or replay
        elif replay and replay["rc"] != 0 and proof_ok and not viol:
            print("  note: replay harness did not run cleanly:\n" + replay["out"][-800:])
    # the evidence
    man = {}
    try:
        for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
            if c["property"] == prop:
                man = c
    except Exception:
        pass
    trusted = res.get("trusted") or []
    cov = dict(obligations=res["obligations"], discharged=res["discharged"],
               checker_cmd="%s -prop %s -repo %s -verif %s" % (govc, prop, REPO, VERIF),
               trusted_base=trusted + ["govc's encoding of Go SSA (golang.org/x/tools/go/ssa) into SMT", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (an unsat answer of one of them)"],
               functions_under_contract=[dict(contract=f["contract"], at=f["where"], modular=f["modular"], obligations=f["obligations"], discharged=f["discharged"], paths=f["paths"], code_covered=f["functions"]) for f in (res["functions"] or [])],
               by_backend=res.get("by_backend"), solver_queries=res.get("solver_queries"), solver_time_s=res.get("solver_time_s"))
    if failed:
        cov["failed_obligations"] = [("%s %s" % k) for k in sorted(set((f.get("contract", ""), f.get("name", "")) for f in failed))]
    if bounded:
        ms = re.findall(r"BOUNDED (.*)", bounded["out"])
        cov["bounded_stand_ins"] = dict(label="bounded, not counted as proved", passed=bounded["rc"] == 0, what=ms, cmd=bounded["cmd"], secs=round(bounded["secs"], 1))
    if replay:
        cov["replay_search"] = dict(label="bounded search for a failing input; not part of the proof", found=failing(replay) or False, what=re.findall(r"REPLAY (.*)", replay["out"]), secs=round(replay["secs"], 1))
    ev = dict(property=prop, tier=tier, seed=seed, level=man.get("level", "proof"), coverage=cov,
              assumptions=ASSUME + [t for t in trusted], wall_s=round(time.time() - T0, 2), violations=1 if viol else 0)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for line in open(os.path.join(VERIF, "known-findings.txt")) if os.path.exists(os.path.join(VERIF, "known-findings.txt")) else []:
        if line.startswith("finding: property=%s " % prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, line.split(" ", 2)[2].strip()))
    if not viol:
        print("%s holds (%s, %.1fs)" % (prop, tier, time.time() - T0))
        return 0
    rp = os.path.join(VERIF, "evidence", prop + ".replay.txt")
    with open(rp, "w") as f:
        f.write("property %s is violated on %s\n\n" % (prop, REPO))
        if found:
            f.write("Failing input, replayed against the real code with\n  cd %s && %s\n\n%s\n\n" % (REPO, found["cmd"], found["out"][-6000:]))
        else:
            f.write("No failing input was found by the replay harness.\n")
            if replay:
                f.write("(%s)\n%s\n" % (replay["cmd"], replay["out"][-3000:]))
        f.write("Proof obligations that failed (%s):\n" % cov["checker_cmd"])
        for x in failed:
            f.write("* %s %s [%s]\n  path: %s\n  goal: %s\n  verifier: %s\n" % (x.get("contract"), x.get("name"), x.get("result"), x.get("path", ""), (x.get("goal") or "")[:3000], (x.get("output") or "")[:2000]))
    if found:
        m = re.search(r"FAILING INPUT.*", found["out"])
        print("  " + m.group(0)[:400])
    print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if found else " no-failing-input-found"))
    return 1

ASSUME = [
    "int, uint32 counters and lengths are mathematical integers (no overflow)",
    "calls of unknown code (handlers, middleware, callbacks) may change any memory except private/stable declared fields, state protected by locks held, fields of objects not yet shared, slice elements and captured variables",
    "calls of functions outside the repository without an extern contract return arbitrary values and do not change the repository's memory",
    "memory allocation does not fail; no data races other than those ruled out by the declared monitors",
]

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit as e:
        print(e); rc = 1
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, os.path.join(VERIF, "evidence")))
    except Exception as e:
        import traceback
        traceback.print_exc()
        rc = 1
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, os.path.join(VERIF, "evidence")))
    sys.stdout.flush()
    os._exit(rc)
