#!/usr/bin/env python3
"""Runs one property's model check against /repo's working tree.

  check.py <ID> <quick|thorough>     exit 0: held on everything explored; 1: VIOLATION line; other: error
  check.py --replay <file>           re-executes one recorded violation
  check.py --build                   builds everything (setup)
"""
import json, os, re, struct, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness")
TARGET = os.environ.get("PMC_TARGET", os.path.join(V, "target"))
PROFILES = ["release", "checked"]
BIN = {"C01": "p2", "C06": "p2", "C02": "pos", "C07": "pos", "C03": "gm", "C04": "nep", "C05": "bij", "C08": "inst",
       "C09": "fld", "C10": "fld", "C11": "fld", "C12": "mat", "C13": "mat", "C14": "mk", "C15": "mk", "C16": "mk",
       "C17": "cmp", "C18": "bad", "C19": "hist", "C20": "conc", "C21": "bad"}
ASSUME = {
    "*": ["the reference models in harness/src/refm.rs state the specification correctly",
          "ark-ff's integer conversions (From<u64>/From<BigUint>/into_bigint) and its arithmetic for a correct modulus are right (checked on boundary values by C09)",
          "the asm feature is not built"],
}
LIMIT = {"quick": 600, "thorough": 7200}
TOTAL = {"quick": 720, "thorough": 12000}


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def build(binary):
    procs = []
    for prof in PROFILES:
        cmd = ["cargo", "build", "--offline", "--profile", prof, "--target-dir", TARGET] + (["--bin", binary] if binary else ["--bins"])
        procs.append((prof, subprocess.Popen(cmd, cwd=H, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    ok = True
    for prof, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            ok = False
            print(f"BUILD FAILED ({prof})\n" + "\n".join(out.splitlines()[-60:]), file=sys.stderr)
    return ok


def run(binary, prof, prop, tier, tmp, only=None, limit=None, budget=None):
    out = os.path.join(tmp, f"{prof}.json")
    inflight = os.path.join(tmp, f"{prof}.inflight")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [os.path.join(TARGET, prof, binary), prop, tier, out, "--inflight", inflight]
    if only:
        cmd += ["--only", only[0], str(only[1])]
    e = env()
    e["PMC_SCRATCH"] = tmp
    e["PMC_PROFILE"] = prof
    if budget:
        e["PMC_BUDGET"] = str(int(budget))
        limit = budget + 100
    try:
        p = subprocess.run(cmd, cwd=tmp, env=e, timeout=limit or LIMIT[tier], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    res = None
    if rc in (0, 1, 3) and os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    return rc, res, inflight, err


def crashed(binary, prof, prop, tier, tmp, inflight, err):
    """The process died (stack overflow, abort, ...). If one of the items that were running dies again inside an
    implementation call when it is run alone, that is a violation; anything else is an error of the check."""
    names = None
    items = []
    data = open(inflight, "rb").read()
    for i in range(0, len(data), 24):
        sp, idx, call = struct.unpack("<QQQ", data[i:i + 24])
        if sp and call:
            items.append((sp - 1, idx))
    p = subprocess.run([os.path.join(TARGET, prof, binary), prop, tier, "--list"], cwd=tmp, env=env(), stdout=subprocess.PIPE, text=True, timeout=120)
    names = p.stdout.splitlines()
    for si, idx in sorted(items):
        if si >= len(names):
            continue
        rc, res, fl2, err2 = run(binary, prof, prop, tier, tmp, only=(names[si], idx), limit=300)
        if rc == 1 and res:
            return res
        if rc not in (0, 1, 3, "timeout"):
            d2 = open(fl2, "rb").read()
            sp, ix, call = struct.unpack("<QQQ", d2[:24])
            if call:
                return {"result": "violation", "space": names[si], "idx": idx, "message": f"the implementation call kills the process (exit {rc}): {err2.strip()[-300:]}"}
    return None


def violation(prop, binary, prof, tier, res):
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    path = os.path.join(V, "replays", f"{prop}-{prof}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "binary": binary, "profile": prof, "tier": tier, "space": res["space"], "idx": res["idx"], "message": res["message"],
                   "replay": f"python3 /verif/check.py --replay {path}"}, f, indent=1)
    print(f"{prop} [{prof}] {res['space']} item {res['idx']}: {res['message']}")
    print(f"VIOLATION property={prop} replay={path}")


def evidence(prop, tier, runs, wall, violations):
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": violations == 0 and not any(c.get("left_out") for c in runs.values()), "builds": {}}
    for prof, c in runs.items():
        cov["states"] = max(cov["states"], c.get("states", 0))
        cov["transitions"] += c.get("transitions", 0)
        cov["traces_validated_against_impl"] += c.get("traces", 0)
        for s in c.get("samples", []):
            if s not in cov["samples"]:
                cov["samples"].append(s)
        cov["builds"][prof] = {k: v for k, v in c.items() if k != "samples"}
    cov["samples"] = cov["samples"][:24]
    cov["explanation"] = ("states: distinct (configuration, step, state) triples of the reference model visited (counted by 64-bit hash; a lower bound where a "
                          "space says so); transitions: model steps taken in all builds; traces_validated_against_impl: complete model executions whose result was "
                          "compared with the real code, in the optimised build without debug assertions (release) and with them (checked). exhaustive: every item of "
                          "every listed space was explored.")
    d = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
         "assumptions": ASSUME["*"] + ASSUME.get(prop, []), "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1)
    os.replace(tmp, os.path.join(V, "evidence", f"{prop}.json"))


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        sys.exit(0 if build(None) else 2)
    if a and a[0] == "--replay":
        r = json.load(open(a[1]))
        if not build(r["binary"]):
            sys.exit(2)
        with tempfile.TemporaryDirectory(prefix="pmc.") as tmp:
            rc, res, _, err = run(r["binary"], r["profile"], r["property"], r["tier"], tmp, only=(r["space"], r["idx"]), limit=600)
        print(res["message"] if res and "message" in res else f"exit {rc} {err[-500:]}")
        if rc == 1:
            print(f"VIOLATION property={r['property']} replay={a[1]}")
        sys.exit(rc if rc in (0, 1) else 1 if rc not in (3, "timeout") else 3)
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    binary = BIN[prop]
    t0 = time.time()
    if not build(binary):
        sys.exit(2)
    tb = time.time() - t0
    runs = {}
    rcode = 0
    with tempfile.TemporaryDirectory(prefix="pmc.") as tmp:
        for prof in PROFILES:
            # on a tree where the exploration is much larger than here: what is left after this time is left out
            left = TOTAL[tier] - (time.time() - t0)
            rc, res, inflight, err = run(binary, prof, prop, tier, tmp, budget=max(30, left * (0.65 if prof == PROFILES[0] else 1)))
            if res and "coverage" in res:
                runs[prof] = res["coverage"]
            if rc not in (0, 1, 3, "timeout"):
                res = crashed(binary, prof, prop, tier, tmp, inflight, err)
                if res:
                    rc = 1
            if rc == 1 and res:
                violation(prop, binary, prof, tier, res)
                rcode = 1
                break
            if rc != 0 or not res:
                print(f"ERROR {prop} [{prof}] exit {rc}: {(res or {}).get('message', '')} {err[-1500:]}", file=sys.stderr)
                sys.exit(3)
    evidence(prop, tier, runs, time.time() - t0, rcode)
    n = {p: f"{c.get('items')} items, {c.get('states')} states, {c.get('traces')} traces" for p, c in runs.items()}
    left = sum(c.get("left_out", 0) for c in runs.values())
    if left:
        print(f"{prop}: {left} items left out, out of time")
    print(f"{prop} {tier}: {'violated' if rcode else 'held'}; build {tb:.0f}s, total {time.time()-t0:.0f}s; {n}")
    sys.exit(rcode)


main()
