#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property on /repo's working tree
   check.py --replay FILE          re-run a saved failure

Builds what it needs from /repo, drives every generated sub-check of the
property, writes evidence/ID.json.  Exit 0: held on everything explored; exit 1
with "VIOLATION property=ID replay=PATH": broken; exit 3: no verdict (the tree
does not compile, ...).
"""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import fuzzer, subchecks

def known_findings():
    """Lines `KNOWN <sub> <tag> <regex on the case or message> :: description` of known-findings.txt."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN\s+(\S+)\s+(\S+)\s+/(.*)/\s+::\s+(.*)$", line.rstrip("\n"))
            if m:
                out.append(dict(sub=m.group(1), tag=m.group(2), rx=re.compile(m.group(3), re.S), text=m.group(4)))
    return out

def build(kinds):
    p = subprocess.run([sys.executable, os.path.join(VERIF, "tools/build_lib.py")] + kinds, stdout=subprocess.PIPE, text=True)
    if p.returncode:
        sys.stderr.write("check: the tree does not build\n")
        sys.exit(3)
    return dict(zip(kinds, p.stdout.split()))

def env_for(sub):
    e = dict(os.environ)
    e.pop("LIBEANTIC_STRICT_BINOP", None)
    asan = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:quarantine_size_mb=4:handle_abort=1:max_allocation_size_mb=4096"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["ASAN_OPTIONS"] = asan + (":" + sub["asan"] if sub.get("asan") else "")
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
    e.update(sub.get("env", {}))
    return e

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        first = open(sys.argv[2]).readline().split()
        name = first[1]
        sub = [x for v in subchecks.CHECKS.values() for x in v if x["name"] == name][0]
        if sub.get("runner"):
            return sub["runner"](sub, None, None, None, replay=sys.argv[2], build=build, env=env_for(sub))
        kind = sub.get("kind", "asan")
        d = build([kind])[kind]
        return subprocess.call(sub.get("wrap", []) + [os.path.join(d, "pbt"), "--replay", sys.argv[2]], env=env_for(sub))

    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    subs = [s for s in subchecks.CHECKS[pid] if tier == "thorough" or not s.get("thorough_only")]
    t0 = time.time()
    kinds = sorted({s.get("kind", "asan") for s in subs if s.get("kind", "asan")})
    dirs = build(kinds)
    t_build = time.time() - t0
    budget = float(os.environ.get("VERIF_BUDGET", "450" if tier == "quick" else "5400"))
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = known_findings()
    res, viol, seen_known, errors = [], [], [], []
    weights = sum(s.get("weight", 1) for s in subs)
    fuzz = float(os.environ.get("VERIF_FUZZ", "240" if tier == "thorough" else "0"))
    for i, s in enumerate(subs):
        left = budget - (time.time() - t0)
        rest = sum(x.get("weight", 1) for x in subs[i:])
        wall = max(15.0, left * s.get("weight", 1) / rest)
        out = os.path.join(VERIF, "evidence", ".%s.%d.json" % (s["name"], os.getpid()))
        if s.get("runner"):
            r = s["runner"](s, tier, seed, wall, build=build, env=env_for(s), dirs=dirs, replays=replays)
        else:
            cmd = s.get("wrap", []) + [os.path.join(dirs[s.get("kind", "asan")], "pbt"), "--prop", s["name"], "--seed", str(seed), "--out", out, "--replays", replays,
                   "--wall", "%.0f" % wall, "--shrink", "40", "--maxfail", "8" if any(k["sub"] == s["name"] for k in known) else "1"]
            if tier == "thorough":
                cmd.append("--thorough")
            sc = os.environ.get("VERIF_SCALE")
            if sc: cmd += ["--scale", sc]
            p = subprocess.run(cmd, env=env_for(s), cwd=VERIF, stdin=subprocess.DEVNULL)
            if not os.path.exists(out):
                errors.append("%s: harness ended with %d" % (s["name"], p.returncode))
                continue
            r = json.load(open(out))
            os.unlink(out)
            if fuzz and not r["violations"] and s.get("kind", "asan") == "asan":
                fuzzer.run(s, seed, fuzz, r, build(["fuzz"])["fuzz"], env_for(s), [os.path.join(dirs["asan"], "pbt"), "--prop", s["name"], "--seed", str(seed), "--out", out, "--replays", replays, "--shrink", "40"])
        for v in r["violations"]:
            hit = [k for k in known if k["sub"] == s["name"] and k["tag"] in (v["tag"], "*") and k["rx"].search(v["case"] + "\n" + v["message"] + "\n" + v.get("stderr", ""))]
            if hit:
                seen_known.append((hit[0], v))
            else:
                viol.append((s, v))
        res.append((s, r))
        if viol:
            break
    ev = sum(r["evaluations"] for _, r in res)
    dn = sum(r["distinct_nontrivial"] for _, r in res)
    samples = []
    for s, r in res:
        for x in r["samples"][:2]:
            samples.append({"check": s["name"], "case": x})
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": dn,
            "rule": " | ".join("%s: %s" % (s["name"], r["rule"]) for s, r in res),
            "samples": samples,
            "sub_checks": [dict(name=s["name"], evaluations=r["evaluations"], planned=r.get("planned"), distinct_nontrivial=r["distinct_nontrivial"],
                                discarded=r.get("discarded", 0), truncated=r.get("truncated", False), unreproduced=r.get("unreproduced", 0),
                                classes=r.get("labels", {}), wall_s=round(r.get("gen_wall", 0), 2), **r.get("extra", {})) for s, r in res],
            "build_s": round(t_build, 2),
        },
        "assumptions": subchecks.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    for k in {k["text"] for k, _ in seen_known}:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for s, v in viol:
        print("%s [%s] %s" % (s["name"], v["tag"], v["message"]))
        print("\n".join("  | " + l for l in v["case"].splitlines()[:40]))
        if v.get("stderr"):
            print("\n".join("  ! " + l for l in v["stderr"].splitlines()[:12]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    if viol:
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 3
    for s, r in res:
        print("%-10s %8d cases, %8d distinct non-trivial, %5d discarded%s, %.1f s" % (s["name"], r["evaluations"], r["distinct_nontrivial"], r.get("discarded", 0), " (time budget reached)" if r.get("truncated") else "", r.get("gen_wall", 0)))
    print("property %s held on %d cases (%d distinct non-trivial), %.1f s" % (pid, ev, dn, time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
