"""Runs harness/py_c16.py: hypothesis workers on pyeantic from /repo with libraries built from /repo."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EANTIC_REPO", "/repo")
PY = "/opt/vp/venv/bin/python"
SCRIPT = os.path.join(VERIF, "harness", "py_c16.py")
RULE = "C16: programs of up to 20 operations on fields and elements through pyeantic, and conversions of realalg fields and elements; non-trivial: at least two steps produce irrational elements"

def pyenv(env, lib, scratch):
    e = dict(env)
    e.pop("PYTHONHOME", None)
    e["PYTHONPATH"] = os.path.join(REPO, "pyeantic", "src")
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["EXTRA_CLING_ARGS"] = "-Wno-macro-redefined -I%s -I%s -I%s" % (os.path.join(REPO, "libeantic"), os.path.join(lib, "include"), os.path.join(lib, "include", "e-antic"))
    e["LD_LIBRARY_PATH"] = lib
    e["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hyp")
    e["PATH"] = "/opt/vp/venv/bin:" + e.get("PATH", "")
    return e

def run(sub, tier, seed, wall, replay=None, build=None, env=None, dirs=None, replays=None):
    lib = (dirs or build(["plain"]))["plain"]
    T = tempfile.mkdtemp(prefix="c16-")
    try:
        return _run(sub, tier, seed, wall, replay, pyenv(env, lib, T), replays, T)
    finally:
        shutil.rmtree(T, ignore_errors=True)

def call(args, e, T, timeout, **k):
    try:
        return subprocess.run([PY, SCRIPT] + args, env=e, cwd=T, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **k)
    except subprocess.TimeoutExpired:
        return None

def _run(sub, tier, seed, wall, replay, e, replays, T):
    if replay:
        p = call(["replay", replay], e, T, 300)
        print(p.stdout[-2000:] if p else "hang")
        return 1 if p is None or p.returncode else 0
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    W = 8
    n = {"quick": (1100, 350), "thorough": (12000, 3500)}[tier]
    wall = min(wall, 200) if tier == "quick" else wall
    t0 = time.time()
    procs = []
    for w in range(W):
        kind = "realalg" if w == W - 1 else "program"
        N = max(1, int((n[1] if w == W - 1 else n[0]) * scale))
        f = [os.path.join(T, "%s%d" % (x, w)) for x in ("out", "cur", "pick")]
        procs.append((w, kind, f, subprocess.Popen([PY, SCRIPT, "worker", kind, str(seed * 1000 + w), str(N), str(wall)] + f, env=e, cwd=T, stdin=subprocess.DEVNULL, stdout=open(os.path.join(T, "log%d" % w), "w"), stderr=subprocess.STDOUT), N))
    R = dict(evaluations=0, distinct_nontrivial=0, discarded=0, labels={}, samples=[], violations=[], rule=RULE, truncated=False, planned=0, unreproduced=0)
    fails, errors, distinct = [], [], set()
    end = t0 + wall + 150
    for w, kind, f, p, N in procs:
        R["planned"] += N
        hung = False
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); hung = True
        if os.path.exists(f[0]):
            o = json.load(open(f[0]))
            R["evaluations"] += o["evaluations"]; R["discarded"] += o["discarded"]; R["truncated"] |= o["truncated"]; distinct |= set(o["distinct"])
            for k, v in o["labels"].items(): R["labels"][k] = R["labels"].get(k, 0) + v
            R["samples"] += o["samples"][:1]
            if o["failure"]: fails.append((o["failure"]["program"], o["failure"]["message"], o["failure"]["first"], o["failure"]["first_message"], w))
            elif o.get("error"): errors.append(o["error"])
        elif os.path.exists(f[1]):
            P = json.loads(open(f[1]).read() or "null")
            log = open(os.path.join(T, "log%d" % w), errors="replace").read()[-3000:]
            if P: fails.append((P, "hang" if hung else "crash: the process ended with %d" % p.returncode, P, log, w))
        else:
            errors.append("worker %d: %s" % (w, open(os.path.join(T, "log%d" % w), errors="replace").read()[-1500:]))
    R["distinct_nontrivial"] = len(distinct)
    for P, msg, first, fmsg, w in fails:
        if R["violations"]: break
        for cand in (P, first):
            q, o = os.path.join(T, "p.json"), os.path.join(T, "s.json")
            json.dump(cand, open(q, "w"))
            call(["shrink", q, o, "40"], e, T, 400)
            s = json.load(open(o)) if os.path.exists(o) else dict(program=cand, message=msg)
            if s["message"] is not None: break
        if s["message"] is None:
            # passes on its own: it depends on what the process did before; the same run must fail again
            f = [os.path.join(T, "%s-again" % x) for x in ("out", "cur", "pick")]
            N = [x[4] for x in procs if x[0] == w][0]; kind = [x[1] for x in procs if x[0] == w][0]
            call(["worker", kind, str(seed * 1000 + w), str(N), str(wall)] + f, e, T, wall + 150)
            again = os.path.exists(f[1]) and (not os.path.exists(f[0]) or json.load(open(f[0]))["failure"])
            if not again:
                R["unreproduced"] += 1
                continue
            s = dict(program=P, message=msg + " (after other programs in the same process)")
        js = json.dumps(s["program"])
        path = os.path.join(replays, "C16.python-%s.txt" % hashlib.sha256(js.encode()).hexdigest()[:16])
        with open(path, "w") as g:
            g.write("check C16.python\nmessage %s\n%s\n" % (s["message"].replace("\n", " "), js))
        R["violations"].append(dict(replay=path, tag=s["message"].split(":")[0], message=s["message"], case=js[:3000], stderr=""))
    if not R["violations"] and not fails:
        loaded = 0
        for w, kind, f, p, N in procs:
            if kind != "program" or not os.path.exists(f[2]): continue
            q = call(["unpickle", f[2]], e, T, 300)
            if q is None or q.returncode == 1 and q.stdout.strip().startswith("{") or q.returncode not in (0, 1):
                t = q.stdout if q else "hang"
                path = os.path.join(replays, "C16.python-unpickle.txt")
                with open(path, "w") as g: g.write("check C16.python\nmessage an element pickled in another process is not restored\n%s\n" % t[-4000:])
                R["violations"].append(dict(replay=path, tag="unpickle", message="an element pickled in another process is not restored", case=t[-2000:], stderr=""))
                break
            elif q.returncode == 0: loaded += int(q.stdout.split()[-1])
            else: errors.append(q.stdout[-800:])
        R["labels"]["unpickled in another process"] = loaded
    if errors and not R["violations"]:
        # the harness itself failed on some cases: nothing is known about these
        sys.stderr.write("C16: %s\n" % "\n".join(errors))
        R["labels"]["harness errors"] = len(errors)
        if R["evaluations"] < R["planned"] // 2 and not R["truncated"]: sys.exit(3)
    R["gen_wall"] = time.time() - t0
    return R
