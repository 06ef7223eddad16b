"""Coverage-guided search for a failing case of a sub-check (libFuzzer on the bytes that the choices are drawn from)."""
import json, os, random, shutil, struct, subprocess, tempfile, time

CHOICES = 1 << 15                      # as in engine.hpp
JOBS = 8

def counters(path):
    try:
        with open(path, "rb") as f:
            f.seek(8 + 8 * CHOICES)
            return struct.unpack("<QQ", f.read(16))
    except (OSError, struct.error):
        return 0, 0

def run(sub, seed, seconds, result, bindir, env, reduce_cmd):
    """Fuzz for some time; adds what was found, and how much was tried, to the result of the random search."""
    tmp = tempfile.mkdtemp(prefix="fuzz")
    out = reduce_cmd[reduce_cmd.index("--out") + 1]
    evals = nontrivial = unreproduced = restarts = 0
    try:
        corpus = os.path.join(tmp, "corpus")
        os.mkdir(corpus)
        rng = random.Random(seed)
        for i in range(300):
            with open(os.path.join(corpus, "r%d" % i), "wb") as f:
                f.write(rng.randbytes(rng.choice([100, 400, 1500])))
        end = time.time() + seconds
        def start(j, k):
            rec = os.path.join(tmp, "rec%d.%d" % (j, k))
            e = dict(env, PBT_PROP=sub["name"], PBT_REC=rec)
            e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"] + ":handle_abort=0"
            cmd = [os.path.join(bindir, "pbt"), corpus, "-seed=%d" % (seed * 1000 + j * 100 + k + 1), "-max_len=4000", "-len_control=0", "-use_value_profile=1", "-timeout=150",
                   "-rss_limit_mb=3000", "-max_total_time=%d" % max(1, int(end - time.time())), "-artifact_prefix=%s/" % tmp, "-close_fd_mask=3", "-verbosity=0", "-detect_leaks=0"]
            return [j, k, rec, subprocess.Popen(cmd, env=e, cwd=tmp, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)]
        running = [start(j, 0) for j in range(JOBS)]
        while running and not result["violations"]:
            time.sleep(0.3)
            for r in list(running):
                j, k, rec, p = r
                if p.poll() is None:
                    if time.time() > end + 20: p.kill()
                    continue
                running.remove(r)
                a, b = counters(rec); evals += a; nontrivial += b
                if p.returncode > 0 or (p.returncode < 0 and time.time() < end):
                    subprocess.run(reduce_cmd + ["--recorded", rec], env=env, stdin=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    if os.path.exists(out):
                        d = json.load(open(out)); os.unlink(out)
                        result["violations"] += d["violations"]
                        unreproduced += not d["violations"]
                os.unlink(rec) if os.path.exists(rec) else None
                if time.time() < end - 2 and not result["violations"] and k < 50:
                    restarts += p.returncode != 0
                    running.append(start(j, k + 1))
        for j, k, rec, p in running:
            p.kill(); p.wait(); a, b = counters(rec); evals += a; nontrivial += b
        result["evaluations"] += evals
        result.setdefault("extra", {})["coverage_guided"] = dict(evaluations=evals, nontrivial=nontrivial, seconds=seconds, corpus=len(os.listdir(corpus)), unreproduced=unreproduced, restarts=restarts)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
