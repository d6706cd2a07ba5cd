"""Coverage-guided stage: libFuzzer processes with a fixed number of executions, on the sanitized library with shrunk caches."""
import glob, os, re, shutil, subprocess
import run

WORKERS = 8


def stage(c, mode, runs, d=None, max_len=20000):
    d = d or os.path.join(c.top, "fz")
    env = dict(os.environ)
    env.update(run.SAN_ENV)
    env["ASAN_OPTIONS"] = run.SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0").replace(":handle_abort=2", "")
    env.update(FUZZ_DIR=d, FUZZ_MODE=mode)
    ps = []
    for w in range(WORKERS):
        wd = os.path.join(d, "w%d" % w)
        os.makedirs(wd + "/corpus")
        env["FUZZ_STATS"] = wd + "/stats"
        log = open(wd + "/log", "wb")
        cmd = [c.exes["fuzz"], "-seed=%d" % (c.seed * 100 + w + 1), "-runs=%d" % runs, "-max_len=%d" % max_len, "-timeout=60",
               "-rss_limit_mb=3500", "-malloc_limit_mb=3200", "-len_control=0", "-use_value_profile=%d" % (w & 1), "-detect_leaks=0",
               "-print_final_stats=1", "-verbosity=1", "-reload=0", "-artifact_prefix=" + wd + "/", wd + "/corpus", d + "/seeds"]
        ps.append((w, wd, subprocess.Popen(cmd, env=dict(env), stdout=subprocess.DEVNULL, stderr=log, cwd=wd)))
    out = run.Out()
    for w, wd, p in ps:
        p.wait()
        txt = open(wd + "/log", errors="replace").read()
        m = re.search(r"number_of_executed_units: (\d+)", txt)
        out.add("guided_executions", int(m.group(1)) if m else 0)
        cov = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", txt)
        if cov:
            out.counts["guided_edges"] = max(out.counts.get("guided_edges", 0), int(cov[-1][0]))
            out.counts["guided_features"] = max(out.counts.get("guided_features", 0), int(cov[-1][1]))
            out.add("guided_corpus", int(cov[-1][2]))
        if os.path.exists(wd + "/stats"):
            for k, v in enumerate(open(wd + "/stats").read().split()):
                if int(v):
                    out.add("guided_rc_%d" % k, int(v))
        if p.returncode == 0:
            continue
        arts = [a for a in glob.glob(wd + "/*-*") if re.search(r"/(crash|oom|timeout|leak|slow-unit)-[0-9a-f]+$", a)]
        if any("/oom-" in a or "/timeout-" in a for a in arts) and not run.classify(txt):
            out.add("guided_oom_or_slow")
            out.incon += 1
            continue
        key = run.classify(txt)
        if key is None and not arts:
            c.errors.append("fuzzer %d ended with %d: %s" % (w, p.returncode, txt[-1500:]))
            continue
        files = {"input": arts[0]} if arts else {}
        files.update({"old%s" % os.path.basename(x): x for x in glob.glob(d + "/olds/*.rpm")})
        i = txt.find("ERROR: AddressSanitizer")
        i = i if i >= 0 else txt.find("runtime error")
        out.bad(key or "fuzzer stopped", "found by the coverage-guided stage (%s)\n%s" % (mode, txt[max(0, i - 200):][:6000]), files)
    c.merge(out)
    shutil.rmtree(d, ignore_errors=True)
