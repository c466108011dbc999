#!/usr/bin/env python3
"""check.py <property>: builds the monitor of one property against /repo's current tree, runs its
workloads, judges what the monitors recorded, writes evidence/<property>.json.
exit 0 held on everything explored, 1 violation (VIOLATION line), 2 the check itself failed."""
import sys, os, re, json, time, shutil, subprocess, threading, glob, queue, fnmatch
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import props as PR

VERIF = B.VERIF
ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
           OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_plm="isolated", OMPI_MCA_btl="self,vader",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_btl_base_warn_component_unused="0",
           HOME=os.environ.get("HOME", "/root"), LC_ALL="C.UTF-8")


class Job:
    def __init__(s, np, start, count, mode="", chunk=0, env=None, abort=False, prefix=()):
        s.prefix = list(prefix); s.np, s.start, s.count, s.mode, s.chunk, s.env, s.abort = np, start, count, mode, chunk, env or {}, abort


def run_mpi(exe, job, out, seed, tier, limit, budget, only=None, wall=None):
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    args = ["mpirun", "-np", str(job.np)] + job.prefix + [exe, "--out", out, "--seed", str(seed), "--tier", tier, "--limit", str(limit),
            "--budget", str(budget)]
    if job.mode: args += ["--mode", job.mode]
    args += ["--only", str(only)] if only is not None else ["--start", str(job.start), "--cases", str(job.count)]
    env = dict(ENV, TMPDIR=out)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0:log_path=%s/san" % out
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=66:log_path=%s/san" % out
    for k, v in job.env.items():
        env[k] = (env[k] + ":" + v) if k.endswith("_OPTIONS") and k in env else v
    log = open(os.path.join(out, "stdio"), "wb")
    p = subprocess.Popen(args, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=out, start_new_session=True)
    try:
        rc = p.wait(timeout=wall or budget + 4 * limit + 60)
    except subprocess.TimeoutExpired:
        rc = -999
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.wait()
    log.close()
    return rc


def parse(out):
    R = dict(viol=[], hang=[], cases=-1, done=None, stats={}, inter=set(), distinct=set(), samples=[], ended=0, desc={}, longest=(0, 0, 0))
    for f in glob.glob(out + "/np*.r*.log"):
        for line in open(f, errors="replace"):
            k, _, rest = line.rstrip("\n").partition(" ")
            if k == "V":
                m = re.match(r"case=(\d+) np=(\d+) rank=(\d+) \| (.*?) \| (.*)$", rest)
                if m: R["viol"].append(dict(case=int(m[1]), np=int(m[2]), rank=int(m[3]), msg=m[4], desc=m[5]))
            elif k == "C": R["cases"] = max(R["cases"], int(rest.split("=")[1]))
            elif k == "I":
                m = re.match(r"case=(\d+) (.*)$", rest)
                if m and ".r0." in f: R["desc"][int(m[1])] = (R["desc"].get(int(m[1]), "") + " " + m[2]).strip()
            elif k == "H":
                m = re.match(r"case=(\d+)", rest)
                if m: R["hang"].append(int(m[1]))
            elif k == "S":
                a, b = rest.rsplit(" ", 1); R["stats"][a] = R["stats"].get(a, 0) + int(b)
            elif k == "O": R["inter"].add(rest)
            elif k == "U": R["distinct"].add(rest)
            elif k == "X": R["samples"].append(rest)
            elif k == "D": R["done"] = int(rest)
            elif k == "L": R["longest"] = max(R["longest"], tuple(int(x) for x in rest.split()))
            elif k == "E": R["ended"] += 1
    return R


def crash_report(out):
    txt = ""
    for f in sorted(glob.glob(out + "/san*")):
        txt += open(f, errors="replace").read()
    std = open(out + "/stdio", errors="replace").read() if os.path.exists(out + "/stdio") else ""
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)", txt) or re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)", std)
    head = re.sub(r"0x[0-9a-f]+|==\d+==", "", m[1]) if m else ""
    fr = []
    for a, b in re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) (/[^\s]*?:\d+)", txt or std):
        if B.REPO + "/" in b:
            fr.append(re.sub(r"\(.*", "", a) + " " + b.replace(B.REPO + "/", "").split(":")[0])
    if not head:
        m = re.search(r"(PUMI error: [^\n]*)()", std) or re.search(r"([^\n]*(Assertion|terminate called|reel|PCU|MPI_ERR|signal \d+ |what\(\):)[^\n]*)", std)
        head = m[1].strip() if m else "abnormal exit"
    return (head + " in " + " < ".join(fr[:4])) if fr else head


class Checker:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.spec = PR.P[prop]
        s.viol, s.incon, s.stats, s.inter, s.distinct, s.samples = [], [], {}, set(), set(), []; s.longest = (0, 0, 0)
        s.evals = 0; s.lock = threading.Lock(); s.harness = []; s.notes = []
        s.rundir = os.path.join(B.BUILD, "run", "%s-%d" % (prop, os.getpid()))

    def jobs(s):
        out = []
        for j in s.spec["jobs"]:
            n = j["q"] * (s.spec.get("qmul", 1) if not j.get("abort") else 1) if s.tier == "quick" else j.get("t", j["q"] * 10)
            ch = j.get("chunks", 1)
            if s.tier != "quick": ch = max(ch, min(16, n // 40 or 1))
            per = (n + ch - 1) // ch
            for c in range(ch):
                if c * per < n: out.append(Job(j["np"], c * per, min(per, n - c * per), j.get("mode", ""), c, j.get("env"), j.get("abort", False)))
        return out

    def merge(s, R):
        with s.lock:
            for k, v in R["stats"].items(): s.stats[k] = s.stats.get(k, 0) + v
            s.inter |= R["inter"]; s.distinct |= R["distinct"]
            s.samples += R["samples"]; s.longest = max(s.longest, R["longest"])

    def add(s, msg, job, case, desc, kind):
        with s.lock: s.viol.append(dict(msg=msg, np=job.np, case=case, mode=job.mode, desc=desc, kind=kind, env=job.env))

    def do(s, exe, job, deadline):
        start, end, faults = job.start, job.start + job.count, 0
        limit = s.spec.get("limit", 20) * (1 if s.tier == "quick" else 2)
        out = os.path.join(s.rundir, "np%d-%s-%d" % (job.np, job.mode or "d", job.chunk))
        infra = 0
        if job.abort: return s.doomed(exe, job, out, limit, deadline)
        while start < end:
            left = deadline - time.time()
            if left < 1: return
            j = Job(job.np, start, end - start, job.mode, job.chunk, job.env)
            rc = run_mpi(exe, j, out, s.seed, s.tier, limit, left)
            R = parse(out); s.merge(R)
            for v in R["viol"]: s.add(v["msg"], job, v["case"], v["desc"], "oracle")
            if rc == 0 and R["ended"] == job.np:
                with s.lock: s.evals += R["done"] or 0
                break
            case = max(R["cases"], R["hang"][0] if R["hang"] else -1)
            if case < start:                        # never began a case
                std = open(out + "/stdio", errors="replace").read()[-1500:]
                rep = crash_report(out)
                if infra and ("Sanitizer" in rep or "Assertion" in rep): s.add("initialisation fails: " + rep, job, start, "", "crash"); return
                infra += 1
                if infra > 2:
                    with s.lock: s.harness.append("could not start np=%d: rc=%s %s" % (job.np, rc, std))
                    return
                time.sleep(1); continue
            with s.lock: s.evals += case - start + 1
            desc = R["desc"].get(case, "")
            if R["hang"] or rc in (97, -999):
                if s.viol and not s.known(): return     # something else failed already: no need to wait for this one
                rc2 = run_mpi(exe, j, out + "-hang", s.seed, s.tier, limit * 3, 1e9, only=case, wall=limit * 3 + 60)
                R2 = parse(out + "-hang")
                if R2["hang"] or rc2 in (97, -999): s.add("does not terminate (no progress in %d s, twice)" % (limit * 3), job, case, desc, "hang")
                elif rc2 == 0:
                    with s.lock: s.incon.append("np=%d case=%d exceeded %d s once, finished when run alone" % (job.np, case, limit))
                    for v in R2["viol"]: s.add(v["msg"], job, v["case"], v["desc"], "oracle")
                else: s.add("crash: " + crash_report(out + "-hang"), job, case, desc, "crash")
            elif rc in (137, -9):
                rc2 = run_mpi(exe, j, out + "-kill", s.seed, s.tier, limit * 3, 1e9, only=case, wall=limit * 3 + 60)
                with s.lock: s.incon.append("np=%d case=%d was killed from outside (rc %s, alone %s)" % (job.np, case, rc, rc2))
            else:
                s.add("crash: " + crash_report(out), job, case, desc, "crash")
            faults += 1
            if faults >= (2 if s.tier == "quick" else 6): break
            start = case + 1

    def doomed(s, exe, job, out, limit, deadline):
        """every case has to end the whole run with an error"""
        for case in range(job.start, job.start + job.count):
            if time.time() > deadline: return
            for again in range(2):
                rc = run_mpi(exe, job, out, s.seed, s.tier, limit * (1 + 2 * again), 1e9, only=case, wall=limit * (1 + 2 * again) + 40)
                R = parse(out); hang = R["hang"] or rc in (97, -999)
                if not hang: break
            std = open(out + "/stdio", errors="replace").read()
            with s.lock: s.evals += 1
            s.merge(R)
            desc = R["desc"].get(case, "")
            for v in R["viol"]: s.add(v["msg"], job, v["case"], v["desc"], "oracle")
            if hang: s.add("does not end although an error has to be reported", job, case, desc, "hang")
            elif "Sanitizer" in std or glob.glob(out + "/san*"): s.add("crash: " + crash_report(out), job, case, desc, "crash")
            elif rc == 0 and not R["viol"]: s.add("ends without an error", job, case, desc, "oracle")
            elif not R["viol"]:
                with s.lock: s.stats["aborted_as_expected"] = s.stats.get("aborted_as_expected", 0) + 1; s.distinct.add("%s %s %d %d" % (desc, job.mode, job.np, case))

    def known(s):
        out = []
        f = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(f):
            for l in open(f):
                m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", l.strip())
                if m and m[1] == s.prop: out.append((re.compile(m[2]), m[3]))
        return out

    def main(s):
        t0 = time.time()
        sp = s.spec
        mods = sp["mod"] if isinstance(sp["mod"], list) else [sp["mod"]]
        exe = B.build(mods[0], sp.get("flavour", "san"), sp.get("pcu", False), sp.get("wraps", ()), sp.get("src", ()), sp.get("defs", ()), sp.get("libdefs", ()), sp.get("ldflags", ()))
        B.prune()
        tb = time.time() - t0
        shutil.rmtree(s.rundir, ignore_errors=True); os.makedirs(s.rundir)
        wall = sp.get("wall", 200) if s.tier == "quick" else sp.get("twall", 700)
        deadline = time.time() + wall
        slots = sp.get("slots", 10)
        if "runner" in sp:
            sp["runner"](s, exe, deadline)
        else:
            todo = sorted(s.jobs(), key=lambda j: -j.np * j.count)
            cv = threading.Condition(); free = [slots]
            th = []

            def worker(j, need):
                try: s.do(exe, j, deadline)
                except Exception as e:
                    with s.lock: s.harness.append("%r" % e)
                finally:
                    with cv: free[0] += need; cv.notify_all()
            while todo:
                with cv:
                    pick = None
                    while pick is None:
                        for j in todo:
                            if min(j.np, slots) <= free[0]: pick = j; break
                        if pick is None: cv.wait()
                    need = min(pick.np, slots); free[0] -= need
                todo.remove(pick)
                t = threading.Thread(target=worker, args=(pick, need)); t.start(); th.append(t)
            for t in th: t.join()
        if "post" in sp: sp["post"](s)
        return s.verdict(t0, tb)

    def verdict(s, t0, tb):
        kn = s.known(); new, seen = [], {}
        for v in s.viol:
            hit = next((d for r, d in kn if r.search(v["msg"])), None)
            if hit: seen[hit] = seen.get(hit, 0) + 1
            else: new.append(v)
        for r, d in kn: print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (s.prop, d, seen.get(d, 0)))
        sp = s.spec
        cov = dict(evaluations=s.evals, distinct_nontrivial=len(s.distinct), rule=sp["rule"], samples=sorted(s.samples)[:8] if s.samples else [],
                   monitors_observed={k: s.stats[k] for k in sorted(s.stats)}, build_s=round(tb, 1),
                   longest_case="%d ms (np=%d case %d)" % s.longest)
        if s.inter: cov["distinct_arrival_orders"] = len(s.inter)
        if s.incon: cov["inconclusive"] = s.incon
        if s.notes: cov["notes"] = s.notes
        ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level=sp.get("level", "exploration"), coverage=cov,
                  assumptions=sp.get("assumptions", []) + PR.COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", s.prop + ".json"), "w"), indent=1)
        shutil.rmtree(s.rundir, ignore_errors=True)
        if new:
            rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
            done, i = set(), 0
            for v in new:
                key = re.sub(r"[-\d.e+]+", "#", v["msg"])[:160]
                if key in done: continue
                done.add(key); i += 1
                if i > 8: break
                path = os.path.join("evidence", "replay", "%s-%d.json" % (s.prop, i))
                json.dump(dict(property=s.prop, seed=s.seed, tier=s.tier, **v), open(os.path.join(VERIF, path), "w"), indent=1)
                print("VIOLATION property=%s replay=%s  np=%d case=%d: %s [%s]" % (s.prop, path, v["np"], v["case"], v["msg"][:400], v["desc"][:300]))
            print("%d violations; replay with: python3 tools/check.py %s --replay <path>" % (len(new), s.prop))
            return 1
        for r, n in sp.get("require", {}).items():
            if s.stats.get(r, 0) < n: s.harness.append("observed only %d of %s, needs %d" % (s.stats.get(r, 0), r, n))
        if s.evals < sp.get("min_evals", 20): s.harness.append("only %d evaluations" % s.evals)
        if s.harness:
            print("ERROR: " + "; ".join(s.harness)); return 2
        print("%s held on %d executions (%d distinct non-trivial), %.0f s; %s" % (s.prop, s.evals, len(s.distinct), time.time() - t0,
              ", ".join("%s=%d" % (k, s.stats[k]) for k in sorted(s.stats))[:600]))
        if s.incon: print("inconclusive: " + "; ".join(s.incon))
        return 0


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if "--replay" in sys.argv:
        v = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        s = Checker(prop, v["tier"], v["seed"]); sp = s.spec
        exe = B.build(sp["mod"], sp.get("flavour", "san"), sp.get("pcu", False), sp.get("wraps", ()), sp.get("src", ()), sp.get("defs", ()), sp.get("libdefs", ()), sp.get("ldflags", ()))
        out = os.path.join(B.BUILD, "run", "replay-" + prop)
        rc = run_mpi(exe, Job(v["np"], 0, 1, v.get("mode", ""), 0, v.get("env")), out, v["seed"], v["tier"], 60, 1e9, only=v["case"], wall=200)
        R = parse(out)
        print("rc", rc, crash_report(out) if rc else ""); [print(x) for x in R["viol"][:20]]
        print(open(out + "/stdio", errors="replace").read()[-3000:])
        return 1 if rc or R["viol"] else 0
    try:
        return Checker(prop, tier, seed).main()
    except B.BuildError as e:
        print("ERROR: build failed\n" + str(e)); return 2


if __name__ == "__main__":
    sys.exit(main())
