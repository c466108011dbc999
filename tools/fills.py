"""S03: the same programs under different fillings of fresh memory, and under memcheck."""
import glob, os, re, threading, time, shutil
import xml.etree.ElementTree as ET
import build as B

# name, flavour of the library build (how fresh stack variables are filled), environment (how fresh heap blocks are filled)
FILLS = [("stack 0x00 heap 0x00", "fill0", {"MALLOC_PERTURB_": "255"}),
         ("stack 0xFE heap 0xFE", "fillp", {"MALLOC_PERTURB_": "1"}),
         ("stack 0x00 heap 0xAA", "fill0", {"MALLOC_PERTURB_": "85"}),
         ("stack 0xFE heap 0x55", "fillp", {"MALLOC_PERTURB_": "170"}),
         ("as found", "plain", {"SOIL": "91"})]
NOCACHE = {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}


def outcomes(out):
    T, done = {}, {}
    for f in glob.glob(out + "/np*.r*.log"):
        rank = int(re.search(r"\.r(\d+)\.log", f)[1])
        for l in open(f, errors="replace"):
            if l.startswith("T "):
                _, c, i, h, name = l.rstrip("\n").split(" ", 4)
                T.setdefault(int(c), {})[(rank, int(i))] = (h, name)
    return T


def memcheck_errors(out):
    R = []
    for f in glob.glob(out + "/vg.*.xml"):
        txt = open(f, errors="replace").read()
        for e in re.findall(r"<error>.*?</error>", txt, re.S):
            try: x = ET.fromstring(re.sub(r"&(?!amp;|lt;|gt;|quot;|apos;)", "&amp;", e))
            except ET.ParseError: continue
            if x.findtext("kind") not in ("UninitCondition", "UninitValue"): continue
            st = x.find("stack"); fr = [(y.findtext("fn") or "", y.findtext("dir") or "", y.findtext("file") or "", y.findtext("obj") or "") for y in st.findall("frame")]
            # the value is used by the program itself, perhaps through the C or C++ library
            i = 0
            while i < len(fr) and re.search(r"vgpreload|libc\.so|libstdc\+\+|libm\.so", fr[i][3]): i += 1
            if i >= len(fr) or "/s03-" not in fr[i][3]: continue
            own = [y for y in fr[i:] if y[1].startswith(B.REPO) or "/mon" in y[1]]
            R.append("%s in %s" % ("decision taken on an undefined value" if x.findtext("kind") == "UninitCondition" else "address computed from an undefined value",
                                   " < ".join("%s (%s)" % (re.sub(r"\(.*", "", y[0]), y[2]) for y in own[:4])))
    return sorted(set(R))


def run(s, exe, deadline):
    import check as CK
    sp = s.spec; tier = s.tier
    exes = {fl: B.build(sp["mod"], fl, False, sp.get("wraps", ()), sp.get("src", ())) for fl in ("fill0", "fillp", "plain")}
    deadline = time.time() + (sp.get("wall", 60) if tier == "quick" else sp.get("twall", 700))
    limit = sp.get("limit", 60)
    todo = []
    for j in s.jobs(): todo.append(j)
    todo.sort(key=lambda j: (j.mode != "memcheck", -j.np * j.count))
    slots = sp.get("slots", 10); cv = threading.Condition(); free = [slots]; th = []

    def one(j):
        base = os.path.join(s.rundir, "np%d-%s-%d" % (j.np, j.mode or "d", j.chunk))
        if j.mode == "memcheck":
            out = base; shutil.rmtree(out, ignore_errors=True)
            pre = ["valgrind", "-q", "--xml=yes", "--xml-file=" + out + "/vg.%p.xml", "--undef-value-errors=yes", "--leak-check=no", "--num-callers=20", "--error-limit=no"]
            k = CK.Job(j.np, j.start, j.count, j.mode, j.chunk, None, False, pre)
            left = max(5, deadline - time.time())
            rc = CK.run_mpi(exes["plain"], k, out, s.seed, tier, limit * 20, left * 0.7, wall=left + 240)
            R = CK.parse(out); s.merge(R)
            for m in memcheck_errors(out): s.add(m, j, R["cases"], "memcheck", "oracle")
            with s.lock:
                s.evals += R["done"] or 0; s.stats["memcheck_programs"] = s.stats.get("memcheck_programs", 0) + (R["done"] or 0)
                if rc != 0 and R["ended"] != j.np: s.incon.append("memcheck run np=%d ended with %s after %s cases" % (j.np, rc, R["cases"]))
            return
        ref = None
        for n, (name, fl, env) in enumerate(FILLS):
            out = base + "-%d" % n; start, end = j.start, j.start + j.count; T = {}; faults = 0
            while start < end:
                left = deadline - time.time()
                if left < 1: break
                k = CK.Job(j.np, start, end - start, j.mode, j.chunk, dict(NOCACHE, **env))
                rc = CK.run_mpi(exes[fl], k, out, s.seed, tier, limit, left / (len(FILLS) - n))
                R = CK.parse(out); s.merge(R); T.update(outcomes(out))
                for v in R["viol"]: s.add(v["msg"], k, v["case"], v["desc"] + " | " + name, "oracle")
                if rc == 0 and R["ended"] == j.np:
                    with s.lock: s.evals += R["done"] or 0
                    break
                case = max(R["cases"], R["hang"][0] if R["hang"] else -1)
                T.pop(case, None)
                if case < start:
                    faults += 1
                    if faults > 2:
                        with s.lock: s.harness.append("could not start np=%d under %s: %s" % (j.np, name, CK.crash_report(out)))
                        break
                    time.sleep(1); continue
                # does it end that way again, alone?
                rc2 = CK.run_mpi(exes[fl], k, out + "-again", s.seed, tier, limit * 3, 1e9, only=case, wall=limit * 3 + 60)
                if rc2 != 0 and rc not in (137, -9): s.add(("crash: " + CK.crash_report(out)) if not R["hang"] else "does not terminate", k, case, R["desc"].get(case, "") + " | " + name, "crash")
                else:
                    with s.lock: s.incon.append("np=%d case=%d under %s ended with %s once, with %s alone" % (j.np, case, name, rc, rc2))
                faults += 1
                if faults > 2: break
                start = case + 1
            shutil.rmtree(out, ignore_errors=True)
            with s.lock: s.stats["fills"] = max(s.stats.get("fills", 0), n + 1)
            if ref is None: ref = T; continue
            bad = 0
            for c in sorted(set(ref) & set(T)):
                a, b = ref[c], T[c]
                with s.lock: s.stats["outcomes_compared"] = s.stats.get("outcomes_compared", 0) + len(a)
                if a == b: continue
                first = min((k for k in set(a) | set(b) if a.get(k) != b.get(k)), key=lambda k: (k[1], k[0]))
                what = (a.get(first) or b.get(first))[1]
                s.add("%s on process %d gives another result when fresh memory holds something else (%s / %s)" % (what, first[0], FILLS[0][0], name), k, c, "", "oracle")
                bad += 1
                if bad > 5: break

    def worker(j, need):
        try: one(j)
        except Exception as e:
            with s.lock: s.harness.append("%r" % e)
        finally:
            with cv: free[0] += need; cv.notify_all()
    while todo:
        with cv:
            pick = None
            while pick is None:
                for j in todo:
                    if min(j.np, slots) <= free[0]: pick = j; break
                if pick is None: cv.wait()
            need = min(pick.np, slots); free[0] -= need
        todo.remove(pick)
        t = threading.Thread(target=worker, args=(pick, need)); t.start(); th.append(t)
    for t in th: t.join()
