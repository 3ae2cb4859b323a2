"""Shared driver code: builds the IR of /repo's current sources, the symbolic engine and the native
replay library, and distributes jobs over engine processes."""
import hashlib, json, os, subprocess, sys, threading, time, queue, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
NCPU = min(8, os.cpu_count() or 8)
BACKENDS = {"SSE2": ["-msse2", "-DUSE_SSE2", "-DOTFFT_NAMESPACE=OTFFT_SSE2"],
            "AVX": ["-mavx", "-DUSE_AVX", "-DOTFFT_NAMESPACE=OTFFT_AVX"],
            "AVX2": ["-mavx2", "-DUSE_AVX2", "-DOTFFT_NAMESPACE=OTFFT_AVX2"]}
OPT = {"SSE2": 1, "AVX": 2, "AVX2": 3}
ALGO = ["otfft_algo", "otfft_algo_dif4", "otfft_algo_dit4", "otfft_algo_dif8", "otfft_algo_dit8",
        "otfft_algo_dif16", "otfft_algo_dit16", "otfft_algo_mixed", "otfft_algo_sixstep"]
CLANG = shutil.which("clang++-18") or "clang++"
LLVMLINK = shutil.which("llvm-link-18") or "/usr/lib/llvm-18/bin/llvm-link"
IRFLAGS = ["-std=c++11", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off",
           "-fno-math-errno", "-DNDEBUG", "-fopenmp", "-fPIC", "-w", "-emit-llvm", "-c"]
GXXFLAGS = ["-O3", "-DNDEBUG", "-fPIC", "-fopenmp", "-msse", "-msse2", "-mfpmath=sse", "-std=c++11", "-frounding-math",
            "-fno-finite-math-only", "-fsignaling-nans", "-fpermissive", "-w"]


class Inconclusive(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise Inconclusive("command failed: %s\n%s" % (" ".join(map(str, cmd)), r.stdout[-3000:]))
    return r.stdout


def files_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def listdir(d):
    return [os.path.join(d, f) for f in os.listdir(d) if os.path.isfile(os.path.join(d, f))]


def repo_sources():
    return [f for f in listdir(REPO + "/src") + listdir(REPO + "/inc") if not f.endswith("otfft_config.h")]


def algo_sources():
    """All algorithm translation units (the build's list; new ones are picked up)."""
    known = [a for a in ALGO if os.path.exists(REPO + "/src/" + a + ".cpp")]
    extra = sorted(os.path.basename(f)[:-4] for f in listdir(REPO + "/src")
                   if f.endswith(".cpp") and os.path.basename(f)[:-4] not in ALGO + ["otfft"])
    return known + extra


def cfg_dir(macros, tag):
    d = os.path.join(CACHE, "cfg-" + tag)
    os.makedirs(d, exist_ok=True)
    txt = "#pragma once\n" + "".join("#define %s\n" % m for m in macros)
    p = os.path.join(d, "otfft_config.h")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)
    return d


def stage(tmp):
    """Copies /repo's current sources next to each other without the generated configuration header (it would shadow ours)."""
    for d in ("inc", "src"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(tmp, d), ignore=lambda p, ns: [n for n in ns if n in ("otfft_config.h", "CMakeFiles")])
    return os.path.join(tmp, "inc"), os.path.join(tmp, "src")


def pool_run(cmds):
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(sh, cmds))


def prune(prefix, keep):
    """Keeps the cache small: drop other entries of the same kind."""
    ents = [e for e in os.listdir(CACHE) if e.startswith(prefix) and e != keep]
    ents.sort(key=lambda e: os.path.getmtime(os.path.join(CACHE, e)))
    for e in ents[:-3]:
        shutil.rmtree(os.path.join(CACHE, e), ignore_errors=True)


def build_ir(log=None):
    """Compiles /repo's current sources (all back ends) and the harness to LLVM IR, returns path of the linked bitcode."""
    os.makedirs(CACHE, exist_ok=True)
    hs = [VERIF + "/harness/harness.cpp", VERIF + "/harness/cplx.cpp"]
    key = files_hash(repo_sources() + hs, " ".join(IRFLAGS))
    d = os.path.join(CACHE, "ir-" + key)
    out = os.path.join(d, "all.bc")
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix="irtmp-", dir=CACHE)
    try:
        cfg = cfg_dir(["OTFFT_WITH_SSE2", "OTFFT_WITH_AVX", "OTFFT_WITH_AVX2"], "all")
        sinc, ssrc = stage(tmp)
        inc = ["-I" + cfg, "-I" + sinc, "-I" + ssrc, "-I" + VERIF + "/harness/compat"]
        cmds, outs = [], []
        for be, fl in BACKENDS.items():
            for a in algo_sources():
                o = "%s/%s_%s.bc" % (tmp, be, a)
                cmds.append([CLANG] + IRFLAGS + fl + inc + [ssrc + "/" + a + ".cpp", "-o", o])
                outs.append(o)
        allu = ["-DUSE_SSE2", "-DUSE_AVX", "-DUSE_AVX2"]
        for src, o in [(ssrc + "/otfft.cpp", "otfft"), (hs[0], "harness"), (hs[1], "cplx")]:
            cmds.append([CLANG] + IRFLAGS + allu + inc + [src, "-o", "%s/%s.bc" % (tmp, o)])
            outs.append("%s/%s.bc" % (tmp, o))
        order = sorted(range(len(cmds)), key=lambda i: -sum(w in outs[i] for w in ("dif16", "dit16", "sixstep", "algo.bc")))
        pool_run([cmds[i] for i in order])
        sh([LLVMLINK, "-o", tmp + "/all.bc", tmp + "/otfft.bc", tmp + "/harness.bc", tmp + "/cplx.bc"] + outs[:-3])
        for o in outs:
            os.unlink(o)
        for sub in ("inc", "src"):
            shutil.rmtree(os.path.join(tmp, sub), ignore_errors=True)
        try:
            os.rename(tmp, d)
        except OSError:
            pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prune("ir-", os.path.basename(d))
    return out


SZFLAGS = [f for f in IRFLAGS if f not in ("-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops")]
LLVMOPT = shutil.which("opt-18") or "/usr/lib/llvm-18/bin/opt"
SZ_SKIP = ["otfft_algo_dif4", "otfft_algo_dit4", "otfft_algo_dif8", "otfft_algo_dit8", "otfft_algo_dif16", "otfft_algo_dit16", "otfft_algo_sixstep"]


def build_size_ir():
    """IR for the executor over symbolic lengths: straight from the front end (signed-overflow flags intact), only memory-to-register promotion."""
    os.makedirs(CACHE, exist_ok=True)
    hs = [VERIF + "/harness/harness.cpp"]
    key = files_hash(repo_sources() + hs, " ".join(SZFLAGS) + "size2")
    d = os.path.join(CACHE, "sz-" + key)
    out = os.path.join(d, "size.bc")
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix="sztmp-", dir=CACHE)
    try:
        cfg = cfg_dir(["OTFFT_WITH_SSE2", "OTFFT_WITH_AVX", "OTFFT_WITH_AVX2"], "all")
        sinc, ssrc = stage(tmp)
        inc = ["-I" + cfg, "-I" + sinc, "-I" + ssrc, "-I" + VERIF + "/harness/compat"]
        units = [(ssrc + "/otfft.cpp", "otfft", ["-DUSE_SSE2", "-DUSE_AVX", "-DUSE_AVX2"]), (hs[0], "harness", ["-DUSE_SSE2", "-DUSE_AVX", "-DUSE_AVX2"])]
        for be, fl in BACKENDS.items():
            for a in algo_sources():
                if a not in SZ_SKIP:
                    units.append((ssrc + "/" + a + ".cpp", "%s_%s" % (be, a), fl))

        def unit(u):
            sh([CLANG] + SZFLAGS + ["-Xclang", "-disable-llvm-passes"] + u[2] + inc + [u[0], "-o", tmp + "/" + u[1] + ".raw.bc"])
            sh([LLVMOPT, "-passes=function(lower-expect,sroa,early-cse,simplifycfg)", tmp + "/" + u[1] + ".raw.bc", "-o", tmp + "/" + u[1] + ".bc"])
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(unit, units))
        sh([LLVMLINK, "-o", tmp + "/size.bc"] + [tmp + "/" + u[1] + ".bc" for u in units])
        for u in units:
            os.unlink(tmp + "/" + u[1] + ".bc")
            os.unlink(tmp + "/" + u[1] + ".raw.bc")
        for sub in ("inc", "src"):
            shutil.rmtree(os.path.join(tmp, sub), ignore_errors=True)
        try:
            os.rename(tmp, d)
        except OSError:
            pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prune("sz-", os.path.basename(d))
    return out


def build_engine(sub="engine", exe="symx"):
    os.makedirs(CACHE, exist_ok=True)
    src = listdir(VERIF + "/" + sub)
    key = files_hash(src)
    d = os.path.join(CACHE, "%s-%s" % ({"engine": "eng", "engine2": "szeng"}[sub], key))
    out = os.path.join(d, exe)
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix="engtmp-", dir=CACHE)
    try:
        cpps = sorted(f for f in src if f.endswith(".cpp"))
        cmds = [[CLANG, "-std=c++17", "-O2", "-w", "-I/usr/lib/llvm-18/include", "-c", f, "-o",
                 tmp + "/" + os.path.basename(f)[:-4] + ".o"] for f in cpps]
        pool_run(cmds)
        sh(["g++", "-o", tmp + "/" + exe] + [c[-1] for c in cmds] + ["-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3", "-lpthread"])
        for c in cmds:
            os.unlink(c[-1])
        for sub in ("inc", "src"):
            shutil.rmtree(os.path.join(tmp, sub), ignore_errors=True)
        try:
            os.rename(tmp, d)
        except OSError:
            pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prune(os.path.basename(d).split("-")[0] + "-", os.path.basename(d))
    return out


WRAPS = ["free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "posix_memalign", "malloc", "calloc", "aligned_alloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"]


def build_native(backends=("SSE2", "AVX", "AVX2"), asan=False, flags=("-O1",), san="address"):
    """Real library + harness as a native program; used to replay counterexamples."""
    os.makedirs(CACHE, exist_ok=True)
    tag = {"address": "asan", "thread": "tsan", "alignment": "alsan"}[san] if asan else "nat"
    tsan = asan and san == "thread"
    hs = [VERIF + "/harness/harness.cpp", VERIF + "/harness/cplx.cpp", VERIF + "/harness/replay.cpp"]
    if tsan:
        hs.append(VERIF + "/harness/minigomp.cpp")
    cxx = [CLANG] if asan and not tsan else ["g++"]
    fl0 = [f for f in GXXFLAGS if not (asan and f in (("-fsignaling-nans",) if tsan else ("-fsignaling-nans", "-fpermissive", "-fopenmp")))] + list(flags)
    link = ["-fopenmp"]
    if tsan:
        fl0 += ["-g1", "-fsanitize=thread", "-DNO_INTERPOSE"]
        link = ["-fsanitize=thread"]
    elif asan:
        fl0 += ["-fopenmp=libgomp", "-O1", "-g1", "-fsanitize=" + san, "-DNO_INTERPOSE", "-DWRAP_ALLOC", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops"]
        link = ["-fsanitize=" + san, "-fopenmp=libgomp"] + ["-Wl,--wrap=" + w for w in WRAPS]
        if san == "alignment":
            fl0.append("-fno-sanitize-recover=all")
    key = files_hash(repo_sources() + hs + [VERIF + "/harness/cplx_list.h"], " ".join(cxx + fl0) + ",".join(backends))
    d = os.path.join(CACHE, tag + "-" + key)
    out = os.path.join(d, "replay")
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix=tag + "tmp-", dir=CACHE)
    try:
        cfg = cfg_dir(["OTFFT_WITH_" + b for b in backends], "-".join(backends))
        sinc, ssrc = stage(tmp)
        inc = ["-I" + cfg, "-I" + sinc, "-I" + ssrc, "-I" + VERIF + "/harness"] + (["-I" + VERIF + "/harness/compat"] if asan and not tsan else [])
        cmds = []
        for be in backends:
            for a in algo_sources():
                cmds.append(cxx + fl0 + BACKENDS[be] + inc + ["-c", ssrc + "/" + a + ".cpp", "-o", "%s/%s_%s.o" % (tmp, be, a)])
        allu = ["-DUSE_" + b for b in backends]
        for src, o in [(ssrc + "/otfft.cpp", "otfft"), (hs[0], "harness"), (hs[1], "cplx"), (hs[2], "replay")] + ([(hs[3], "minigomp")] if tsan else []):
            cmds.append(cxx + fl0 + allu + inc + ["-c", src, "-o", "%s/%s.o" % (tmp, o)])
        order = sorted(range(len(cmds)), key=lambda i: -sum(w in cmds[i][-1] for w in ("dif16", "dit16", "sixstep", "dif4", "dit4", "algo.o")))
        pool_run([cmds[i] for i in order])
        objs = [c[-1] for c in cmds]
        first = [o for o in objs if os.path.basename(o) in ("replay.o", "minigomp.o", "harness.o", "cplx.o", "otfft.o")]
        sh(cxx + link + ["-o", tmp + "/replay"] + first + [o for o in objs if o not in first] + ["-lpthread"])
        for o in objs:
            os.unlink(o)
        for sub in ("inc", "src"):
            shutil.rmtree(os.path.join(tmp, sub), ignore_errors=True)
        try:
            os.rename(tmp, d)
        except OSError:
            pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prune(tag + "-", os.path.basename(d))
    return out


def build_big(backends):
    """The real library with overflow checks and a driver whose large arrays are fenced and share a few pages."""
    os.makedirs(CACHE, exist_ok=True)
    hs = [VERIF + "/harness/harness.cpp", VERIF + "/harness/bigreplay.cpp"]
    fl0 = ["-std=c++11", "-O1", "-g1", "-DNDEBUG", "-w", "-fPIC", "-fno-math-errno", "-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift-exponent", "-fno-sanitize-recover=all", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops"]
    key = files_hash(repo_sources() + hs, " ".join(fl0) + ",".join(backends))
    d = os.path.join(CACHE, "big-" + key)
    out = os.path.join(d, "big")
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix="bigtmp-", dir=CACHE)
    try:
        cfg = cfg_dir(["OTFFT_WITH_" + b for b in backends], "-".join(backends))
        sinc, ssrc = stage(tmp)
        inc = ["-I" + cfg, "-I" + sinc, "-I" + ssrc, "-I" + VERIF + "/harness", "-I" + VERIF + "/harness/compat"]
        cmds = []
        for be, fl in [(b, BACKENDS[b]) for b in backends]:
            for a in algo_sources():
                cmds.append([CLANG] + fl0 + fl + inc + ["-c", ssrc + "/" + a + ".cpp", "-o", "%s/%s_%s.o" % (tmp, be, a)])
        allu = ["-DUSE_" + b for b in backends]
        for src, o in [(ssrc + "/otfft.cpp", "otfft"), (hs[0], "harness"), (hs[1], "bigreplay")]:
            cmds.append([CLANG] + fl0 + allu + inc + ["-c", src, "-o", "%s/%s.o" % (tmp, o)])
        order = sorted(range(len(cmds)), key=lambda i: -sum(w in cmds[i][-1] for w in ("dif16", "dit16", "sixstep", "algo.o")))
        pool_run([cmds[i] for i in order])
        sh([CLANG, "-fsanitize=signed-integer-overflow", "-o", tmp + "/big"] + [c[-1] for c in cmds] + ["-lpthread"])
        for c in cmds:
            os.unlink(c[-1])
        for sub in ("inc", "src"):
            shutil.rmtree(os.path.join(tmp, sub), ignore_errors=True)
        try:
            os.rename(tmp, d)
        except OSError:
            pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prune("big-", os.path.basename(d))
    return out


def build_both(parts="all"):
    """IR and engine, built side by side."""
    with ThreadPoolExecutor(2) as ex:
        if parts == "size":
            e = ex.submit(build_engine, "engine2", "szx")
            i = ex.submit(build_size_ir)
            return i.result(), e.result()
        e = ex.submit(build_engine)
        i = ex.submit(build_ir)
        return i.result(), e.result()


def demangle(names):
    if not names:
        return []
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names) + "\n", stdout=subprocess.PIPE, text=True, timeout=60)
        out = r.stdout.split("\n")[:len(names)]
        return sorted(set(o if len(o) < 200 else o[:200] + "..." for o in out))
    except Exception:
        return names


MEM_GB = 25.0


def job_mem(line):
    """estimated peak memory of a job in GB"""
    if line.startswith("size "):
        return 1.5
    d = dict(t.split("=", 1) for t in line.split() if "=" in t)
    n, k = int(d.get("n", 1) or 1), int(d.get("kind", 0) or 0)
    if n < 2000:
        return 0.6
    if line.startswith(("mem ", "align ", "share ", "bound ")) or line.startswith("race ") and "val" not in d:
        return 0.5 + n * (4e-6 if k == 3 else 1e-6)
    L = n
    if k == 3:
        L = 1
        while L < 2 * n:
            L *= 2
    lg = max(1, L.bit_length() - 1)
    nodes = L * lg * (8.5 if k == 3 else 4.0)
    nodes *= {"trip": 2, "alias": 2, "backs": 3}.get(line.split()[0], 1)
    return 0.4 + nodes * 95e-9


class Pool:
    """Runs jobs (text lines) on engine processes; a job's answer is one JSON line."""
    def __init__(self, engine, bc, nproc=NCPU):
        self.engine, self.bc, self.nproc = engine, bc, nproc

    def run(self, jobs, deadline=None, weight=None, decisive=None, grace=12, hard=None, res=None):
        """decisive(i, answer) true: the verdict no longer needs the other jobs; they get `grace` more seconds.
        hard: absolute time after which running engine processes are ended."""
        res = res if res is not None else [None] * len(jobs)
        order = [i for i in range(len(jobs)) if res[i] is None or res[i].get("status") == "skipped"]
        if weight:
            order.sort(key=lambda i: -weight(jobs[i]))
        nthr = len(order)
        st = {"end": None, "mem": 0.0}
        procs = {}
        cv = threading.Condition()
        retried = set()

        def take():
            """next job that fits into the memory left; None when there are none"""
            with cv:
                while True:
                    if not order:
                        return None
                    for pos, i in enumerate(order):
                        m = MEM_GB if i in retried else min(MEM_GB, job_mem(jobs[i]))
                        if st["mem"] + m <= MEM_GB + 1e-9:
                            st["mem"] += m
                            del order[pos]
                            return i, m
                    cv.wait(1.0)

        def give(m):
            with cv:
                st["mem"] -= m
                cv.notify_all()

        def late():
            now = time.time()
            return (st["end"] and now > st["end"]) or (hard and now > hard)

        def worker(wid):
            while True:
                t = take()
                if t is None:
                    break
                try:
                    one(wid, t[0], t[1])
                finally:
                    give(t[1])
            p = procs.get(wid)
            if p is not None and p.poll() is None:
                try:
                    p.stdin.close()
                    p.wait(timeout=20)
                except Exception:
                    p.kill()

        def one(wid, i, mem):
                p = procs.get(wid)
                if st["end"] or (deadline and time.time() > deadline):
                    res[i] = {"status": "skipped", "msg": "time budget"}
                    return
                if p is None or p.poll() is not None:
                    p = subprocess.Popen([self.engine, self.bc], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                         stderr=subprocess.DEVNULL, text=True, bufsize=1)
                    procs[wid] = p
                t0 = time.time()
                try:
                    p.stdin.write(jobs[i] + "\n")
                    p.stdin.flush()
                    line = p.stdout.readline()
                except (BrokenPipeError, OSError):
                    line = ""
                if not line:
                    rc = p.wait()
                    if late():
                        res[i] = {"status": "skipped", "msg": "stopped after %.0f s" % (time.time() - t0)}
                    else:
                        res[i] = {"status": "error", "msg": "engine process ended (rc %s) on job: %s" % (rc, jobs[i])}
                        if rc == -9 and i not in retried:
                            with cv:
                                retried.add(i)
                                order.append(i)
                    return
                try:
                    res[i] = json.loads(line)
                except ValueError:
                    res[i] = {"status": "error", "msg": "bad engine answer: " + line[:500]}
                res[i]["job_s"] = round(time.time() - t0, 3)
                if decisive and not st["end"] and decisive(i, res[i]):
                    st["end"] = time.time() + grace
                if mem > 2:  # give the memory back
                    try:
                        p.stdin.close()
                        p.wait(timeout=20)
                    except Exception:
                        p.kill()
        ths = [threading.Thread(target=worker, args=(w,)) for w in range(min(self.nproc, max(1, nthr)))]
        for t in ths:
            t.start()
        while any(t.is_alive() for t in ths):
            for t in ths:
                t.join(0.2)
            if late():
                for p in list(procs.values()):
                    if p.poll() is None:
                        p.kill()
        return res
