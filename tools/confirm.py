"""Confirms findings on the real code."""
import math, random
import replaylib as R
import vlib


def args(job):
    return dict(t.split("=", 1) for t in job.split() if "=" in t), job.split()[0]


def ctx(f):
    return dict(c.split("=", 1) for c in f.get("ctx", []) if "=" in c)


def res(ok, note, script=None, **kw):
    d = {"confirmed": bool(ok), "note": note}
    if script is not None:
        d["script"] = script if len(script) < 4000 else script[:4000]
    d.update(kw)
    return d


def calls_of(job, f):
    """The transform calls a job makes: list of (opt, method) as the finding's context says; else None."""
    a, cmd = args(job)
    c = ctx(f)
    k, n = int(a.get("kind", 0)), int(a.get("n", 0))
    o = int(a.get("opt", 1))
    if cmd == "lin":
        return k, n, [(o, int(c.get("m", (a.get("m") or "0").split(",")[0])))]
    if cmd == "trip":
        return k, n, [(o, int(c["m1"])), (o, int(c["m2"]))]
    if cmd == "alias":
        return k, n, [(o, int(c["m1"])), (o, int(c["m2"]))]
    if cmd == "backs":
        return k, n, [(1, int(c["m"])), (int(c["opt2"]), int(c["m"]))]
    return k, n, [(o, int(c.get("m", 0)))]


def confirm(prop, job, f):
    a, cmd = args(job)
    kind = f.get("kind")
    special = globals().get("confirm_" + cmd)
    if special:
        return special(prop, job, f)
    if kind == "slack":
        return confirm_random(job, f)
    if kind in ("value", "nonlinear", "input"):
        r = confirm_value(job, f)
        if not r["confirmed"]:
            r2 = confirm_random(job, f)
            if r2["confirmed"]:
                return r2
        return r
    if kind == "uninit":
        return confirm_uninit(job, f)
    return confirm_crash(job, f)


def native_call(k, n, opt, m, w, fill=None, yfill=0):
    L = (["fill %d" % fill] if fill is not None else []) + ["new h", "create h %d %d %d" % (k, n, opt)] + R.call_lines("h", k, m, n, w, yfill=yfill)
    r = R.run_script(L, (R.BE[opt],))
    v = R.vlines(r)
    return (v[-1] if v else None), r, L


def judge(job, f, v):
    """Runs the job's calls on free-variable values v; returns (deviation-at-f.out or max, output index, script, note)."""
    a, cmd = args(job)
    k, n, cl = calls_of(job, f)
    o = f.get("out", -1)
    c = ctx(f)
    (o1, m1) = cl[0]
    w = R.expand(k, m1, n, v)
    if cmd == "trip":
        m2 = cl[1][1]
        L = ["new h", "create h %d %d %d" % (k, n, o1), "buf x %d 1 0" % len(w)] + R.set_lines("x", w)
        if k == 1:
            L += ["buf y %d 1 0" % (2 * n), "t h 1 %d x y" % m1, "buf z %d 1 0" % n, "t h 1 %d y z" % m2, "print z"]
        else:
            L += ["t h %d %d x" % (k, m1), "t h %d %d x" % (k, m2), "print x"]
        r = R.run_script(L, (R.BE[o1],))
        out = (R.vlines(r) or [None])[-1]
        if out is None:
            return float("inf"), o, L, "native run failed rc=%s %s" % (r["rc"], r["err"][-300:])
        ds = [(abs(out[i] - w[i]) if out[i] == out[i] else float("inf"), i) for i in range(len(out))]
        d = max(ds)
        return d[0], d[1], L, "element %d is %r, expected %r" % (d[1], out[d[1]], w[d[1]])
    out1, r, L = native_call(k, n, o1, m1, w)
    if out1 is None:
        return float("inf"), o, L, "native run failed rc=%s %s" % (r["rc"], r["err"][-300:])
    if cmd == "lin":
        if f.get("kind") == "input":
            L2 = L[:-1] + ["print x"]
            r = R.run_script(L2, (R.BE[o1],))
            got = (R.vlines(r) or [[]])[-1]
            bad = [i for i in range(len(w)) if i >= len(got) or got[i] != w[i]]
            return (float("inf") if bad else 0.0), (bad[0] if bad else -1), L2, "input array elements changed: %s" % bad[:5]
        idx = [o] if o >= 0 else range(len(out1))
        if n <= 2048 and o >= 0:
            idx = list(range(len(out1))) if n <= 128 else [o]
        ds = []
        for i in idx:
            ref = R.ref_element(k, m1, n, w, i)
            ds.append((abs(out1[i] - ref) if out1[i] == out1[i] else float("inf"), i, ref))
        d = max(ds)
        return d[0], d[1], L, "element %d is %r, expected %r" % (d[1], out1[d[1]], d[2])
    o2, m2 = cl[1]
    out2, r, L2 = native_call(k, n, o2, m2, w)
    if out2 is None:
        return float("inf"), o, L2, "native run failed rc=%s" % r["rc"]
    s = float(c.get("scale", 1.0))
    ds = [(abs(out1[i] - s * out2[i]) if out1[i] == out1[i] and out2[i] == out2[i] else float("inf"), i) for i in range(len(out1))]
    d = max(ds)
    return d[0], d[1], L + ["# second call"] + L2, "element %d: %r versus %r (scale %r)" % (d[1], out1[d[1]], out2[d[1]], s)


def confirm_value(job, f):
    k, n, cl = calls_of(job, f)
    v = R.vec(f.get("x", []), R.n_vars(k, cl[0][1], n))
    d, i, L, note = judge(job, f, v)
    tol = f.get("tol", 0) or 0
    return res(d > tol * 0.999, note + "; deviation %.3g, tolerance %.3g" % (d, tol), L)


def confirm_random(job, f):
    """Non-linear behaviour has no linear witness: look for a concrete input of the same call that shows it."""
    k, n, cl = calls_of(job, f)
    rnd = random.Random(5)
    nv = R.n_vars(k, cl[0][1], n)
    tol1 = f.get("tol", 0) or 0
    if not tol1:
        import vlib
        tol1 = 1.2e-16 * 1024 * (math.log2(max(2, n)) + 4) * n * R.scale_of(cl[0][1], max(n, 1)) * (n + 16 if k == 3 else 1)
    sc0 = f.get("scale", 1) or 1
    for sc in (sc0, 1.0, 1e-3, 1e3, 1e6, 1e-9):
        v = [rnd.uniform(-1, 1) * sc for _ in range(nv)]
        g = dict(f)
        if n <= 256:
            g["out"] = -1
        d, i, L, note = judge(job, g, v)
        if d > tol1 / sc0 * sc:
            return res(True, "random input of scale %g: %s; deviation %.3g" % (sc, note, d), L)
    return res(False, "no deviation on random inputs")


def confirm_uninit(job, f):
    k, n, cl = calls_of(job, f)
    rnd = random.Random(3)
    o, m = cl[-1]
    w = R.expand(k, m, n, [rnd.uniform(-1, 1) for _ in range(R.n_vars(k, m, n))])
    outs, L = [], None
    for fill in (0, 63, 127, 255):
        out, r, L = native_call(k, n, o, m, w, fill=fill, yfill=fill)
        if out is None:
            return res(True, "native run crashed rc=%s with memory filled with 0x%02x" % (r["rc"], fill), L)
        outs.append((fill, out))
    for fill, out in outs[1:]:
        for i, (p, q) in enumerate(zip(outs[0][1], out)):
            if p != q and not (p != p and q != q):
                return res(True, "output element %d is %r or %r depending on what fresh memory contained (bytes 0x00 / 0x%02x)" % (i, p, q, fill), L)
        if any(x != x for x in out):
            return res(True, "outputs are NaN with memory filled with 0x%02x" % fill, L)
    return res(False, "outputs do not depend on the memory fill", L)


def confirm_crash(job, f):
    """Memory errors and terminations: run the same calls under AddressSanitizer."""
    k, n, cl = calls_of(job, f)
    rnd = random.Random(3)
    L = []
    for i, (o, m) in enumerate(cl):
        w = R.expand(k, m, n, [rnd.uniform(-1, 1) for _ in range(R.n_vars(k, m, n))])
        L += ["new h%d" % i, "create h%d %d %d %d" % (i, k, n, o)] + [l for l in R.call_lines("h%d" % i, k, m, n, w, "x%d" % i, "y%d" % i) if not l.startswith("print")] + ["destroy h%d" % i]
    return crash_run(L, cl[0][0] if len(cl) == 1 else None)


def crash_run(L, opt=None):
    be = (R.BE[opt],) if opt else ("SSE2", "AVX", "AVX2")
    r = R.run_script(L, be, asan=True)
    if r["rc"] == 4 or r["rc"] == 3:
        return res(False, "replay script not runnable: %s" % r["out"][-3:], L)
    if r["rc"] != 0:
        head = [l for l in r["err"].split("\n") if "ERROR" in l or l.strip().startswith("#")][:4]
        return res(True, "AddressSanitizer build ends with status %s: %s" % (r["rc"], " | ".join(head)[:600]), L)
    r = R.run_script(L, be)
    if r["rc"] != 0:
        return res(True, "native build ends with status %s" % r["rc"], L)
    return res(False, "no crash in the AddressSanitizer or native build", L)


def cplx_ref(f, a0, a1, b0, b1):
    """(component 0, component 1, magnitude) of the mathematical operation behind one harness entry."""
    from fractions import Fraction as Fr
    A, B = (Fr(a0), Fr(a1)), (Fr(b0), Fr(b1))
    n1 = lambda z: abs(z[0]) + abs(z[1])
    mul = lambda x, y: (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])
    o = f[:-4] if f.endswith("_ret") else f

    def div(x, y):
        d = y[0] ** 2 + y[1] ** 2
        return ((x[0] * y[0] + x[1] * y[1]) / d, (x[1] * y[0] - x[0] * y[1]) / d)
    if o == "c_default":
        return 0.0, 0.0, 0.0
    one = {"c_real": lambda: (A[0], 0), "c_pair": lambda: A, "c_copy": lambda: A, "c_assign": lambda: A, "c_fromstd": lambda: A, "c_tostd": lambda: A,
           "c_re": lambda: (A[0], 0), "c_im": lambda: (A[1], 0), "c_conj": lambda: (A[0], -A[1]), "c_neg": lambda: (-A[0], -A[1]),
           "c_jx": lambda: (-A[1], A[0]), "c_mjx": lambda: (A[1], -A[0]), "c_addeq_self": lambda: (2 * A[0], 2 * A[1]), "c_subeq_self": lambda: (0, 0)}
    if o in one:
        r = one[o]()
        return float(r[0]), float(r[1]), float(n1(A))
    add = {"c_add": 1, "c_addeq": 1, "c_sub": -1, "c_subeq": -1}
    if o in add:
        s = add[o]
        return float(A[0] + s * B[0]), float(A[1] + s * B[1]), float(n1(A) + n1(B))
    if o in ("c_mul", "c_muleq"):
        r, m = mul(A, B), n1(A) * n1(B)
    elif o in ("c_smul", "c_mulr", "c_mulreq"):
        r, m = (A[0] * B[0], A[1] * B[0]), n1(A) * abs(B[0])
    elif o in ("c_divr", "c_divreq"):
        r, m = (A[0] / B[0], A[1] / B[0]), n1(A) / abs(B[0])
    elif o in ("c_div", "c_div_self"):
        r = div(A, B)
        m = n1(A) * n1(B) / (B[0] ** 2 + B[1] ** 2)
    elif o == "c_div_aself":
        r = div(B, A)
        m = n1(A) * n1(B) / (A[0] ** 2 + A[1] ** 2)
    elif o in ("c_muleq_self", "c_mul_self"):
        r, m = mul(A, A), n1(A) ** 2
    elif o in ("c_mulreq_re", "c_mulreq_im"):
        s = A[0] if o.endswith("re") else A[1]
        r, m = (A[0] * s, A[1] * s), n1(A) ** 2
    elif o in ("c_divreq_re", "c_divreq_im"):
        s = A[0] if o.endswith("re") else A[1]
        r, m = (A[0] / s, A[1] / s), n1(A) / abs(s)
    elif o == "c_norm":
        r, m = (A[0] ** 2 + A[1] ** 2, 0), n1(A) ** 2
    elif o == "c_abs":
        return math.hypot(a0, a1), 0.0, abs(a0) + abs(a1)
    elif o == "c_arg":
        v = math.atan2(a1, a0)
        return v, 0.0, abs(v)
    elif o == "c_polar":
        return a0 * math.cos(a1), a0 * math.sin(a1), abs(a0)
    elif o == "c_expj":
        return math.cos(a0), math.sin(a0), 1.0
    else:
        raise KeyError(o)
    return float(r[0]), float(r[1]), float(m)


def confirm_cplx(prop, job, f):
    a, _ = args(job)
    name = a["f"]
    rnd = random.Random(7)
    v = [0.0] * 4
    for i, x in f.get("x", []):
        v[i] = x
    pts = [v] + [[rnd.uniform(-2, 2) for _ in range(4)] for _ in range(200)]
    pts += [[rnd.uniform(-2, 2) * 10 ** rnd.randint(-6, 6) for _ in range(4)] for _ in range(200)]
    pts += [[rnd.choice([-1, 1]) * (1 + rnd.randint(0, 3) * 1e-9) for _ in range(4)] for _ in range(100)]
    pts += [p[:2] + p[:2] for p in pts[1:50]]
    L = ["cplx %s %s" % (name, R.hexs(p)) for p in pts]
    r = R.run_script(L, ("SSE2",))
    out = R.vlines(r)
    if r["rc"] != 0 or len(out) != len(pts):
        return res(True, "native run ended with status %s" % r["rc"], L[:3])
    for p, o in zip(pts, out):
        try:
            r0, r1, m = cplx_ref(name, *p)
        except (ZeroDivisionError, OverflowError):
            continue
        dev = max(abs(o[0] - r0) if o[0] == o[0] else float("inf"), abs(o[1] - r1) if o[1] == o[1] else float("inf"))
        if name.endswith("_ret") and o[2] != 1.0:
            return res(True, "%s on %r: the returned reference is not the assigned object" % (name, p), ["cplx %s %s" % (name, R.hexs(p))])
        if dev > 1e-13 * m + 1e-300:
            return res(True, "%s on %r gives (%r, %r), expected (%r, %r)" % (name, p, o[0], o[1], r0, r1), ["cplx %s %s" % (name, R.hexs(p))])
    return res(False, "native results agree with the mathematical values on the counterexample and %d other points" % (len(pts) - 1), L[:2])


def confirm_cpu(prop, job, f):
    """Runs the real otfft.cpp with its cpuid/xgetbv instructions replaced by calls that return the counterexample's words."""
    import cpunative
    a, _ = args(job)
    c = ctx(f)
    return cpunative.confirm(int(a["kind"]), int(a["n"]), int(a.get("have", 7)), {k: int(v) for k, v in c.items() if k != "got"}, f, res)


def confirm_fault(prop, job, f):
    """Repeats the counterexample's history natively with the same allocation failing."""
    a, _ = args(job)
    k, n, o = int(a["kind"]), int(a["n"]), int(a["opt"])
    rnd = random.Random(9)
    W = {}

    def words(m, nn):
        if (m, nn) not in W:
            W[m, nn] = R.expand(k, m, nn, [rnd.uniform(-1, 1) for _ in range(R.n_vars(k, m, nn))])
        return W[m, nn]
    n2 = int(a["n2"])
    L, want, uses = [], [], 0
    for q in (n, n2):
        L += ["new w%d" % q, "create w%d %d %d %d" % (q, k, q, o), "destroy w%d" % q]
        want += [0, 0]
    L += ["new h", "live"]
    for i, h in enumerate(f.get("ctx", [])):
        t = h.split()
        d = dict(x.split("=") for x in t[1:])
        if "fail" in d:
            L.append("fail " + d["fail"])
        if t[0] == "create":
            L.append("create h %d %s %d" % (k, d["n"], o))
        elif t[0] == "setup":
            L.append("setup h " + d["n"])
        elif t[0] == "destroy":
            L.append("destroy h")
        elif t[0] == "use":
            m, nn = int(d["m"]), int(d["n"])
            L += R.call_lines("h", k, m, nn, words(m, nn))
            uses += 1
            continue
        if "fail" in d:
            L.append("fail -1")
        if t[0] in ("setup",) and "fail" not in d:
            L.append("live")
        want.append(1 if "fail" in d else 0)
    L.append("live")
    for fill in (None, 127):
        LL = (["fill %d" % fill] if fill is not None else []) + L
        r = R.run_script(LL, (R.BE[o],))
        rcs = [int(x.split()[1]) for x in r["out"] if x.startswith("rc ")]
        live = [int(x.split()[1]) for x in r["out"] if x.startswith("live ")]
        if r["rc"] != 0:
            return res(True, "native run ends with status %s: %s" % (r["rc"], r["err"][-200:]), LL)
        if rcs != want:
            return res(True, "status codes %s, expected %s" % (rcs, want), LL)
        if f.get("kind") == "leak":
            if f.get("ctx", [""])[-1].startswith("setup"):
                if len(live) > 5 and live[-2] > live[-4]:
                    return res(True, "live blocks grow: %s" % live, LL)
                r2 = rss_growth(k, n, n2, o)
                if r2:
                    return res(True, r2, LL)
            elif live and live[-1] > live[0]:
                return res(True, "%d blocks are still allocated" % (live[-1] - live[0]), LL)
        outs = R.vlines(r)
        last = [h for h in f.get("ctx", []) if h.startswith("use")]
        for h, v in zip(last, outs):
            d = dict(x.split("=") for x in h.split()[1:])
            m, nn = int(d["m"]), int(d["n"])
            w = words(m, nn)
            for i in (range(len(v)) if len(v) <= 256 else range(0, len(v), max(1, len(v) // 64))):
                ref = R.ref_element(k, m, nn, w, i)
                if not abs(v[i] - ref) <= 1e-8 * nn * max(1, R.scale_of(m, nn) * nn):
                    return res(True, "after recovery element %d is %r, expected %r" % (i, v[i], ref), LL)
    return crash_run(L, o)


def rss_growth(k, n, n2, o):
    """Repeated setup: does the process keep growing?"""
    base = ["new h", "create h %d %d %d" % (k, n, o)]
    sizes = []
    for reps in (50, 450):
        r = R.run_script(base + ["setup h %d" % n, "setup h %d" % n2] * reps + ["allocbytes"], (R.BE[o],))
        v = [int(x.split()[1]) for x in r["out"] if x.startswith("bytes ")]
        if not v:
            return None
        sizes.append(v[0])
    if sizes[1] > sizes[0] + 100:
        return "allocated bytes grow from %d to %d over 400 more setup cycles" % tuple(sizes)
    return None


def history_script(job, f, rnd, off=1, shrink=False):
    """The job's history up to the finding as replay lines."""
    a, _ = args(job)
    k, o = int(a["kind"]), int(a["opt"])
    L, uses, i = ["new h"], [], 0
    for h in f.get("ctx", []):
        t = h.split()
        d = dict(x.split("=") for x in t[1:])
        if t[0] == "create":
            L.append("create h %d %s %d" % (k, d["n"], o))
        elif t[0] == "setup":
            L.append("setup h " + d["n"])
        elif t[0] == "destroy":
            L.append("destroy h")
        elif t[0] == "use":
            m, nn = int(d["m"]), int(d["n"])
            w = R.expand(k, m, nn, [rnd.uniform(-1, 1) for _ in range(R.n_vars(k, m, nn))])
            cl = R.call_lines("h", k, m, nn, w, "x%d" % i, "y%d" % i)
            uses.append((len(L), m, nn))
            L += [l.replace(" 1 0", " %d 0" % off, 1) if l.startswith("buf") else l for l in cl]
            i += 1
    return k, o, L, uses


def confirm_mem(prop, job, f):
    k, o, L, uses = history_script(job, f, random.Random(9))
    if f.get("kind") != "uninit":
        return crash_run([l for l in L if not l.startswith("print")], o)
    outs = []
    for fill in (0, 63, 127, 255):
        r = R.run_script(["fill %d" % fill] + [l if not (l.startswith("buf y")) else l.rsplit(" ", 1)[0] + " %d" % fill for l in L], (R.BE[o],))
        v = R.vlines(r)
        if r["rc"] != 0 or not v:
            return res(True, "native run ends with status %s with memory filled with 0x%02x" % (r["rc"], fill), L)
        outs.append((fill, v[-1]))
    for fill, out in outs[1:]:
        for i, (p, q) in enumerate(zip(outs[0][1], out)):
            if p != q and not (p != p and q != q):
                return res(True, "output element %d is %r or %r depending on what fresh memory contained (bytes 0x00 / 0x%02x)" % (i, p, q, fill), L)
        if any(x != x for x in out):
            return res(True, "outputs are NaN with memory filled with 0x%02x" % fill, L)
    return res(False, "outputs do not depend on the memory fill", L)


def confirm_align(prop, job, f):
    """Caller arrays at 8 modulo 64 and allocator results with no more than the requested alignment: the native build must not trap, the alignment-sanitized one must not report."""
    k, o, L, uses = history_script(job, f, random.Random(9))
    LL = ["minalign 1"] + [l for l in L if not l.startswith("print")]
    r = R.run_script(LL, (R.BE[o],))
    if r["rc"] in (-11, -7, 139):
        return res(True, "native run with caller arrays at 8 modulo 64 ends with a trap (status %s)" % r["rc"], LL)
    r = R.run_script(LL, (R.BE[o],), asan="alignment")
    if r["rc"] in (3, 4):
        return res(False, "replay script not runnable: %s" % r["out"][-3:], LL)
    if r["rc"] != 0:
        return res(True, "alignment-sanitized run: " + " | ".join([l for l in r["err"].split("\n") if "runtime error" in l][:2])[:500], LL)
    return res(False, "no misaligned access in the native or sanitized run", LL)


def confirm_hist(prop, job, f):
    """Runs the history natively and compares the last transform with the same transform on a fresh object in a fresh process."""
    a, _ = args(job)
    k0, n0, o = int(a["kind"]), int(a["n"]), int(a["opt"])
    best = None
    for trial, (scale, fill) in enumerate([(1.0, None), (1e3, None), (1.0, 127), (1.0, 255), (1e6, 63)]):
        rnd = random.Random(11 + trial)
        L, kinds, last, i = [], {}, None, 0
        for h in f.get("ctx", []):
            t = h.split()
            d = dict(x.split("=") for x in t[1:])
            nm = "h" + d["h"]
            if t[0] == "create":
                kinds[nm] = int(d["kind"])
                L += ["new " + nm, "create %s %s %s %d" % (nm, d["kind"], d["n"], o)]
            elif t[0] == "setup":
                L.append("setup %s %s" % (nm, d["n"]))
            elif t[0] == "destroy":
                L.append("destroy " + nm)
            else:
                m, nn, k = int(d["m"]), int(d["n"]), kinds[nm]
                w = R.expand(k, m, nn, [rnd.uniform(-1, 1) * scale for _ in range(R.n_vars(k, m, nn))])
                L += R.call_lines(nm, k, m, nn, w, "x%d" % i, "y%d" % i)
                last, i = (k, m, nn, w), i + 1
        if last is None:
            return crash_run(L, o)
        # the last call again with an ordinary input
        k, m, nn, _ = last
        cut = max(j for j, l in enumerate(L) if l.startswith("buf x%d " % (i - 1)))
        w = R.expand(k, m, nn, [random.Random(5).uniform(-1, 1) for _ in range(R.n_vars(k, m, nn))])
        w = R.expand(k, m, nn, [((j * 7919) % 2001 - 1000) / 1000.0 for j in range(R.n_vars(k, m, nn))])
        t = [l for l in L[cut:] if l.startswith("t ")][0].split()[1]
        L = (["fill %d" % fill] if fill is not None else []) + L[:cut] + R.call_lines(t, k, m, nn, w, "xl", "yl")
        r = R.run_script(L, (R.BE[o],))
        fresh, _, _ = native_call(k, nn, o, m, w)
        v = R.vlines(r)
        if r["rc"] != 0 or not v:
            return res(True, "native run ends with status %s: %s" % (r["rc"], r["err"][-200:]), L)
        got = v[-1]
        if fresh is None:
            return res(False, "reference run failed", L)
        mag = max(abs(x) for x in fresh) or 1.0
        d = [(abs(p - q) if p == p else float("inf"), j) for j, (p, q) in enumerate(zip(got, fresh)) if not (p != p and q != q)]
        best = max(d) if d else (0, -1)
        if best[0] > 1e-10 * mag * max(1, math.log2(max(2, nn))) * (nn if k == 3 else 1):
            return res(True, "element %d is %r after the history, %r on a fresh object" % (best[1], got[best[1]], fresh[best[1]]), L)
    if f.get("kind") in ("memory", "terminate", "api"):
        return crash_run([l for l in L if not l.startswith("print")], o)
    return res(False, "the history gives the same result as a fresh object (largest difference %r)" % (best,), L)


def race_lines(job, f, val=63):
    """create, the last setup and the last transform of the job's history, on arrays of ordinary numbers."""
    a, _ = args(job)
    k, o = int(a["kind"]), int(a["opt"])
    L, out = ["new h", "create h %d %s %d" % (k, a["n"], o)], None
    for h in f.get("ctx", []):
        t = h.split()
        d = dict(x.split("=") for x in t[1:] if "=" in x)
        if t[0] == "setup":
            L = L[:2] + ["setup h " + d["n"]]
        if t[0] == "use":
            m, n = int(d["m"]), int(d["n"])
            L = [l for l in L if l.split()[0] in ("new", "create", "setup")]
            L += ["buf x %d 1 %d" % (R.in_doubles(k, m, n), val)]
            if k == 1:
                L += ["buf y %d 1 0" % R.out_doubles(k, m, n), "t h 1 %d x y" % m]
                out = "y"
            else:
                L += ["t h %d %d x" % (k, m)]
                out = "x"
        if t[0] == "destroy":
            L.append("destroy h")
    return k, o, L, out


def confirm_race(prop, job, f):
    """Data race: ThreadSanitizer with a pthread OpenMP runtime whose barriers it sees. Result differences: one thread against many."""
    k, o, L, out = race_lines(job, f)
    T = int(ctx(f).get("threads", 4))
    if f.get("kind") == "race":
        for t in [T] + [q for q in (2, 3, 4, 8, 16) if q != T]:
            r = R.run_script(["threads %d" % t] + L, (R.BE[o],), asan="thread", timeout=300)
            if "data race" in r["err"]:
                e = [l.strip() for l in r["err"].split("\n") if "data race" in l or l.strip().startswith("#")]
                return res(True, "ThreadSanitizer, %d threads: %s" % (t, " | ".join(e[:6])[:600]), ["threads %d" % t] + L)
            if r["rc"] not in (0, 66):
                return res(True, "run with %d threads ends with status %s: %s" % (t, r["rc"], r["err"][-200:]), L)
    if out is None:
        return res(False, "no data race reported", L)
    a, _ = args(job)
    m, n = [(int(d["m"]), int(d["n"])) for d in (dict(x.split("=") for x in h.split()[1:]) for h in f.get("ctx", []) if h.startswith("use "))][-1]
    w = R.expand(k, m, n, [((j * 7919) % 2001 - 1000) / 1000.0 for j in range(R.n_vars(k, m, n))])
    vs = []
    for t in (1, 2, 3, 5, 8, 64):
        r = R.run_script(["threads %d" % t, "new h", "create h %d %s %d" % (k, a["n"], o)] + [l for l in L if l.startswith("setup")] + R.call_lines("h", k, m, n, w), (R.BE[o],))
        v = R.vlines(r)
        if r["rc"] != 0 or not v:
            return res(True, "run with %d threads ends with status %s" % (t, r["rc"]), L)
        vs.append(v[-1])
        mag = max(abs(x) for x in vs[0]) or 1.0
        d = max((abs(p - q) if p == p and q == q else float("inf"), j) for j, (p, q) in enumerate(zip(vs[0], v[-1])))
        if d[0] > 1e-11 * mag * math.log2(max(2, n)) * (n if k == 3 else 1):
            return res(True, "element %d is %r with one thread, %r with %d threads" % (d[1], vs[0][d[1]], v[-1][d[1]], t), L)
    return res(False, "no data race reported, results agree for 1 to 64 threads", L)


def share_lines(job, f, val=63):
    """The finding's history as replay commands; None where it has no threads."""
    L, pre, kind, nb = [], [], {}, 0
    ths = 0
    for h in f.get("ctx", []):
        t = h.split()
        d = dict(x.split("=") for x in t[1:] if "=" in x)
        if t[0] == "thread":
            L.append("thread")
            ths += 1
        elif t[0] == "create":
            kind[d["h"]] = int(d["kind"])
            L.append("create h%s %s %s %s" % (d["h"], d["kind"], d["n"], d["opt"]))
        elif t[0] == "setup":
            L.append("setup h%s %s" % (d["h"], d["n"]))
        elif t[0] == "destroy":
            L.append("destroy h%s" % d["h"])
        elif t[0] == "use":
            k, m, n = kind[d["h"]], int(d["m"]), int(d["n"])
            nb += 1
            pre.append("buf x%d %d 1 %d" % (nb, R.in_doubles(k, m, n), val))
            if k == 1:
                pre.append("buf y%d %d 1 0" % (nb, R.out_doubles(k, m, n)))
                L.append("t h%s 1 %d x%d y%d" % (d["h"], m, nb, nb))
            else:
                L.append("t h%s %d %d x%d" % (d["h"], k, m, nb))
    return ["threads 1"] + ["new h%s" % h for h in sorted(kind)] + pre, L, ths


def confirm_share(prop, job, f):
    """Two objects in two threads: ThreadSanitizer, then AddressSanitizer one after the other, then results against a single thread's."""
    a, _ = args(job)
    be = tuple(sorted({R.BE[int(a.get("opt", 0)) or 3], R.BE[int(a.get("opt2", 0)) or 3]}))
    pre, L, ths = share_lines(job, f)
    if ths:
        for rep in range(3):
            r = R.run_script(pre + L + ["join"], be, asan="thread", timeout=200)
            if "data race" in r["err"] or "heap-use-after-free" in r["err"]:
                e = [l.strip() for l in r["err"].split("\n") if "ThreadSanitizer" in l or l.strip().startswith("#")]
                return res(True, "ThreadSanitizer, two threads: %s" % " | ".join(e[:7])[:700], pre + L + ["join"])
            if r["rc"] not in (0, 66):
                return res(True, "run with two threads ends with status %s: %s" % (r["rc"], r["err"][-200:]), pre + L + ["join"])
        S = pre + [l for l in L if l != "thread"]
        r = R.run_script(S, be, asan=True, timeout=200)
        if r["rc"] != 0:
            return res(True, "one after the other, AddressSanitizer: %s" % r["err"][:400], S)
        return res(False, "no data race reported", pre + L + ["join"])
    # interleaved calls: the last call against the same call on a fresh object
    us = [h for h in f.get("ctx", []) if h.startswith("use ")]
    d = dict(x.split("=") for x in us[-1].split()[1:])
    k2, o2, m, n = int(a["kind2"]), int(a["opt2"]), int(d["m"]), int(d["n"])
    w = R.expand(k2, m, n, [((j * 7919) % 2001 - 1000) / 1000.0 for j in range(R.n_vars(k2, m, n))])
    while L and not L[-1].startswith("t h1"):
        L.pop()
    vs = []
    for S in (["new h1", "create h1 %d %d %d" % (k2, n, o2)], pre + L[:-1]):
        r = R.run_script(S + R.call_lines("h1", k2, m, n, w), be)
        v = R.vlines(r)
        if r["rc"] != 0 or not v:
            return res(True, "ends with status %s" % r["rc"], S)
        vs.append(v[-1])
    mag = max(abs(x) for x in vs[0]) or 1.0
    dv = max((abs(p - q) if p == p and q == q else float("inf"), j) for j, (p, q) in enumerate(zip(*vs)))
    if dv[0] > 1e-11 * mag * math.log2(max(2, n)) * (n if k2 == 3 else 1):
        return res(True, "element %d is %r on an object alone, %r after calls on another object" % (dv[1], vs[0][dv[1]], vs[1][dv[1]]), pre + L)
    return res(False, "results agree", pre + L)


def confirm_bound(prop, job, f):
    """Native calls on inputs of magnitude 1e290: every output has to be finite."""
    a, _ = args(job)
    k, n, o = int(a["kind"]), int(a["n"]), int(a["opt"])
    ms = [int(x) for x in a["m"].split(",")]
    if f.get("ctx"):
        ms = [int(ctx(f).get("m", ms[0]))]
    rnd = random.Random(11)
    X = 1e290
    L = []
    for m in ms:
        nv = R.n_vars(k, m, n)
        pats = [("equal", [X] * nv), ("random signs", [rnd.choice((-X, X)) for _ in range(nv)]), ("alternating", [X if (j // (1 if k else 2)) % 2 == 0 else -X for j in range(nv)]),
                ("impulse", [X if j == 0 else 0.0 for j in range(nv)]), ("last impulse", [X if j == nv - 1 else 0.0 for j in range(nv)]), ("mixed magnitudes", [rnd.choice((-1, 1)) * X * 10.0 ** -rnd.randrange(0, 290) for _ in range(nv)]),
                ("small", [rnd.choice((-1, 1)) * 1e-3 for _ in range(nv)]), ("1e150", [rnd.choice((-1, 1)) * 1e150 * rnd.random() for _ in range(nv)]), ("1e30", [1e30 * rnd.uniform(-1, 1) for _ in range(nv)]), ("zero", [0.0] * nv)]
        for name, v in pats:
            out, r, L = native_call(k, n, o, m, R.expand(k, m, n, v))
            if out is None:
                return res(True, "%s input of magnitude up to 1e290: call ends with status %s %s" % (name, r["rc"], r["err"][-200:]), L)
            for i, x in enumerate(out):
                if x != x or abs(x) == float("inf"):
                    return res(True, "method %d, %s input of magnitude up to 1e290: output element %d is %r" % (m, name, i, x), L)
    return res(False, "all outputs finite on inputs of magnitude 1e290", L)


def confirm_size(prop, job, f):
    """One life of the object at that very length, with overflow checks and fenced arrays (contents shared, so that huge lengths fit)."""
    import subprocess
    a, _ = args(job)
    n = int(f["ctx"][0]) if f.get("ctx") else int(a["n"])
    cmd = [vlib.build_big([b for b, v in vlib.OPT.items() if v == int(a["opt"])]), a["kind"], a["opt"], str(n)] + a.get("m", "0").split(",")
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=330)
    except subprocess.TimeoutExpired:
        return res(False, "native run at length %d did not end in time" % n, [" ".join(cmd[1:])])
    if r.returncode in (76, 77):
        return res(False, "not enough memory to replay length %d" % n, [" ".join(cmd[1:])])
    why = [l for l in r.stderr.splitlines() if "runtime error" in l]
    if why or r.returncode < 0:
        return res(True, "length %d: %s" % (n, why[0] if why else "access outside an array (signal %d) after: %s" % (-r.returncode, " ".join(r.stdout.split()))), [" ".join(cmd[1:])])
    return res(False, "length %d runs without overflow or access outside an array" % n, [" ".join(cmd[1:])])
