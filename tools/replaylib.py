"""Replays a solver counterexample against the real code (native build) and judges it with an independent reference."""
import json, math, os, random, subprocess, sys
import vlib

KIND = ["complex", "real", "dct", "bluestein"]
METH = ["fwd", "fwd0", "fwdu", "fwdn", "inv", "inv0", "invu", "invn"]
BE = {1: "SSE2", 2: "AVX", 3: "AVX2"}


def is_inv(m):
    return m >= 4


def in_doubles(k, m, n):
    if k in (0, 3):
        return 2 * n
    if k == 2:
        return n
    return 2 * n if is_inv(m) else n


def out_doubles(k, m, n):
    if k in (0, 3):
        return 2 * n
    if k == 2:
        return n
    return n if is_inv(m) else 2 * n


def n_vars(k, m, n):
    return n if k == 1 and is_inv(m) else in_doubles(k, m, n)


def expand(k, m, n, v):
    """Input words from the free variables (the real inverse takes a conjugate-symmetric spectrum)."""
    if not (k == 1 and is_inv(m)):
        return list(v)
    w = [0.0] * (2 * n)
    if n == 0:
        return w
    w[0] = v[0]
    h = n // 2
    for q in range(1, h):
        re, im = v[2 * q - 1], v[2 * q]
        w[2 * q], w[2 * q + 1] = re, im
        w[2 * (n - q)], w[2 * (n - q) + 1] = re, -im
    if n >= 2:
        w[2 * h] = v[n - 1]
    return w


def scale_of(m, n):
    if m in (0, 3, 7):
        return 1.0 / n
    if m in (2, 6):
        return 1.0 / math.sqrt(n)
    return 1.0


def cs(t, T):
    """cos and sin of 2 pi t / T with exact reduction."""
    t %= T
    q, r = divmod(4 * t, T)
    a = math.pi / 2 * (r / T)
    c, s = math.cos(a), math.sin(a)
    return [(c, s), (-s, c), (-c, -s), (s, -c)][q]


def ref_element(k, m, n, w, o):
    """One output element of the mathematical transform of the input words w."""
    if k in (0, 3) or (k == 1 and not is_inv(m)):
        q, im = divmod(o, 2)
        sg = 1 if is_inv(m) else -1
        t = []
        for j in range(n):
            re, i_ = (w[j], 0.0) if k == 1 else (w[2 * j], w[2 * j + 1])
            c, s = cs(q * j, n)
            s *= sg
            t += [re * s, i_ * c] if im else [re * c, -i_ * s]
        return math.fsum(t) * scale_of(m, n)
    if k == 1:
        t = []
        for j in range(n):
            c, s = cs(j * o, n)
            t += [w[2 * j] * c, -w[2 * j + 1] * s]
        return math.fsum(t) * scale_of(m, n)
    if not is_inv(m):
        return math.fsum(w[j] * cs(o * (2 * j + 1), 4 * n)[0] for j in range(n)) * scale_of(m, n)
    return math.fsum((1 if j == 0 else 2) * w[j] * cs(j * (2 * o + 1), 4 * n)[0] for j in range(n)) * scale_of(m, n)


def run_script(lines, backends=("SSE2", "AVX", "AVX2"), asan=False, timeout=120, valgrind=False):
    exe = vlib.build_native(tuple(backends), asan=bool(asan), san=asan if isinstance(asan, str) else "address")
    env = dict(os.environ, ASAN_OPTIONS="redzone=2048:detect_leaks=0:abort_on_error=0:max_malloc_fill_size=1000000000:malloc_fill_byte=127",
               TSAN_OPTIONS="halt_on_error=1 exitcode=66 report_thread_leaks=0 history_size=4",
               OMP_NUM_THREADS=os.environ.get("OMP_NUM_THREADS", "4"))
    cmd = [exe] if not valgrind else ["valgrind", "-q", "--error-exitcode=99", "--undef-value-errors=no", exe]
    try:
        r = subprocess.run(cmd, input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return {"rc": 124, "out": [], "err": "timeout"}
    return {"rc": r.returncode, "out": r.stdout.split("\n"), "err": r.stderr}


def floats(line):
    return [float.fromhex(x) if "nan" not in x and "inf" not in x else float(x) for x in line.split()[1:]]


def hexs(v):
    return " ".join(float(x).hex() for x in v)


def set_lines(name, v, step=512):
    return ["set %s %d %s" % (name, i, hexs(v[i:i + step])) for i in range(0, len(v), step)]


def call_lines(h, k, m, n, w, x="x", y="y", yfill=0):
    """Lines running one transform on input words w; the output array is printed."""
    L = ["buf %s %d 1 0" % (x, len(w))] + set_lines(x, w)
    if k == 1:
        L += ["buf %s %d 1 %d" % (y, out_doubles(k, m, n), yfill), "t %s 1 %d %s %s" % (h, m, x, y), "print " + y]
    else:
        L += ["t %s %d %d %s" % (h, k, m, x), "print " + x]
    return L


def vec(pairs, nv):
    v = [0.0] * nv
    for i, x in pairs:
        if 0 <= i < nv:
            v[i] = x
    return v


def vlines(res):
    return [floats(l) for l in res["out"] if l.startswith("v")]


def bad(x, ref, tol):
    return not (abs(x - ref) <= tol)
