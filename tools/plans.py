"""What each property's check explores: jobs for the symbolic engine, bounds, vacuity witnesses."""
import random

POW2_BIG = [256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072]
MIX_MID = [144, 169, 180, 210, 243, 250, 289, 343, 360, 375, 500, 625, 640, 720, 768, 1000]
MIX_BIG = [2187, 2401, 3125, 3600, 5000, 6144, 10000, 16807, 19683, 30030, 44100, 48000]

ASSUME = [
    "clang's IR (-O1, no vectorisation passes) of the sources has the semantics of the machine code gcc builds from them",
    "libm's sin/cos/sqrt/atan2 and std:: runtime calls behave as specified; OpenMP worksharing is modelled as in DESIGN.md",
    "inputs and intermediate values stay within the normal range of double (see C19 for magnitudes)",
]


class Plan:
    level = "other"
    parts = "all"
    assumptions = ASSUME
    explanation = ""
    outside = ""
    technique = ""
    note = ""

    def budget(self, tier):
        return 420 if tier == "quick" else 6 * 3600

    def nproc(self, tier):
        return 8

    def weight(self, line):
        d = dict(t.split("=", 1) for t in line.split() if "=" in t)
        return int(d.get("n", 1)) * (30 if d.get("mode", "full") == "full" else 1)

    def simplicity(self, j, f):
        d = dict(t.split("=", 1) for t in j.split() if "=" in t)
        return (0 if f.get("x") else 1, int(d.get("n", 0)))

    def twins(self):
        return []

    def jobs(self, tier, seed):
        return []

    def bounds(self, tier):
        return ""


def maxp(n):
    r, p = 1, 2
    while p * p <= n:
        while n % p == 0:
            r, n = p, n // p
        p += 1
    return max(r, n)


def even(l):
    return [n for n in l if n % 2 == 0]


def lin_sizes(kind, tier):
    """(sizes decided in full, sizes decided on all outputs x some inputs and some outputs x all inputs)"""
    if tier == "quick":
        full = list(range(1, 67)) + [72, 77, 81, 96, 97, 99, 100, 105, 112, 120, 121, 125, 127, 128] + MIX_MID[:10] + [256, 512]
        big = [640, 768, 1000] + POW2_BIG[2:] + MIX_BIG
        if kind == 3:
            full = list(range(1, 67)) + [97, 100, 101, 113, 127, 128, 129, 200, 243, 251, 255, 256, 257]
            big = [509, 511, 512, 513, 1000, 1021, 1023, 1025, 2047, 2049, 4096, 4099, 8191, 10007, 16384, 16385, 32768, 66150]
    else:
        full = list(range(1, 301)) + MIX_MID + [320, 384, 400, 441, 448, 480, 512, 600, 729, 840, 900, 961, 1024, 1200, 1296, 1331, 1536, 2048]
        big = list(range(302, 1024, 7)) + POW2_BIG[3:] + [262144, 524288] + MIX_BIG + [65535, 65537 - 1, 100000, 131070, 150000, 196608, 262140]
        if kind == 3:
            full = list(range(1, 301)) + [331, 400, 509, 512, 513, 600, 1000, 1021]
            big = list(range(302, 1100, 7)) + [2047, 2048, 2049, 4095, 4096, 4099, 8191, 8193, 10007, 16384, 16385, 20011, 32768, 32771, 40000, 65536, 65537, 100003]
    if kind in (1, 2):
        full = sorted(set(even(full) + [2 * n for n in full if n in (127, 169, 243, 343)]))
        big = sorted(set(even(big) + [262144] + ([524288] if tier != "quick" else [])))
    return sorted(set(full)), sorted(set(b for b in big if b not in set(full)))


class Lin(Plan):
    technique = "symbolic execution of the compiled code (LLVM IR) + SMT (QF_LRA)"

    def __init__(self, kinds, meths, what):
        self.kinds, self.meths = kinds, meths
        self.explanation = ("Every transform call is executed symbolically (all input elements are free real variables) on the LLVM IR of the current sources; "
                            "the output elements come out as linear forms with an outward bound on accumulated rounding; z3 decides whether any input in the box makes any "
                            "output deviate from the mathematical definition by more than the tolerance (128/256/512 u (log2 n+4)(1+q/3)+8 u p for complex/real/DCT with p the largest and q the number of odd prime factors, 256 u (n+16) for Bluestein, relative to n*scale and the largest input magnitude). " + what)
        self.outside = "lengths not listed; magnitudes where intermediates over- or underflow; rows mode beyond the full sizes covers all outputs for some inputs and some outputs for all inputs"
        self.note = "complete in the input values for each length/method/back end listed in full mode; linear-form extraction by this repository's own IR interpreter is trusted"

    def jobs(self, tier, seed):
        J = []
        for k in self.kinds:
            full, big = lin_sizes(k, tier)
            rnd = random.Random(seed * 97 + k)
            if tier == "quick":
                full = sorted(set(full + rnd.sample([n for n in range(130, 400) if n % 2 == 0], 6)))
            for n in full:
                for o in (1, 2, 3):
                    J.append("lin kind=%d n=%d opt=%d m=%s" % (k, n, o, ",".join(map(str, self.meths))))
            for n in big:
                for i, o in enumerate((1, 2, 3)):
                    if n > 20000 and tier == "quick" and o == 2 and n % 4096 and k != 3:
                        continue
                    ms = [m for m in self.meths]
                    if n >= 65536 and tier == "quick":  # one scaling variant per back end, all variants over the back ends
                        ms = [self.meths[(i + (n >> 16)) % len(self.meths)]] + ([self.meths[(i + 1 + (n >> 16)) % len(self.meths)]] if o == 3 else [])
                    if k == 3 and n >= 65536 and tier == "quick":  # every method has its own code: all of them, spread over the back ends
                        ms = [m for m in self.meths if m % 3 == i]
                    for g in ([[m] for m in ms] if n * (6 if k == 3 else 1) >= 100000 else [ms]):
                        J.append("lin kind=%d n=%d opt=%d m=%s mode=rows rows=%d cols=%d" % (k, n, o, ",".join(map(str, g)), 6, 7 if tier == "quick" else 28))
        return J

    def twins(self):
        k, m = self.kinds[0], self.meths[0]
        return [("lin kind=%d n=16 opt=%d m=%d twin=1" % (k, o, m), "violation") for o in (1, 2, 3)] + [("lin kind=%d n=4096 opt=3 m=%d mode=rows twin=1 tw=0" % (k, m), "violation")]

    def bounds(self, tier):
        return "; ".join("%s: full %s; rows %s" % (["complex", "real", "DCT", "Bluestein"][k],) + tuple(map(str, lin_sizes(k, tier))) if False else
                         "kind %d full n in %s, rows-mode n in %s, back ends SSE2/AVX/AVX2, methods %s" % ((k,) + lin_sizes(k, tier) + (self.meths,)) for k in self.kinds)


class Trip(Plan):
    technique = Lin.technique
    explanation = ("Both transforms of each matching pair (fwd/fwdn with inv/inv0, fwd0 with invn, fwdu with invu, both orders for complex and Bluestein and DCT) are executed symbolically in sequence "
                   "on the same object; z3 decides whether any input makes any element of the composition differ from the input by more than the tolerance.")
    outside = "lengths not listed; over/underflow; the real pair is only composed as forward then inverse"
    note = "complete in the input values for each listed length; rounding accounted for by outward worst-case bounds, so the tolerance grows with the length"

    def sizes(self, k, tier):
        if tier == "quick":
            full = list(range(1, 41)) + [48, 60, 64, 77, 96, 100, 120, 125, 127, 128, 144, 180, 200, 243, 256]
            big = [512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536]
            if k == 3:
                full = list(range(1, 41)) + [64, 97, 100, 128]
                big = [127, 255, 257, 512, 1000, 4096]
        else:
            full = list(range(1, 200)) + [210, 243, 256, 343, 360, 400, 512, 600, 720, 1000, 1024]
            big = [2048, 3125, 4096, 6144, 8192, 10000, 16384, 19683, 32768, 44100, 65536, 131072]
            if k == 3:
                full = list(range(1, 160)) + [200, 256, 300, 512]
                big = [1000, 1021, 4096, 8191, 16384]
        if k in (1, 2):
            full, big = even(full), even(big)
        return full, big

    def pairs(self, k):
        p = [(0, 4), (0, 5), (3, 4), (3, 5), (1, 7), (2, 6)]
        if k != 1:
            p += [(b, a) for a, b in p]
        return ",".join("%d,%d" % q for q in p)

    def jobs(self, tier, seed):
        J = []
        for k in range(4):
            full, big = self.sizes(k, tier)
            for n in full:
                for o in (1, 2, 3):
                    J.append("trip kind=%d n=%d opt=%d pairs=%s" % (k, n, o, self.pairs(k)))
            for n in big:
                for o in (1, 2, 3):
                    p = self.pairs(k)
                    if n >= 32768 and tier == "quick":
                        p = {1: "0,4,1,7", 2: "2,6,3,5", 3: "1,7,7,1" if k != 1 else "1,7,2,6"}[o]
                    J.append("trip kind=%d n=%d opt=%d pairs=%s mode=rows rows=4 cols=7" % (k, n, o, p))
        for n in Alias.ompsizes(self, tier, seed):
            for i, p in enumerate(("0,4", "2,6", "1,7", "3,5")):
                for o in (1, 2, 3) if tier != "quick" else (1 + (i + seed) % 3,):
                    J.append("trip kind=3 n=%d opt=%d pairs=%s mode=rows rows=3 cols=3" % (n, o, p))
        return J

    def twins(self):
        return [("trip kind=%d n=16 opt=3 pairs=1,7 twin=1" % k, "violation") for k in range(4)]

    def bounds(self, tier):
        return "; ".join("kind %d full n in %s, rows-mode n in %s" % ((k,) + self.sizes(k, tier)) for k in range(4)) + "; Bluestein also rows-mode at lengths above the parallel threshold (32769..34000, thorough also 65536 and 70001); all back ends"


class Alias(Plan):
    technique = Lin.technique
    explanation = ("On one object and one symbolic input, pairs of methods that differ only in name or scaling (fwdn=fwd, inv0=inv, fwd0=N fwd=sqrt(N) fwdu, inv=N invn=sqrt(N) invu) "
                   "are executed and z3 decides whether any input makes the scaled outputs differ by more than the tolerance.")
    outside = "lengths not listed; over/underflow"
    note = "complete in the input values for each listed length and back end"
    job = "alias"

    def ompsizes(self, tier, seed):
        r = random.Random(seed * 11 + 3)
        return [r.randrange(32769, 34000)] + ([65536, 70001] if tier != "quick" else [])

    def sizes(self, k, tier):
        if tier == "quick":
            full = list(range(1, 51)) + [60, 64, 77, 96, 100, 120, 127, 128, 180, 200, 243, 256]
            big = [512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536]
            if k == 3:
                full, big = list(range(1, 51)) + [64, 97, 100, 128], [251, 256, 257, 512, 1000, 1021, 4096, 8192]
        else:
            full = list(range(1, 257)) + [300, 343, 360, 400, 512, 600, 720, 1000, 1024]
            big = [2048, 3125, 4096, 6144, 8192, 10000, 16384, 19683, 32768, 44100, 65536, 131072]
            if k == 3:
                full, big = list(range(1, 200)) + [256, 300, 512], [1000, 1021, 4096, 8191, 10007, 16384, 32768]
        if k in (1, 2):
            full, big = even(full), even(big)
        return full, big

    def jobs(self, tier, seed):
        J = []
        for k in range(4):
            full, big = self.sizes(k, tier)
            for n in full + big:
                for o in (1, 2, 3):
                    J.append("alias kind=%d n=%d opt=%d%s" % (k, n, o, "" if n in full else " mode=rows rows=4 cols=7"))
        for n in self.ompsizes(tier, seed):  # Bluestein's parallel branches
            for i in range(6):
                for o in (1, 2, 3) if tier != "quick" else (1 + (i + seed) % 3,):
                    J.append("alias kind=3 n=%d opt=%d ps=%d mode=rows rows=3 cols=3" % (n, o, i))
        return J

    def twins(self):
        return [("alias kind=%d n=16 opt=2 twin=1" % k, "violation") for k in range(4)]

    def bounds(self, tier):
        return "; ".join("kind %d full n in %s, rows-mode n in %s" % ((k,) + self.sizes(k, tier)) for k in range(4)) + "; Bluestein also rows-mode at lengths above the parallel threshold (32769..34000, thorough also 65536 and 70001); all back ends"


class Backs(Alias):
    explanation = ("The same symbolic input goes through objects of the SSE2, AVX and AVX2 back ends in one symbolic memory; z3 decides whether any input makes an output element "
                   "of one back end differ from SSE2's by more than the tolerance.")
    note = "complete in the input values for each listed length and method"

    def jobs(self, tier, seed):
        J = []
        for k in range(4):
            full, big = self.sizes(k, tier)
            for n in full:
                J.append("backs kind=%d n=%d m=0,1,2,3,4,5,6,7" % (k, n))
            for n in big:
                J.append("backs kind=%d n=%d m=%s mode=rows rows=4 cols=7" % (k, n, "0,1,2,3,4,5,6,7" if n < 32768 or tier != "quick" else "1,2,4,7"))
        for n in self.ompsizes(tier, seed):
            for m in range(8):
                for o in (2, 3) if tier != "quick" else (2 + (m + m // 4) % 2,):
                    J.append("backs kind=3 n=%d m=%d ob=%d mode=rows rows=2 cols=2" % (n, m, o))
        return J

    def twins(self):
        return [("backs kind=%d n=16 m=1 twin=1" % k, "violation") for k in range(4)]


class Cpu(Plan):
    technique = "symbolic execution of the compiled code (LLVM IR) + SMT (QF_BV) over CPUID/XCR0 words"
    explanation = ("The factory call, feature detection included, runs symbolically: CPUID leaves 0, 1, 7 (and any other leaf), XCR0 and the requested optimisation are symbolic bit vectors, every feasible path is executed, "
                   "and on each path z3 decides whether any feature words make the back end actually entered (or the domain_error) differ from the specification, whether XGETBV can execute without OSXSAVE, and whether destruction enters a back end the machine does not support.")
    outside = "feature words in which AVX2 is reported without AVX, AVX without SSE2, or OSXSAVE without XSAVE (architecturally impossible); non-Linux detection code; builds with a subset of back ends"
    note = "complete in the feature words and the requested optimisation; inline assembly modelled by its operands"

    def jobs(self, tier, seed):
        return ["cpu kind=%d n=%d" % (k, n) for k in range(4) for n in ((0, 2, 64, 1000) if tier == "quick" else (0, 1, 2, 6, 64, 128, 1000, 4096, 65536)) if k == 0 or k == 3 or n % 2 == 0]

    def twins(self):
        return [("cpu kind=%d n=64 twin=1" % k, "violation") for k in range(4)]

    def bounds(self, tier):
        return "all 2^32 values of each relevant CPUID/XCR0 register, maximum leaf up to 0x40, 4 requests, 4 factories; lengths as listed in the samples"


class Cplx(Plan):
    technique = "symbolic execution of the compiled code (LLVM IR) + SMT (QF_UFNRA) over real operands"
    explanation = ("Every operator and function of complex_t is executed on four symbolic reals; z3 decides whether any operand makes a component differ from the mathematical value (roots by their defining equation, sin/cos/atan2 uninterpreted), "
                   "and a second query decides whether any operand makes an intermediate much larger than the result scale or a denominator ill-conditioned, so that the real identity carries over to floating point.")
    outside = "operands for which an intermediate square over- or underflows; proj()"
    note = "complete in real operands; rounding handled by a magnitude condition and an operation count (at most 64 roundings)"

    def entries(self):
        import re, os
        import vlib
        return re.findall(r"C\((\w+)\)", open(os.path.join(vlib.VERIF, "harness/cplx_list.h")).read())

    def jobs(self, tier, seed):
        return ["cplx f=" + e for e in self.entries()]

    def twins(self):
        return [("cplx f=%s twin=1" % e, "violation") for e in ("c_mul", "c_div", "c_abs", "c_arg", "c_polar", "c_muleq_self")]

    def bounds(self, tier):
        return "all real operands (conditioning query: |component| 0 or in [1e-3, 1e3]); %d entry points" % len(self.entries())


def pairs_for(k, tier):
    """(first length, second length) histories"""
    small = [(1, 1), (1, 8), (8, 1), (2, 3), (3, 2), (8, 8), (8, 6), (6, 8), (16, 17), (30, 8), (5, 8), (64, 128), (128, 64), (100, 128), (96, 120), (12, 13), (4, 49)]
    mid = [(256, 512), (1000, 1024), (2048, 600)]
    if tier != "quick":
        small += [(a, b) for a in (1, 2, 3, 4, 5, 7, 8, 9, 16, 27, 32, 35) for b in (1, 2, 6, 8, 16, 32, 40) if (a, b) not in small]
        mid += [(4096, 5000), (5000, 4096), (8192, 16384), (16384, 1000), (2187, 2401), (3600, 3600)]
    f = (lambda p: (p[0] + p[0] % 2, p[1] + p[1] % 2)) if k in (1, 2) else (lambda p: p)
    return sorted(set(map(f, small))), sorted(set(map(f, mid)))


class Fault(Plan):
    technique = "symbolic execution of the compiled code (LLVM IR) with symbolic allocation outcomes + SMT path feasibility"
    explanation = ("The factory call and setup run with one Boolean unknown per allocation (at most one, with deep=1 two, of them failing); every feasible path is executed. On each path: the status code must be bad_alloc exactly when an allocation failed, "
                   "every block must be released after a failed factory call or after destruction (blocks reachable from globals excepted), no freed or foreign block may be touched or freed, and an object whose setup failed is destroyed, or set up again (same or previous length, possibly failing once more) and used: its outputs must be the expressions a fresh object computes (z3 decides linear-form equality where they are not identical). Repeated setup without failures must not accumulate memory.")
    outside = "more than two failing allocations in one history; lengths not listed; failures inside transform calls"
    note = "complete in the choice of the failing allocation and of the follow-up for each listed length pair, kind and back end"

    def jobs(self, tier, seed):
        J = []
        for k in range(4):
            small, mid = pairs_for(k, tier)
            for n, n2 in small:
                for o in (1, 2, 3):
                    J.append("fault kind=%d n=%d n2=%d opt=%d m=0,1,2,4,6,7%s" % (k, n, n2, o, " deep=1" if n + n2 < 300 else ""))
            for n, n2 in mid:
                for o in (1, 2, 3):
                    J.append("fault kind=%d n=%d n2=%d opt=%d m=1,6" % (k, n, n2, o))
            for n, n2 in [(65536, 32768), (131072, 262144), (262144, 131072)] if tier == "quick" else [(65536, 32768), (131072, 262144), (262144, 131072), (65536, 65536), (524288, 1 << 20), (1 << 20, 65536)]:
                J.append("fault kind=%d n=%d n2=%d opt=%d cmp=0" % (k, n // (4 if k == 3 else 1), n2 // (4 if k == 3 else 1), 1 + (n >> 16) % 3))
        return J

    def twins(self):
        return [("fault kind=%d n=8 n2=6 opt=%d twin=1" % (k, 1 + k % 3), "violation") for k in range(4)]

    def bounds(self, tier):
        return "every single allocation failure (and pairs for small lengths); length pairs " + "; ".join("kind %d %s" % (k, pairs_for(k, tier)) for k in range(4)) + "; plus lengths up to 2^18 (thorough 2^20) without result comparison"


class Mem(Plan):
    technique = "symbolic execution of the compiled code (LLVM IR) over a bounds-exact memory model + SMT (QF_BV range queries, QF_LRA path feasibility)"
    explanation = ("A history create(n), every method, setup(n2), every method, setup(n), every method, destroy runs on arbitrary input values (an abstract 'any value' that every result computed from the data takes; exact symbolic values where a branch depends on the data) over a memory model in which every array, caller's or object's, is a separate object of exactly its allocated size and every fresh word carries an 'uninitialised' mark. "
                   "Every load and store is recorded per instruction and object; an SMT query per call asks for an offset inside the recorded ranges that lies outside its object (the interpreter itself stops at the first access outside, freed or to constant memory). No output element may depend on an uninitialised word; branches on input values are forked with z3 deciding feasibility.")
    outside = "lengths not listed (addresses are concrete for each length); accesses made inside libstdc++/libm"
    note = "complete in the input values for each length pair/method/back end listed; addresses are input-independent except on forked paths"
    job = "mem"

    def sizes(self, k, tier):
        if tier == "quick":
            dense, mid, big = list(range(1, 201)), [210, 243, 250, 256, 289, 343, 360, 375, 500, 512, 529, 600, 625, 720, 729, 1000, 1024], [2048, 2187, 3125, 4096, 5000, 8192, 10007, 16384, 19683, 30030, 32768, 44100, 50021, 65536, 131072, 262144]
        else:
            dense, mid, big = list(range(1, 601)), [625, 729, 1000, 1024, 1331, 2048, 2187, 3125, 4096], [4913, 5000, 6144, 8192, 9973, 10007, 14641, 16384, 16807, 19683, 20000, 30030, 32768, 40000, 44100, 48000, 50021, 59049, 65535, 65536, 65537, 98304, 100000, 131072, 150000, 177147, 196608, 262144, 300000, 390625, 524288, 786432, 1 << 20, 1 << 21]
        if k == 3 and tier == "quick":
            dense, big = dense[:100] + [127, 128, 129], [b for b in big if b <= 66000]
        if k != 3:  # the complex transforms are O(n^2) at large primes
            big = [b for b in big if b not in (9973, 10007, 50021, 65537, 65535)]
        if k in (1, 2):
            dense, mid, big = even(dense), even(mid), even(big)
            if tier == "quick":
                big += [524288]
        elif k == 0 and tier == "quick":
            big += [1 << 19, 1 << 20]
        return dense, mid, big

    def jobs(self, tier, seed):
        J = []
        for k in range(4):
            dense, mid, big = self.sizes(k, tier)
            rnd = random.Random(seed * 31 + k)
            al = ",".join(map(str, range(8)))
            for n in dense + mid:
                for o in (1, 2, 3):
                    n2 = rnd.choice(dense)
                    J.append("%s kind=%d n=%d n2=%d opt=%d m=%s sym=1" % (self.job, k, n, n2, o, al))
            for n in big:
                for o in (1, 2, 3):
                    n2 = rnd.choice(dense + mid)
                    ms = al if tier != "quick" or n < 60000 else {1: "0,1,5,6", 2: "2,3,4,7", 3: "1,2,4,6"}[o]
                    J.append("%s kind=%d n=%d n2=%d opt=%d m=%s sym=%d%s" % (self.job, k, n, n2, o, ms, 1 if n <= 5000 and k != 3 else 0, " back=0" if n >= 8192 and tier == "quick" else ""))
        return J

    def weight(self, line):
        d = dict(t.split("=", 1) for t in line.split() if "=" in t)
        return int(d.get("n", 1)) * (8 if d.get("kind") == "3" else 1) * (5 if d.get("sym") == "1" else 1)

    def twins(self):
        return [("mem kind=%d n=16 n2=12 opt=%d m=0,1,4,6 twin=%d" % (k, 1 + k % 3, t), "violation") for k in range(4) for t in (1, 2)]

    def bounds(self, tier):
        return "; ".join("kind %d n in %s, %s, %s" % ((k,) + self.sizes(k, tier)) for k in range(4)) + "; second length of each history drawn from the same range with the seed; all back ends, all methods"


class Align(Mem):
    technique = "symbolic execution of the compiled code (LLVM IR) + SMT (QF_BV) over symbolic base addresses"
    explanation = ("The same histories as C09 run with every load and store's alignment requirement (from the IR: aligned SIMD loads carry 16 or 32, unaligned ones 1 or 8) recorded together with the offset from the base of the array it touches. Each array's base address is a symbolic 64-bit word of which only the alignment its origin guarantees is known "
                   "(8 for caller arrays, the alignment argument for posix_memalign, 16 for new/malloc, the declared alignment for stack and global objects); z3 decides whether any base address makes any recorded access violate its requirement.")
    outside = "lengths not listed; alignment assumptions gcc derives beyond those visible in clang's IR of the same source"
    note = "complete in base addresses and input values for each length/method/back end listed"
    job = "align"

    def twins(self):
        return [("align kind=%d n=64 n2=96 opt=%d m=0,1,4,6 twin=1" % (k, o), "violation") for k in range(4) for o in (1, 2, 3)]


class Hist(Plan):
    technique = "symbolic execution of the compiled code (LLVM IR) with havocked object state + SMT (QF_LRA)"
    explanation = ("Each method's outputs on a fresh object and symbolic input are the reference expressions. (a) Earlier transforms: every method is run on other symbolic inputs while all writes to heap and global memory are recorded; unless an integer or pointer word changed, every floating-point word written is then replaced by an arbitrary value and each method must reproduce the reference expression, "
                   "which covers transform histories of any length; if that fails, the ordered pairs and repetitions of methods are decided explicitly. (b) Earlier setups: objects created with other lengths (0 included), used, set up again, also back and forth and twice. (c) Other objects of any kind used, set up and destroyed in between. The solver decides equality of the terms, or, where they are not the same term, whether any input makes the linear forms differ by more than the tolerance.")
    outside = "lengths and length pairs not listed; setup histories of more than five setups; for lengths above 400 only a few input elements are symbolic, the others are fixed numbers"
    note = "complete in the values of current and earlier inputs (up to length 400) and in the number of earlier transforms; setup histories as listed"

    def sizes(self, k, tier):
        if tier == "quick":
            small, big = list(range(1, 34)) + [35, 36, 40, 48, 49, 50, 60, 64, 77, 81, 96, 100, 121, 125, 128], [512, 1000, 1024, 2048, 4096, 10000, 32768] + ([65536] if k != 3 else [])
        else:
            small, big = list(range(1, 200)) + [210, 240, 243, 256, 300, 343, 360, 400], [512, 625, 1000, 1024, 2048, 2187, 4096, 5000, 8192, 10000, 16384, 30030, 32768, 44100, 65536, 100000, 131072, 262144]
        if k == 3 and tier == "quick":
            small = small[:33] + [50, 64, 100]
            big = [512, 1000, 4096]
        if k in (1, 2):
            small, big = even(small), even(big)
        return small, big

    def jobs(self, tier, seed):
        J = []
        al = ",".join(map(str, range(8)))
        for k in range(4):
            small, big = self.sizes(k, tier)
            rnd = random.Random(seed * 53 + k)
            for n in small + big:
                sp = 0 if n <= (128 if tier == "quick" else 400) else 6
                for o in (1, 2, 3):
                    step = 2 if k in (1, 2) else 1
                    p2 = 1 << max(1, n.bit_length())
                    c = [0, n + step, max(step, n - step), p2, max(step, p2 // 4), 2 * n, max(step, n // 2 // step * step)]
                    near = [q for q in small if q <= 2 * n + 8]
                    c += rnd.sample(near, min(2, len(near)))
                    n1 = sorted(set(q for q in c if q != n and (not q or q % step == 0)))
                    if sp:  # the mixed-radix code is quadratic at large primes
                        n1 = [0] + rnd.sample([q for q in n1 + [n // 2, n // 8 * 5, n // 4] if q and q <= 70000 and q % step == 0 and (k == 3 or maxp(q) <= 50)], 2 if n < 20000 else 1)
                    elif tier == "quick":
                        n1 = [0] + rnd.sample([q for q in n1 if q], min(4, len(n1) - 1))
                    ok = [k, rnd.randrange(4)]
                    on = [n, rnd.choice((2, 6, 8, 16, 30, 64))]
                    ms = al if n < 20000 or tier != "quick" else {1: "0,1,6", 2: "1,2,4", 3: "2,5,7"}[o]
                    J.append("hist kind=%d n=%d opt=%d m=%s n1=%s on=%s ok=%s sp=%d" % (k, n, o, ms, ",".join(map(str, n1)), ",".join(map(str, on)), ",".join(map(str, ok)), sp))
        return J

    def weight(self, line):
        d = dict(t.split("=", 1) for t in line.split() if "=" in t)
        return int(d.get("n", 1)) * (6 if d.get("kind") == "3" else 1) * (3 if d.get("sp") == "0" else 1)

    def twins(self):
        return [("hist kind=%d n=8 opt=%d m=0,1,4,6 n1=0 on=8 ok=0 twin=1" % (k, 1 + k % 3), "violation") for k in range(4)]

    def bounds(self, tier):
        return "; ".join("kind %d fully symbolic n in %s, 6 symbolic input variables at n in %s" % ((k,) + self.sizes(k, tier)) for k in range(4)) + "; all methods and back ends; 2 to 9 earlier lengths per object"


class Race(Plan):
    technique = "symbolic execution of the compiled code (LLVM IR, OpenMP worksharing included) + SMT (QF_UFLIA) over iterations, iteration-to-thread assignments and thread counts"
    explanation = ("Setup and every transform run on arbitrary data (abstract values: any branch or address that depended on the data would stop the run) with every worksharing iteration kept apart. For every parallel region, every stretch between barriers "
                   "and every array, the units that write and that access each element are compressed to affine pieces; an SMT query asks for an element and a thread assignment (an uninterpreted function of loop shape and iteration, as OpenMP guarantees for static schedules) "
                   "that puts two units touching it, one of them writing, on different threads. A satisfiable query is concretised with the balanced static partition and a symbolic thread count and replayed under ThreadSanitizer. "
                   "Result independence: one thread and one thread per iteration are executed on the same symbolic inputs and their outputs compared (QF_LRA).")
    outside = "lengths not listed; OpenMP constructs other than parallel, for, sections, single, master, critical, barrier; the OpenMP runtime itself; nested regions are taken to run on one thread"
    note = "complete in the data, the thread count and the interleaving for each listed length/method/back end"

    def sizes(self, k, tier):
        s = [2048, 4096, 8192, 8100, 16384, 16200, 32768, 33614, 34992, 36000, 40000, 43750, 44100, 65536, 131072, 262144, 524288]
        if tier != "quick":
            s += [1 << 20, 1 << 21, 1 << 22, 1 << 23, 1 << 24, 35000, 49152, 50000, 52488, 60060, 61250, 65610, 78732, 98304, 100000, 117649 - 1, 163840, 177147, 196608, 229376, 300000, 390625, 531441, 823543, 1000000]
        if k == 3:
            s = [1000, 8192, 16385, 32768, 40009, 65536] + ([32769, 16384, 65537, 100003, 1 << 17] if tier != "quick" else []) + ([131072, 131073, 200003, 262144, 300007, 524288, 600011] if tier != "quick" else [])
        return s if k in (0, 3) else even(s)

    def jobs(self, tier, seed):
        J = []
        rnd = random.Random(seed * 17 + 5)
        al = ",".join(map(str, range(8)))
        for k in range(4):
            s = self.sizes(k, tier)
            r = [q for q in (rnd.randrange(16385, 35000 if tier == "quick" else 70000) * 2 for _ in range(400)) if maxp(q) <= 13][:(2 if k < 3 else 1) if tier == "quick" else 24]
            for i, n in enumerate(s + r):
                for o in (1, 2, 3):
                    ms = al
                    if tier == "quick" and (k == 3 and n > 10000 or n > 60000 or n in r):
                        ms = [["0,4,6", "1,2,5", "2,3,7"], ["0,1,5", "2,4", "3,6,7"], ["3,4", "0,2,6", "1,5,7"]][(i + seed) % 3][o - 1]
                    if k == 3 and n > 60000 and tier == "quick":
                        ms = ms[2 * ((o + seed) % 2)]
                    J.append("race kind=%d n=%d opt=%d m=%s%s" % (k, n, o, ms, " n2=%d" % rnd.choice(s[:8] if k < 3 else s[:2]) if n < 70000 else ""))
        for k in range(4):
            v = {0: [8192, 36000, 65536], 1: [8192, 40000, 65536], 2: [16384, 36000], 3: [8192, 32769]}[k] + ([16384, 32768, 34992, 131072] if tier != "quick" else [])
            for i, n in enumerate(v):
                for o in (1, 2, 3) if tier != "quick" else (1 + (i + k + seed) % 3,):
                    for m in range(8) if tier != "quick" else ([1, 7] if k < 3 else [(i + seed) % 8, (i + seed + 3) % 8]):
                        J.append("race kind=%d n=%d opt=%d m=%d val=3" % (k, n, o, m))
        return J

    def weight(self, line):
        d = dict(t.split("=", 1) for t in line.split() if "=" in t)
        return int(d["n"]) * (8 if d["kind"] == "3" else 1) * (20 if "val" in d else 1)

    def twins(self):
        return [("race kind=%d n=%d opt=%d m=0 twin=1" % (k, n, o), "violation") for k, n, o in ((0, 65536, 3), (0, 40000, 1), (3, 40000, 2))] + [("race kind=0 n=8192 opt=1 m=1 val=3 twin=1", "violation")]

    def bounds(self, tier):
        return "; ".join("kind %d n in %s plus smooth lengths drawn with the seed up to 140000" % (k, self.sizes(k, tier)) for k in range(4)) + "; all methods and back ends; any thread count; results compared at a few lengths"


class Share(Plan):
    technique = "symbolic execution of the compiled code (LLVM IR) of two threads' calls + SMT (QF_LIA) over schedules and addresses; QF_LRA for interleaved calls"
    explanation = ("Two histories on two distinct objects (whole lifecycles; transforms against transforms; transforms against set-up, transforms and destruction) run in one memory on arbitrary data, each in the role of a thread with its own thread-local variables, in both orders. Every access to global or heap memory is recorded per stretch between synchronisation operations "
                   "(static-initialisation guards, mutexes, atomics). One SMT query per pair asks for a byte both threads touch, one writing, and for a schedule (integer time stamps that respect program order, guard publication, lock sections and the values read from atomics) in which both accesses happen at the same time. A satisfiable query is replayed with two threads under ThreadSanitizer. "
                   "Calls on two objects interleaved in one thread are compared with the same calls on one object alone (QF_LRA).")
    outside = "lengths not listed; more than two threads; memory shared inside the C and C++ runtime libraries; interleavings inside a call for state that is only touched under one lock"
    note = "complete in the data and the schedule for each pair of histories listed"

    def jobs(self, tier, seed):
        J = []
        rnd = random.Random(seed * 13 + 7)
        al = ",".join(map(str, range(8)))
        sz = [1, 2, 8, 60, 64, 100, 128, 254, 256, 720, 1024, 2048, 4096, 5000, 8192, 16384]
        big = [32768, 34992, 65536, 131072] + ([262144, 524288, 100000] if tier != "quick" else [])
        if tier != "quick":
            sz = list(range(1, 65)) + sz + [14, 42, 96, 210, 360, 500, 512, 1000, 3000, 20000]
        ok = lambda k, n: n if k in (0, 3) or n == 1 else n + n % 2
        for k in range(4):
            for k2 in range(4):
                for i, n in enumerate(sz):
                    if k == 3 and n > 5000:
                        continue
                    same = k == k2 and i % 2 == 0 or (k != k2 and i % 4 == 0)
                    n2 = n if same else rnd.choice([q for q in sz if q <= 5000])
                    o, o2 = rnd.choice((0, 1, 2, 3)), rnd.choice((1, 2, 3))
                    if same and i % 4 == 0:
                        o2 = o = rnd.choice((1, 2, 3))
                    J.append("share kind=%d n=%d opt=%d kind2=%d n2=%d opt2=%d n3=%d m=%s m2=%s" % (k, ok(k, n), o, k2, ok(k2, n2), o2, ok(k2, rnd.choice([8, 60, 256, 1000])), al, al))
            for n in big:
                for o in (1, 2, 3):
                    m = {1: "0,4,6", 2: "1,2,5", 3: "2,3,7"}[o]
                    if k == 3 and (n > 40000 or n > 33000 and tier == "quick"):
                        continue
                    J.append("share kind=%d n=%d opt=%d kind2=%d n2=%d opt2=%d m=%s m2=%s" % (k, n, o, k, n, o, m if k < 3 else m[:1], m if k < 3 else m[2:3]))
            for k2 in range(4):
                for n in [8, 36, 64, 250] + ([1024, 2048, 720] if tier != "quick" else []):
                    J.append("share kind=%d n=%d opt=%d kind2=%d n2=%d opt2=%d n3=%d m=%s m2=%s val=4" % (k, ok(k, n * 2), rnd.choice((1, 2, 3)), k2, ok(k2, n), rnd.choice((1, 2, 3)), ok(k2, 12), al, al))
        return J

    def weight(self, line):
        d = dict(t.split("=", 1) for t in line.split() if "=" in t)
        return int(d["n"]) * (8 if d["kind"] == "3" else 1) + int(d["n2"]) * (8 if d["kind2"] == "3" else 1)

    def twins(self):
        return [("share kind=%d n=64 opt=1 kind2=%d n2=64 opt2=%d m=0,4 m2=0,4 n3=96 twin=1%s" % (k, 3 - k, 1 + k % 3, v), "violation") for k in range(4) for v in ("", " val=4")]

    def bounds(self, tier):
        return "all pairs of kinds; lengths 1..16384 (a list and seeded pairs, equal and different lengths and back ends), 32768..131072 for equal pairs; two threads, up to 2 set-ups and 16 transforms each"


class Bound(Plan):
    technique = "symbolic execution of the compiled code (LLVM IR) on intervals + SMT (nonlinear real arithmetic) deciding every distinct interval step"
    explanation = ("Set-up runs concretely; every transform then runs on inputs of which only the magnitude bound 1e290 is known. Each operation on data yields a bound on a lattice of 2^e*(1+j/k); every distinct (operation, operand bounds, result bound) met on the way is decided by one SMT query asking for operands inside their bounds whose rounded result leaves the claimed bound. "
                   "All bounds must stay below the overflow threshold (of float, where data pass through float), no value may meet an infinite or NaN constant, and no operation without a bound (division by data, ...) may occur. "
                   "Where control flow depends on the data, exact symbolic terms are used per path. A violation is replayed natively on inputs of magnitude 1e290 in several patterns and counts only if an output is not finite.")
    outside = "lengths not listed; input magnitudes above 1e290; underflow (covered for relative accuracy by C01-C06)"
    note = "complete in the data (all magnitudes up to 1e290) for each listed length/method/back end; interval bounds, so slack is possible but no bound exceeds the limit on the unchanged tree"

    def sizes(self, k, tier):
        if tier == "quick":
            s = list(range(1, 131)) + [144, 180, 210, 243, 250, 256, 343, 360, 375, 500, 509, 512, 625, 720, 729, 1000, 1024, 2048, 2187, 3125, 4096, 5000, 8192, 10000, 16384, 16900, 30030, 32768, 34992, 44100, 65536, 131072, 262144]
            if k == 3:
                s = [q for q in s if q < 131] + [255, 257, 509, 1000, 1021, 4096, 5000, 8192, 16384, 32768, 50021, 65537]
        else:
            s = list(range(1, 601)) + [625, 720, 729, 997, 1000, 1024, 1331, 2003, 2048, 2187, 3125, 4096, 4913, 5000, 6144, 8192, 10000, 14641, 16384, 16807, 16900, 19683, 30030, 32768, 34992, 40000, 44100, 48000, 59049, 65536, 78732, 98304, 100000, 131072, 177147, 196608, 262144, 300000, 390625, 524288, 1 << 20, 1 << 21, 1 << 22, 1 << 23]
            if k == 3:
                s = [q for q in s if q < 601] + [625, 997, 1000, 1021, 2003, 4096, 8192, 10007, 16384, 32768, 50021, 65537, 100003, 131072, 200003, 262145, 524287]
        return s if k in (0, 3) else sorted({q + q % 2 if q > 1 else q for q in s})

    def jobs(self, tier, seed):
        J = []
        al = "0,1,2,3,4,5,6,7"
        for k in range(4):
            for i, n in enumerate(self.sizes(k, tier)):
                if k < 3 and maxp(n) > (520 if tier == "quick" else 2100):
                    continue
                sub = 8
                while k < 3 and sub * 16 < maxp(n):
                    sub *= 2
                for o in (1, 2, 3):
                    ms = al
                    if n > (6000 if k == 3 else 20000) and tier == "quick":
                        ms = [["0,4,6", "1,2,5", "2,3,7"], ["0,1,5", "2,4", "3,6,7"], ["3,4", "0,2,6", "1,5,7"]][(i + seed) % 3][o - 1]
                    if n > (30000 if k == 3 else 100000) and tier == "quick":
                        ms = ms[2 * ((o + seed) % 2)]
                    J.append("bound kind=%d n=%d opt=%d m=%s%s" % (k, n, o, ms, " sub=%d" % sub if sub > 8 else ""))
        return J

    def weight(self, line):
        d = dict(t.split("=", 1) for t in line.split() if "=" in t)
        n, k = int(d["n"]), int(d["kind"])
        return n * (8 if k == 3 else maxp(n)) * len(d["m"].split(","))

    def twins(self):
        return [("bound kind=%d n=60 opt=%d m=%d twin=1" % (k, 1 + k % 3, m), "violation") for k in range(4) for m in (1, 5) if (k, m) != (2, 5)]

    def bounds(self, tier):
        return "; ".join("kind %d: %d lengths up to %d" % (k, len(self.sizes(k, tier)), max(self.sizes(k, tier))) for k in range(4)) + "; all methods (some at the largest lengths in the quick tier), all back ends; input magnitudes up to 1e290"


class Size(Plan):
    parts = "size"
    technique = "symbolic execution of the compiled code (unoptimised LLVM IR) with symbolic loop indices and thread shares + SMT (linear and nonlinear integer arithmetic)"
    explanation = ("For each listed length the factory and every transform run symbolically on IR taken straight from the front end (signed-overflow flags intact): each loop is executed for an arbitrary iteration (inductive in the loop counter), each parallel loop for an arbitrary thread share, recursion over the factors is followed, arrays have their allocated sizes in bytes and the data are opaque. "
                   "Each signed operation must stay within its type, each division and shift be defined, and each load, store, memcpy and kernel call stay inside its array; every one is an SMT query over the loop indices in scope. A violation is replayed at that very length with overflow checks, on arrays fenced by unmapped space (their contents share a few pages, so that lengths of 2^30 fit).")
    outside = "lengths not listed; the insides of the power-of-two kernels up to 2^24 points (taken to touch exactly the elements of their length; C09 executes them up to 2^20)"
    note = "complete in loop indices, thread shares and data for each listed length/method/back end"
    assumptions = ASSUME[:1] + ["a static OpenMP schedule gives each thread a sub-range of the loop", "the power-of-two kernels touch exactly the elements of their length"]

    def sizes(self, k, tier, seed):
        top = 1 << 28 if k == 3 else 1 << 30
        s = [1, 2, 3, 4, 6, 7, 10, 14, 15, 22, 30, 35, 49, 98, 121, 210, 360, 1000, 4096, 8191, 16384, 32766, 32768, 34992, 65536, 92698, 92702, 99990, 131072, 1 << 20, 3 ** 12 * 2, 5 ** 8 * 2, 7 ** 6 * 6, 46349 * 2]
        s += [1 << 24, 1 << 25, 1 << 26, 2 * 3 ** 15, 5 ** 11 * 2, 7 ** 9 * 2, 223092870, 10 ** 8, 32771 * 8190]
        if k == 3:
            s += [top - 57, top - 1, top, top // 2, top // 2 + 1, 46341, 65537, 32769, (1 << 24) + 1, (1 << 27) - 1]
        else:
            s += [top, top - 2, top - 4, top - 34, top - 38, top // 2, 46349 * 23162, 2 * 3 ** 17, 2 * 5 ** 12, 2 * 7 ** 10, 10 ** 9, 536870909 * 2, 32771 * 16363 * 2, 715827882]
        r = random.Random(seed * 29 + k)
        for i in range(6 if tier == "quick" else 150):
            s.append(int(2 ** r.uniform(8, 28 if k == 3 else 30)))
        if tier != "quick":
            s += list(range(1, 200)) + [1 << e for e in range(8, 31)] + [3 ** e for e in range(5, 19)] + [5 ** e for e in range(4, 13)] + [6 ** e for e in range(4, 12)] + [7 ** e for e in range(3, 11)] + [11 ** e for e in range(2, 9)] + [(1 << e) - 1 for e in range(8, 31)] + [(1 << e) + 2 for e in range(8, 30)]
        if k in (1, 2):
            s = [q + q % 2 for q in s]
        return sorted(q for q in set(s) if q <= top)

    def jobs(self, tier, seed):
        J = []
        for k in range(4):
            for i, n in enumerate(self.sizes(k, tier, seed)):
                for o in (1, 2, 3) if tier != "quick" else (1 + (i + k + seed) % 3,):
                    J.append("size kind=%d opt=%d n=%d m=%s" % (k, o, n, "0,1,3,4,5,7" if k == 2 else "0,1,2,3,4,5,6,7"))
        return J

    def weight(self, line):
        d = dict(t.split("=", 1) for t in line.split() if "=" in t)
        return int(d["n"]) * (4 if d["kind"] in "23" else 1)

    def simplicity(self, j, f):
        d = dict(t.split("=", 1) for t in j.split() if "=" in t)
        return (0, int(d["n"]))

    def twins(self):
        return [("size kind=%d opt=%d n=%d m=%d twin=1" % (k, 1 + k % 3, n, m), "violation") for k in range(4) for n, m in ((96, 0), (100002, 4))] + [("size kind=%d opt=3 n=2147483646 m=0" % k, "violation") for k in (3,)]

    def bounds(self, tier):
        return "; ".join("kind %d n in %s" % (k, self.sizes(k, tier, 1)) for k in range(4)) + " (a few of these drawn with the seed); all methods; each length on one back end, rotating (thorough: all)"


PLANS = {
    "C01": Lin([0], [0, 1, 2, 3], "Complex forward methods fwd, fwd0, fwdu, fwdn."),
    "C02": Lin([0], [4, 5, 6, 7], "Complex inverse methods inv, inv0, invu, invn."),
    "C03": Lin([1], [0, 1, 2, 3], "Real forward methods; the input array is also required to come back unmodified."),
    "C04": Lin([1], [4, 5, 6, 7], "Real inverse methods on symbolic conjugate-symmetric spectra."),
    "C05": Lin([2], [0, 1, 3, 4, 5, 7], "DCT methods fwd, fwd0, fwdn, inv, inv0, invn."),
    "C06": Lin([3], [0, 1, 2, 3, 4, 5, 6, 7], "Bluestein methods, forward and inverse."),
    "C07": Trip(),
    "C08": Alias(),
    "C09": Mem(),
    "C10": Align(),
    "C11": Hist(),
    "C12": Race(),
    "C13": Cpu(),
    "C14": Fault(),
    "C15": Backs(),
    "C16": Cplx(),
    "C17": Size(),
    "C18": Share(),
    "C19": Bound(),
}

NOT_APPLICABLE = {}
