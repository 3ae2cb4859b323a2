"""Native back-end selection under given CPUID/XCR0 words: otfft.cpp is compiled to assembly, its cpuid and xgetbv
instructions become calls to stubs, and the program reports which back end the created object belongs to."""
import os, re, shutil, subprocess, tempfile
import vlib

MAIN = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <typeinfo>
#include <stdexcept>
#include "otfft.h"
static uint32_t W(const char* n) { const char* s = getenv(n); return s ? (uint32_t)strtoul(s, 0, 0) : 0; }
extern "C" { uint32_t st_regs[4]; int st_xgetbv = 0;
void st_cpuid_c(uint32_t leaf) {
    uint32_t mx = W("max_leaf"); memset(st_regs, 0, sizeof st_regs);
    if (leaf == 0) { st_regs[0] = mx; st_regs[1] = 0x756e6547; }
    else if (leaf <= mx && leaf == 1) { st_regs[2] = W("leaf1_ecx"); st_regs[3] = W("leaf1_edx"); }
    else if (leaf <= mx && leaf == 7) { st_regs[1] = W("leaf7_ebx"); } }
void st_xgetbv_c() { st_regs[0] = W("xcr0_lo"); st_regs[3] = 0; if (W("max_leaf") < 1 || !(W("leaf1_ecx") & (1u << 27))) { st_xgetbv = 1; } } }
__asm__(".text\n.globl st_cpuid\nst_cpuid:\n pushq %rsi\n pushq %rdi\n pushq %r8\n pushq %r9\n pushq %r10\n pushq %r11\n pushq %rbp\n movq %rsp,%rbp\n andq $-16,%rsp\n movl %eax,%edi\n call st_cpuid_c\n"
  " movq %rbp,%rsp\n popq %rbp\n popq %r11\n popq %r10\n popq %r9\n popq %r8\n popq %rdi\n popq %rsi\n movl st_regs(%rip),%eax\n movl 4+st_regs(%rip),%ebx\n movl 8+st_regs(%rip),%ecx\n movl 12+st_regs(%rip),%edx\n ret\n"
  ".globl st_xgetbv_\nst_xgetbv_:\n pushq %rcx\n pushq %rsi\n pushq %rdi\n pushq %r8\n pushq %r9\n pushq %r10\n pushq %r11\n pushq %rbp\n movq %rsp,%rbp\n andq $-16,%rsp\n call st_xgetbv_c\n"
  " movq %rbp,%rsp\n popq %rbp\n popq %r11\n popq %r10\n popq %r9\n popq %r8\n popq %rdi\n popq %rsi\n popq %rcx\n movl st_regs(%rip),%eax\n movl 12+st_regs(%rip),%edx\n ret\n");
using namespace OTFFT;
static const char* be(const char* n) { return strstr(n, "OTFFT_AVX2") ? "AVX2" : strstr(n, "OTFFT_AVX") ? "AVX" : strstr(n, "OTFFT_SSE2") ? "SSE2" : n; }
int main(int, char** v) {
    int kind = atoi(v[1]), n = atoi(v[2]), opt = atoi(v[3]); OptimizationType t = OptimizationType::OPTIMIZED_FFT_AUTO;
#ifdef OTFFT_WITH_SSE2
    if (opt == 1) t = OptimizationType::OPTIMIZED_FFT_SSE2;
#endif
#ifdef OTFFT_WITH_AVX
    if (opt == 2) t = OptimizationType::OPTIMIZED_FFT_AVX;
#endif
#ifdef OTFFT_WITH_AVX2
    if (opt == 3) t = OptimizationType::OPTIMIZED_FFT_AVX2;
#endif
    try {
        if (kind == 0) { auto p = Factory::createComplexFFT(n, t); auto& r = *p; printf("got %s\n", be(typeid(r).name())); }
        else if (kind == 1) { auto p = Factory::createRealFFT(n, t); auto& r = *p; printf("got %s\n", be(typeid(r).name())); }
        else if (kind == 2) { auto p = Factory::createDCT(n, t); auto& r = *p; printf("got %s\n", be(typeid(r).name())); }
        else { auto p = Factory::createBluesteinFFT(n, t); auto& r = *p; printf("got %s\n", be(typeid(r).name())); }
    } catch (const std::domain_error&) { printf("got domain_error\n"); } catch (...) { printf("got exception\n"); }
    printf("xgetbv %d\n", st_xgetbv); fflush(stdout); _Exit(0); }
'''


def expected(have, w):
    one = w["max_leaf"] >= 1
    ecx, edx = w["leaf1_ecx"], w["leaf1_edx"]
    os_ = one and ecx >> 27 & 1 and (w["xcr0_lo"] & 6) == 6
    s = one and edx >> 26 & 1 and have & 1
    a = os_ and ecx >> 28 & 1
    a2 = a and w["max_leaf"] >= 7 and w["leaf7_ebx"] >> 5 & 1 and have & 4
    a = a and have & 2
    o = w["opt"]
    if o == 0:
        return "AVX2" if a2 else "AVX" if a else "SSE2" if s else "domain_error"
    return {1: "SSE2" if s else 0, 2: "AVX" if a else 0, 3: "AVX2" if a2 else 0}[o] or "domain_error"


def confirm(kind, n, have, w, f, res):
    bes = [b for i, b in enumerate(("SSE2", "AVX", "AVX2")) if have >> i & 1]
    tmp = tempfile.mkdtemp(prefix="cputmp-", dir=vlib.CACHE)
    try:
        cfg = vlib.cfg_dir(["OTFFT_WITH_" + b for b in bes], "-".join(bes))
        sinc, ssrc = vlib.stage(tmp)
        inc = ["-I" + cfg, "-I" + sinc, "-I" + ssrc]
        fl = [x for x in vlib.GXXFLAGS if x not in ("-O3",)] + ["-O1"]
        cmds = []
        for be in bes:
            for a in vlib.algo_sources():
                cmds.append(["g++"] + fl + vlib.BACKENDS[be] + inc + ["-c", ssrc + "/" + a + ".cpp", "-o", "%s/%s_%s.o" % (tmp, be, a)])
        objs = [c[-1] for c in cmds]
        open(tmp + "/m.cpp", "w").write(MAIN)
        allu = ["-DUSE_" + b for b in bes]
        cmds.append(["g++"] + fl + allu + inc + ["-c", tmp + "/m.cpp", "-o", tmp + "/m.o"])
        cmds.append(["g++"] + fl + ["-mno-red-zone"] + allu + inc + ["-S", ssrc + "/otfft.cpp", "-o", tmp + "/otfft.s"])
        vlib.pool_run(cmds)
        s = open(tmp + "/otfft.s").read()
        s = re.sub(r"(?m)^(\s*)cpuid\b[^\n;]*", r"\1call st_cpuid", s)
        s = re.sub(r"(?m)^(\s*)xgetbv\b[^\n;]*", r"\1call st_xgetbv_", s)
        open(tmp + "/otfft.s", "w").write(s)
        vlib.sh(["g++", "-c", tmp + "/otfft.s", "-o", tmp + "/otfft.o"])
        vlib.sh(["g++", "-no-pie", "-fopenmp", "-o", tmp + "/t", tmp + "/m.o", tmp + "/otfft.o"] + objs + ["-lpthread"])
        r = subprocess.run([tmp + "/t", str(kind), str(n), str(w.get("opt", 0))], env=dict(os.environ, **{k: str(v) for k, v in w.items()}), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        got = re.findall(r"got (\S+)", r.stdout)
        xg = "xgetbv 1" in r.stdout
        exp = expected(have, w)
        note = "feature words %s: real code gives %s%s, expected %s" % (w, got[0] if got else "status %d" % r.returncode, " after executing XGETBV without OSXSAVE" if xg else "", exp)
        return res((not got) or got[0] != exp or (f.get("kind") == "xgetbv" and xg) or "destruction" in f.get("msg", ""), note)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
