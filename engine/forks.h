// Exploration of symbolic integers / fault flags: every feasible path is executed, the path solver decides feasibility.
#pragma once
#include "jobs.h"

struct Forks { Session&S; Stats&st; std::vector<z3::expr> assume; int maxPaths=20000; std::unique_ptr<z3::solver> sv;
  Forks(Session&s,Stats&t):S(s),st(t){}
  // body runs on one path; returns true if it found a violation (fills f)
  bool run(const std::function<bool()>&body,Finding&f){
    std::vector<std::vector<int>> work{{}}; int n=0; auto saved=S.vm.decideReal; S.vm.decideReal=nullptr;
    while(!work.empty()){
      auto dec=work.back(); work.pop_back(); if(++n>maxPaths) throw EngineError("more than "+std::to_string(maxPaths)+" paths");
      u64 q0=S.vm.forkQueries; double s0=S.vm.solverTime; u64 i0=S.vm.icount; bool v=false; S.vm.worklist.clear();
      try{ S.reset([&]{ S.vm.iexp.clear(); sv.reset(new z3::solver(S.vm.z,"QF_BV")); z3::params p(S.vm.z); p.set("timeout",60000u); sv->set(p); for(auto&a:assume) sv->add(a); S.vm.fsolver=sv.get(); S.vm.decisions=dec; S.vm.dpos=0; S.vm.pc.clear(); });
        v=body(); }
      catch(Violation&e){ f.kind=e.kind; f.msg=e.msg; v=true; }
      catch(PathEnd&e){ if(e.why!="infeasible"){ S.vm.fsolver=nullptr; throw EngineError("path: "+e.why); } }
      catch(...){ S.vm.fsolver=nullptr; throw; }
      st.paths++; st.instr+=S.vm.icount-i0; st.queries+=S.vm.forkQueries-q0; st.solver+=S.vm.solverTime-s0;
      if(v){ return true; }
      for(auto&w:S.vm.worklist) work.push_back(w);
    }
    S.vm.fsolver=nullptr; S.vm.decideReal=saved; return false; }
  z3::check_result query(const z3::expr&e){ double t0=now(); sv->push(); sv->add(e); auto r=sv->check(); st.queries++; st.atoms++; st.solver+=now()-t0; sv->pop(); if(r==z3::unknown) throw EngineError("solver returned unknown"); return r; }
  z3::model modelOf(const z3::expr&e){ sv->push(); sv->add(e); sv->check(); z3::model m=sv->get_model(); sv->pop(); return m; }
};
static u64 evalBV(z3::model&m,const z3::expr&e){ z3::expr r=m.eval(e,true); uint64_t v=0; Z3_get_numeral_uint64(r.ctx(),r,&v); return v; }
static z3::expr bitOf(const z3::expr&e,int b){ return e.extract(b,b)==e.ctx().bv_val(1,1); }

struct NsHook : AccessHook { std::set<std::string> ns; std::map<u32,int> memo; 
  void access(u64,u32,bool,u32,const Inst*) override {}
  void callEnter(Func&f) override { auto it=memo.find(f.id); int k; if(it!=memo.end()) k=it->second; else { k=0; if(f.name.find("10OTFFT_SSE2")!=std::string::npos) k=1; else if(f.name.find("9OTFFT_AVX")!=std::string::npos) k=2; if(f.name.find("10OTFFT_AVX2")!=std::string::npos) k=3; memo[f.id]=k; } if(k==1) ns.insert("SSE2"); else if(k==2) ns.insert("AVX"); else if(k==3) ns.insert("AVX2"); } };

// cpu kind n: back-end selection for symbolic CPU/OS feature words and a symbolic request
static std::string jobCpu(Session&S,JobArgs&a){
  int kind=a.i("kind"),n=a.i("n"); bool twin=a.i("twin"); double t0=now(); Stats st; Finding f; z3::context&z=S.vm.z;
  int have=a.i("have",7); // compiled-in back ends: 1 SSE2, 2 AVX, 4 AVX2
  z3::expr mx=z.bv_const("max_leaf",32),c1=z.bv_const("leaf1_ecx",32),d1=z.bv_const("leaf1_edx",32),a1=z.bv_const("leaf1_eax",32),b1=z.bv_const("leaf1_ebx",32),b7=z.bv_const("leaf7_ebx",32),xl=z.bv_const("xcr0_lo",32),xh=z.bv_const("xcr0_hi",32),opt=z.bv_const("opt",32);
  Forks F(S,st); F.assume.push_back(z3::ule(mx,z.bv_val(0x40,32))); F.assume.push_back(z3::ule(opt,z.bv_val(3,32)));
  z3::expr avxHw=bitOf(c1,28), os=bitOf(c1,27), avx2Hw=bitOf(b7,5);
  F.assume.push_back(z3::implies(avx2Hw&&z3::uge(mx,z.bv_val(7,32)),avxHw)); F.assume.push_back(z3::implies(os,bitOf(c1,26))); // AVX2 implies AVX, OSXSAVE implies XSAVE
  F.assume.push_back(z3::implies(avxHw,bitOf(d1,26)&&bitOf(d1,25))); // AVX implies SSE2
  z3::expr one=z3::uge(mx,z.bv_val(1,32)), osy=one&&os&&bitOf(xl,1)&&bitOf(xl,2);
  z3::expr sse2=one&&bitOf(d1,26), avx=osy&&avxHw, avx2=avx&&z3::uge(mx,z.bv_val(7,32))&&avx2Hw;
  if(!(have&1)) sse2=z.bool_val(false); if(!(have&2)) avx=z.bool_val(false); if(!(have&4)) avx2=z.bool_val(false);
  if(twin) avx2=avx2&&bitOf(b7,3);
  auto oldc=S.vm.cpuidHook; auto oldx=S.vm.xgetbvHook; int fresh=0; bool xBad=false; NsHook nh;
  S.vm.cpuidHook=[&](int leaf,int r)->u64{ 
    if(leaf==0) return r==0?S.vm.boxI(mx):S.vm.boxI(z.bv_const(("vendor"+std::to_string(r)).c_str(),32));
    bool known=leaf==1||leaf==7;
    if(known){ z3::expr ok=z3::uge(mx,z.bv_val(leaf,32)); z3::expr w= leaf==1?(r==0?a1:r==1?b1:r==2?c1:d1):(r==1?b7:z.bv_const(("leaf7_r"+std::to_string(r)).c_str(),32)); z3::expr g=z.bv_const(("beyond_max"+std::to_string(leaf)+"_"+std::to_string(r)).c_str(),32); return S.vm.boxI(z3::ite(ok,w,g)); }
    return S.vm.boxI(z.bv_const(("leaf"+std::to_string((unsigned)leaf)+"_"+std::to_string(r)).c_str(),32)); };
  S.vm.xgetbvHook=[&](int r)->u64{ if(r==0&&F.query(!(one&&os))==z3::sat) { xBad=true; z3::model m=F.modelOf(!(one&&os)); throw Violation{"xgetbv","XGETBV is executed although the OS has not enabled it (leaf 1 ecx bit 27 clear)"}; } return S.vm.boxI(r==0?xl:xh); };
  S.vm.hook=&nh;
  auto fillModel=[&](z3::model m){ for(auto&p:std::vector<std::pair<const char*,z3::expr>>{{"max_leaf",mx},{"leaf1_ecx",c1},{"leaf1_edx",d1},{"leaf7_ebx",b7},{"xcr0_lo",xl},{"opt",opt}}){ char b[64]; snprintf(b,64,"%s=%llu",p.first,(unsigned long long)evalBV(m,p.second)); f.ctx.push_back(b); } };
  bool viol=false;
  try {
  viol=F.run([&]()->bool{
    xBad=false; u64 h=S.newHandle(); nh.ns.clear();
    u64 ob=S.vm.boxI(opt); 
    try {
    int rc=(int)S.call("h_create",{h,(u64)kind,(u64)(u32)n,ob});
    std::string got=rc==0?(nh.ns.size()==1?*nh.ns.begin():nh.ns.empty()?"none":"several"):rc==2?"domain_error":"status "+std::to_string(rc);
    auto O=[&](int k){ return opt==z.bv_val(k,32); };
    z3::expr want(z); 
    if(got=="AVX2") want=avx2&&(O(0)||O(3)); else if(got=="AVX") want=avx&&(O(2)||(O(0)&&!avx2)); else if(got=="SSE2") want=sse2&&(O(1)||(O(0)&&!avx2&&!avx));
    else if(got=="domain_error") want=(O(0)&&!sse2&&!avx&&!avx2)||(O(1)&&!sse2)||(O(2)&&!avx)||(O(3)&&!avx2); else want=z.bool_val(false);
    st.outputs++;
    if(F.query(!want)==z3::sat){ f.kind="selection"; f.msg="creation gives "+got; fillModel(F.modelOf(!want)); f.ctx.push_back("got="+got); return true; }
    if(rc==0){ nh.ns.clear(); S.destroy(h); z3::expr bad=z.bool_val(false); for(auto&s:nh.ns) bad=bad||(s=="AVX2"?!avx2:s=="AVX"?!avx:!sse2); if(F.query(bad)==z3::sat){ f.kind="selection"; f.msg="destruction executes code of an unsupported back end"; fillModel(F.modelOf(bad)); f.ctx.push_back("got="+got); return true; } 
      if(!S.vm.liveHeap.empty()){ f.kind="selection"; f.msg="destruction leaks memory"; fillModel(F.modelOf(z.bool_val(true))); return true; } }
    } catch(Violation&e){ fillModel(F.modelOf(z.bool_val(true))); throw; }
    return false; },f);
  } catch(...){ S.vm.cpuidHook=oldc; S.vm.xgetbvHook=oldx; S.vm.hook=nullptr; S.vm.fsolver=nullptr; throw; }
  S.vm.cpuidHook=oldc; S.vm.xgetbvHook=oldx; S.vm.hook=nullptr; S.vm.fsolver=nullptr;
  return report(S,st,viol,f,t0); }
