// Jobs about memory, allocation failure, histories and concurrency.
#pragma once
#include "forks.h"

// ---- heap bookkeeping
// blocks allocated since `base` that are still live and not reachable from global memory
static std::vector<u64> leaked(Session&S,const std::set<u64>&base){
  std::vector<u64> r; VM&vm=S.vm; std::set<u64> fresh; for(u64 a:vm.liveHeap) if(!base.count(a)) fresh.insert(a); if(fresh.empty()) return r;
  std::set<u64> reach; std::vector<u64> todo;
  auto scan=[&](Obj&o){ for(u64 i=0;i+8<=o.size;i+=8){ u64 v; memcpy(&v,o.mem+i,8); if(v&STK) continue; u64 id=v>>OSH; if(id>0&&id<vm.objs.size()&&vm.objs[id].kind==OK_HEAP&&vm.objs[id].alive&&v>=vm.objs[id].base&&v<=vm.objs[id].base+vm.objs[id].size){ u64 b=vm.objs[id].base; if(fresh.count(b)&&reach.insert(b).second) todo.push_back(b); } } };
  for(auto&o:vm.objs) if(o.alive&&o.kind==OK_GMUT) scan(o);
  while(!todo.empty()){ u64 b=todo.back(); todo.pop_back(); scan(*vm.objOf(b)); }
  for(u64 a:fresh) if(!reach.count(a)) r.push_back(a); return r; }
static u64 liveBytes(Session&S){ u64 s=0; for(u64 a:S.vm.liveHeap) s+=S.vm.objOf(a)->size; return s; }

// outputs of two runs on the same variables: equal as expressions, else equal as linear maps up to tolerance
static bool sameOut(Session&S,Stats&st,const std::vector<u64>&a,const std::vector<u64>&b,int nv,double tl,Finding&f,unsigned seed,const char*what,bool identical=false){
  for(size_t i=0;i<a.size();i++){ u64 v=a[i]; if(isUninit(v)||(isSym(v)&&(S.vm.g.taint[symId(v)]&1))){ f.kind="history"; f.out=i; f.msg=std::string(what)+": output element "+std::to_string(i)+" depends on uninitialised memory"; return true; } }
  st.outputs+=a.size(); bool eq=true; for(size_t i=0;i<a.size()&&eq;i++) if(a[i]!=b[i]) eq=false; if(eq){ st.merged+=a.size(); if(a.size()<=4096){ z3::context&z=S.vm.z; z3::solver s(z,"QF_LRA"); z3::expr_vector v(z); std::map<u64,int> seen; for(size_t i=0;i<a.size();i++) if(isSym(a[i])&&!seen.count(a[i])){ seen[a[i]]=1; auto nm=[&](u64 q){ return z.real_const(("t"+std::to_string(symId(q))).c_str()); }; v.push_back(nm(a[i])!=nm(b[i])); } if(v.size()){ double t0=now(); s.add(z3::mk_or(v)); auto r=s.check(); st.queries++; st.atoms+=v.size(); st.solver+=now()-t0; if(r!=z3::unsat) throw EngineError("identical terms not proved equal"); } } return false; }
  Decider D(S,st); std::vector<u64> d(a.size()); bool conc=true; for(size_t i=0;i<a.size();i++){ d[i]=a[i]==b[i]?asU(0.0):S.vm.fsubS(a[i],b[i]); }
  (void)conc; (void)identical; Mode md; ApplyFn ap=[&](const std::vector<long double>&x,std::vector<long double>&y){ y.assign(d.size(),0); };
  if((double)nv*d.size()>4e6){ md.full=0; md.rows=4; md.cols=7; }
  bool v=checkOutputs(S,st,D,d,nv,[](int,int){ return 0.0L; },[&](int){ return tl; },md,&ap,f,seed); if(v){ f.msg=std::string(what)+": "+(f.msg.empty()?"results differ":f.msg); if(f.kind=="value"||f.kind=="slack") f.kind="history"; } return v; }

// fault kind n n2 opt: allocation failures in the factory and in setup
static std::string jobFault(Session&S,JobArgs&a){
  int kind=a.i("kind"),n=a.i("n"),n2=a.i("n2"),opt=a.i("opt"); bool twin=a.i("twin"), cmp=a.i("cmp",1), deep=a.i("deep"); double t0=now(); Stats st; Finding f; z3::context&z=S.vm.z; VM&vm=S.vm;
  auto ms=a.list("m"); if(ms.empty()) ms={M_FWD0,M_INVN};
  Forks F(S,st); F.maxPaths=5000; std::vector<std::string> hist; int nf=0; bool armed=false,failed=false; u64 opStart=0,failIdx=0; std::set<u64> base; bool paths0=true;
  auto clean=[&]{ vm.allocFails=nullptr; };
  vm.allocFails=[&](u64 idx,u64)->bool{ if(!armed||failed) return false; z3::expr v=z.bool_const(("alloc_fails_"+std::to_string(nf++)).c_str()); if(!vm.decide(v)) return false; failed=true; failIdx=idx-opStart; hist.back()+=" fail="+std::to_string(failIdx); st.atoms++; return true; };
  auto choose=[&](const char*nm)->bool{ return vm.decide(z.bool_const(nm)); };
  auto leakCheck=[&](const std::string&when)->bool{ auto l=leaked(S,base); st.atoms++; if(twin&&failed) l.push_back(0); if(l.empty()) return false; f.kind="leak"; f.msg=std::to_string(l.size())+" block(s) not released "+when+(l[0]?": "+*vm.objOf(l[0])->name:""); return true; };
  bool viol=false;
  try{ viol=F.run([&]()->bool{
    hist.clear(); nf=0; armed=false; failed=false; st.obligations++;
    try{
    // one warm run: one-time initialisation and the reference results
    std::vector<std::vector<u64>> in(ms.size()),ref1(ms.size()),ref2(ms.size()); 
    u64 rh=S.newHandle(); if(S.create(rh,kind,n,opt)) throw Violation{"api","factory fails without an allocation failure"};
    auto refs=[&](int nn,std::vector<std::vector<u64>>&ref,std::vector<std::vector<u64>>&inp){ for(size_t k=0;k<ms.size();k++) if(hasMeth(kind,ms[k])){ inp[k]=S.freshInput(kind,ms[k],nn); ref[k]=S.transform(rh,kind,ms[k],nn,inp[k]); } };
    std::vector<std::vector<u64>> in2(ms.size()); 
    if(cmp) refs(n,ref1,in);
    S.destroy(rh); rh=S.newHandle(); if(S.create(rh,kind,n2,opt)) throw Violation{"api","factory fails without an allocation failure"};
    if(cmp) refs(n2,ref2,in2); S.destroy(rh);
    base=vm.liveHeap;
    auto use=[&](u64 h,int nn)->bool{ if(!cmp) return false; auto&ref=nn==n?ref1:ref2; auto&inp=nn==n?in:in2; for(size_t k=0;k<ms.size();k++) if(hasMeth(kind,ms[k])){ hist.push_back("use m="+std::to_string(ms[k])+" n="+std::to_string(nn)); auto out=S.transform(h,kind,ms[k],nn,inp[k]); double tl=2*tolFactor(kind,nn)*std::max(1,nn); if(sameOut(S,st,out,ref[k],S.vm.g.nvars,tl,f,n*8+ms[k],"transform after recovery")) return true; } return false; };
    u64 h=S.newHandle(); hist.push_back("create n="+std::to_string(n)); opStart=vm.nallocs; armed=true; int rc=S.create(h,kind,n,opt); armed=false; 
    if(failed){ if(rc!=1){ f.kind="status"; f.msg="factory with a failing allocation ends with status "+std::to_string(rc)+" instead of bad_alloc"; return true; }
      if(leakCheck("after the factory failed")) return true;
      hist.push_back("create n="+std::to_string(n)); if(S.create(h,kind,n,opt)){ f.kind="status"; f.msg="factory fails again without an allocation failure"; return true; }
      if(use(h,n)) return true; hist.push_back("destroy"); S.destroy(h); return leakCheck("after destruction"); }
    if(rc){ f.kind="status"; f.msg="factory fails without an allocation failure"; return true; }
    hist.push_back("setup n="+std::to_string(n2)); opStart=vm.nallocs; armed=true; rc=S.setup(h,n2); armed=false;
    if(failed){ if(rc!=1){ f.kind="status"; f.msg="setup with a failing allocation ends with status "+std::to_string(rc)+" instead of bad_alloc"; return true; }
      if(choose("retry")){ bool same=choose("same_length"); int nn=same?n2:n; 
        if(deep&&choose("second_failure")){ failed=false; hist.push_back("setup n="+std::to_string(nn)); opStart=vm.nallocs; armed=true; rc=S.setup(h,nn); armed=false; if(!failed) throw PathEnd{"infeasible"}; if(rc!=1){ f.kind="status"; f.msg="setup with a failing allocation ends with status "+std::to_string(rc)+" instead of bad_alloc"; return true; } }
        hist.push_back("setup n="+std::to_string(nn)); if(S.setup(h,nn)){ f.kind="status"; f.msg="setup after a failed setup does not succeed"; return true; } if(use(h,nn)) return true; }
      hist.push_back("destroy"); S.destroy(h); return leakCheck("after destruction following a failed setup"); }
    if(rc){ f.kind="status"; f.msg="setup fails without an allocation failure"; return true; }
    if(use(h,n2)) return true;
    // no failure: alternating setups do not accumulate memory
    std::vector<u64> lv; for(int c=0;c<3;c++){ hist.push_back("setup n="+std::to_string(n)); if(S.setup(h,n)){ f.kind="status"; f.msg="setup fails"; return true; } hist.push_back("setup n="+std::to_string(n2)); if(S.setup(h,n2)){ f.kind="status"; f.msg="setup fails"; return true; } lv.push_back(vm.liveHeap.size()); lv.push_back(liveBytes(S)); if(c==1&&use(h,n2)) return true; }
    st.atoms+=2; if(lv[4]>lv[2]||lv[5]>lv[3]){ f.kind="leak"; f.msg="live memory grows when setup is repeated: "+std::to_string(lv[3])+" -> "+std::to_string(lv[5])+" bytes"; return true; }
    hist.push_back("destroy"); S.destroy(h); return leakCheck("after destruction");
    } catch(Violation&e){ f.kind=e.kind; f.msg=e.msg; return true; }
    },f); } catch(...){ clean(); vm.fsolver=nullptr; throw; }
  clean(); vm.fsolver=nullptr; (void)paths0; if(viol) f.ctx=hist; return report(S,st,viol,f,t0); }

// ---- memory safety (C09) and alignment (C10): one sequence of operations, every access recorded
static std::string instName(VM&vm,const Inst*in){ if(!in||!in->src) return "memory intrinsic"; std::string r; auto*F=in->src->getFunction(); if(F) r=VM::shortName(F->getName().str()); if(auto&dl=in->src->getDebugLoc()) r+=":"+std::to_string(dl.getLine()); return r; }
struct RangeHook : AccessHook { VM&vm; struct R{ i64 lo,hi; u64 size; u32 sz; }; std::map<std::pair<const void*,u64>,R> m; const void*lastI=nullptr; u64 lastO=0; R*last=nullptr; u64 n=0;
  RangeHook(VM&v):vm(v){}
  void access(u64 ad,u32 size,bool w,u32 al,const Inst*in) override { n++; Obj*o=vm.objOf(ad); i64 off=(i64)(ad-o->base); const void*k=in?(const void*)in->src:(const void*)nullptr; if(k!=lastI||o->base!=lastO||!last){ auto it=m.emplace(std::make_pair(k,o->base),R{off,off+(i64)size,o->size,size}).first; last=&it->second; lastI=k; lastO=o->base; } if(off<last->lo) last->lo=off; if(off+(i64)size>last->hi) last->hi=off+size; }
  // one query: some offset inside a recorded range lies outside its object
  bool discharge(Session&S,Stats&st){ if(m.empty()) return false; z3::context&z=vm.z; z3::solver s(z,"QF_BV"); z3::expr_vector v(z); z3::expr off=z.bv_const("off",64); for(auto&kv:m){ auto&r=kv.second; v.push_back(off>=z.bv_val((int64_t)r.lo,64)&&off<z.bv_val((int64_t)r.hi,64)&&(off<0||off>=z.bv_val((int64_t)r.size,64))); st.atoms++; } s.add(z3::mk_or(v)); double t0=now(); auto r=s.check(); st.solver+=now()-t0; st.queries++; m.clear(); last=nullptr; if(r==z3::unknown) throw EngineError("solver returned unknown"); return r==z3::sat; } };

struct AlignHook : AccessHook { VM&vm; struct K{ u32 guar,mod,need; const void*in; bool operator<(const K&b)const{ return std::tie(guar,mod,need,in)<std::tie(b.guar,b.mod,b.need,b.in);} }; std::map<K,std::pair<const Inst*,std::string>> m; u64 n=0; K last{0,0,0,nullptr};
  AlignHook(VM&v):vm(v){}
  void access(u64 ad,u32 size,bool w,u32 al,const Inst*in) override { if(!in||al<=1) return; n++; Obj*o=vm.objOf(ad); u64 off=ad-o->base; K k{o->align,(u32)(off&(al-1)),al,(const void*)in->src}; if(!(k<last)&&!(last<k)) return; last=k; if(m.count(k)) return; m[k]={in,vm.where(ad)}; }
  bool discharge(Session&S,Stats&st,Finding&f,bool twin){ z3::context&z=vm.z; if(m.empty()) return false; z3::solver s(z,"QF_BV"); z3::expr base=z.bv_const("base",64); z3::expr_vector v(z); std::vector<const std::pair<const K,std::pair<const Inst*,std::string>>*> ks;
    for(auto&kv:m){ auto&k=kv.first; u32 g=twin?1:k.guar; v.push_back((base&z.bv_val((uint64_t)(g-1),64))==z.bv_val(0,64)&&((base+z.bv_val((uint64_t)k.mod,64))&z.bv_val((uint64_t)(k.need-1),64))!=z.bv_val(0,64)); ks.push_back(&kv); st.atoms++; }
    s.add(z3::mk_or(v)); double t0=now(); auto r=s.check(); st.solver+=now()-t0; st.queries++; if(r==z3::unknown) throw EngineError("solver returned unknown"); if(r==z3::unsat){ m.clear(); return false; }
    z3::model md=s.get_model(); for(size_t i=0;i<ks.size();i++) if(md.eval(v[i],true).is_true()){ auto&k=ks[i]->first; f.kind="align"; char b[600]; snprintf(b,600,"access at %s requires alignment %u, its storage only guarantees %u (base 0x%llx, offset %u mod %u): %s",instName(vm,ks[i]->second.first).c_str(),k.need,k.guar,(unsigned long long)evalBV(md,base),k.mod,k.need,ks[i]->second.second.c_str()); f.msg=b; break; } return true; } };

// mem|align kind n n2 opt m sym: create, every method, setup(n2), every method, setup(n), destroy
static std::string jobMemAlign(Session&S,JobArgs&a,bool align){
  int kind=a.i("kind"),n=a.i("n"),n2=a.i("n2",0),opt=a.i("opt"); int twin=a.i("twin"); bool sym=a.i("sym",1); double t0=now(); Stats st; Finding f; VM&vm=S.vm; auto ms=a.list("m"); std::vector<std::string> hist; bool viol=false; Decider D(S,st);
  RangeHook rh(vm); AlignHook ah(vm); AccessHook*hk= align?(AccessHook*)&ah:(AccessHook*)&rh; u64 acc=0; vm.threadDependent=false; bool abs=!twin;
  auto body=[&]()->bool{
    hist.clear(); vm.hook=hk; vm.g.absorb=abs; 
    auto flush=[&]()->bool{ st.obligations++; if(align) return ah.discharge(S,st,f,twin); if(rh.discharge(S,st)){ f.kind="memory"; f.msg="an access lies outside its object"; return true; } return false; };
    auto cat=[&](const std::function<bool()>&g)->bool{ try{ return g(); } catch(Violation&e){ if(align&&e.kind!="terminate"&&e.kind!="memory") return false; f.kind=e.kind; f.msg=e.msg; return true; } };
    return cat([&]()->bool{
      u64 h=S.newHandle(); hist.push_back("create n="+std::to_string(n)); if(S.create(h,kind,n,opt)) throw Violation{"api","factory fails"};
      auto useAll=[&](int nn)->bool{ for(int m:ms){ if(!hasMeth(kind,m)) continue; hist.push_back("use m="+std::to_string(m)+" n="+std::to_string(nn));
          std::vector<u64> in; if(abs) in.assign(Session::inDoubles(kind,m,nn),vm.g.top()); else if(sym) in=S.freshInput(kind,m,nn); else { in.resize(Session::inDoubles(kind,m,nn)); for(size_t i=0;i<in.size();i++) in[i]=asU(0.25+(double)(i%7)); }
          if(twin==2&&!align&&!in.empty()) in[in.size()/2]=UNINIT64;
          std::vector<u64> out;
          if(twin==1&&!align){ size_t nd=std::max(in.size(),Session::outDoubles(kind,m,nn)); u64 x=S.buf(in.size()-1,"caller array x"); for(size_t i=0;i+1<in.size();i++) S.put(x,i,in[i]); if(kind==K_REAL){ u64 y=S.buf(nd,"caller array y"); S.call(isInvM(m)?"h_real_i":"h_real_f",{h,(u64)m,x,y}); } else S.call(kind==K_DCT?"h_dct":"h_complex",{h,(u64)m,x}); }
          else out=S.transform(h,kind,m,nn,in);
          st.outputs+=out.size(); if(!align) for(size_t i=0;i<out.size();i++){ u64 v=out[i]; if(isUninit(v)||(isSym(v)&&(vm.g.taint[symId(v)]&1))){ f.kind="uninit"; f.out=i; f.msg="output element "+std::to_string(i)+" depends on uninitialised memory"; if(!isUninit(v)){ std::vector<u64> oo{v}; Lin L(vm.g,oo); if(L.junk) f.msg+=" ("+vm.g.junkInfo[vm.g.A[L.junkNode]]+")"; } return true; } }
          if(flush()) return true; if(!sym&&!abs) vm.g.clear(); }
        return false; };
      if(useAll(n)) return true;
      if(n2){ hist.push_back("setup n="+std::to_string(n2)); if(S.setup(h,n2)) throw Violation{"api","setup fails"}; if(useAll(n2)) return true;
        if(a.i("back",1)){ hist.push_back("setup n="+std::to_string(n)); if(S.setup(h,n)) throw Violation{"api","setup fails"}; if(useAll(n)) return true; } }
      hist.push_back("destroy"); S.destroy(h); return flush(); }); };
  auto off=[&]{ vm.hook=nullptr; vm.g.absorb=false; };
  // arbitrary values first (one run for all inputs); where a branch or address depends on the data, or to make a finding precise, exact symbolic values
  if(abs){ bool again=false; try{ S.reset(); u64 i0=vm.icount; viol=body(); off(); st.paths++; st.instr+=vm.icount-i0; if(viol&&f.kind=="uninit"&&sym) again=true; } catch(AbstractBranch&){ off(); again=true; } catch(...){ off(); throw; } abs=false; if(again) { f=Finding(); viol=false; st.merged++; } else goto done; }
  try{ viol=explorePaths(S,st,D,256,[&]{ bool v=body(); off(); return v; },f); } catch(...){ off(); throw; }
  done: off(); acc=align?ah.n:rh.n; st.coefs+=acc; if(viol) f.ctx=hist; return report(S,st,viol,f,t0); }
static std::string jobMem(Session&S,JobArgs&a){ return jobMemAlign(S,a,false); }
static std::string jobAlign(Session&S,JobArgs&a){ return jobMemAlign(S,a,true); }

// ---- histories (C11)
// every word of heap or global memory written while the hook is on
struct WriteLog : AccessHook { VM&vm; struct W{ std::vector<u8> cls; std::vector<u64> init; }; std::map<u64,W> m; const void*lastI=nullptr; bool lastFp=false;
  WriteLog(VM&v):vm(v){}
  static bool fpStore(const Inst*in){ if(!in||!in->src) return true; if(auto*s=llvm::dyn_cast<llvm::StoreInst>(in->src)) return s->getValueOperand()->getType()->getScalarType()->isFloatingPointTy(); return true; }
  void access(u64 ad,u32 size,bool w,u32,const Inst*in) override { if(!w) return; Obj*o=vm.objOf(ad); if(o->kind!=OK_HEAP&&o->kind!=OK_GMUT) return; if(!in||in!=lastI){ lastFp=fpStore(in); lastI=in; }
    W&e=m[o->base]; if(e.cls.empty()){ e.cls.assign(o->size/8+1,0); e.init.resize(o->size/8+1); } u64 off=ad-o->base; for(u64 k=off/8;k<=(off+size-1)/8;k++) if(!e.cls[k]){ memcpy(&e.init[k],o->mem+8*k,8); e.cls[k]=lastFp?1:2; } else if(!lastFp) e.cls[k]=2; }
  // integer or pointer words that no longer hold what they held before the first logged write
  bool intChanged(){ for(auto&kv:m){ Obj*o=vm.objOf(kv.first); if(!o||!o->alive) continue; for(size_t k=0;k<kv.second.cls.size();k++) if(kv.second.cls[k]==2){ u64 v; memcpy(&v,o->mem+8*k,8); if(v==kv.second.init[k]) continue; if(fpLike(v)||(v==0&&fpLike(kv.second.init[k]))) kv.second.cls[k]=1; else return true; } } return false; }
  static bool fpLike(u64 v){ if(isSym(v)||isUninit(v)) return true; u32 e=(v>>52)&0x7ff; return e>=0x200&&e<=0x600; }
  u64 havoc(){ u64 c=0,q=UNINIT64; for(auto&kv:m){ Obj*o=vm.objOf(kv.first); if(!o||!o->alive) continue; for(size_t k=0;k<kv.second.cls.size()&&8*k+8<=o->size;k++) if(kv.second.cls[k]==1){ memcpy(o->mem+8*k,&q,8); c++; } } return c; } };

// input words of which only `k` variables (0: all) are symbolic, the rest fixed pseudo-random numbers
static std::vector<u64> someInput(Session&S,int kind,int m,int n,int k,unsigned seed){ if(!k||(int)Session::nVars(kind,m,n)<=k) return S.freshInput(kind,m,n);
  int nv=Session::nVars(kind,m,n); u64 rs=seed*2654435761u+99991; auto rnd=[&]{ rs=rs*6364136223846793005ull+1442695040888963407ull; return (u32)(rs>>33); }; std::set<int> pos; while((int)pos.size()<k) pos.insert(rnd()%nv);
  std::vector<u64> v(nv); for(int i=0;i<nv;i++) v[i]=pos.count(i)?S.var():asU(((int)(rnd()%2000001)-1000000)/1000000.0);
  if(!(kind==K_REAL&&isInvM(m))) return v;
  std::vector<u64> w(2*(size_t)n); w[0]=v[0]; w[1]=asU(0.0); int h=n/2; for(int j=1;j<h;j++){ u64 re=v[2*j-1],im=v[2*j]; w[2*j]=re; w[2*j+1]=im; w[2*(n-j)]=re; w[2*(n-j)+1]=isSym(im)?S.vm.g.neg(im):asU(-asD(im)); } w[2*h]=v[n-1]; w[2*h+1]=asU(0.0); return w; }

// hist kind n opt m n1=list on=list ok=list sp
static std::string jobHist(Session&S,JobArgs&a){
  int kind=a.i("kind"),n=a.i("n"),opt=a.i("opt"),sp=a.i("sp"); int twin=a.i("twin"); double t0=now(); Stats st; Finding f; VM&vm=S.vm; auto ms0=a.list("m"),n1s=a.list("n1"),ons=a.list("on"),oks=a.list("ok"); std::vector<int> ms; for(int m:ms0) if(hasMeth(kind,m)) ms.push_back(m);
  std::vector<std::string> hist; bool viol=false; Decider D(S,st); WriteLog wl(vm); unsigned sd=1; int part=0;
  auto body=[&]()->bool{
    hist.clear(); vm.hook=nullptr; sd=1; std::vector<std::vector<u64>> in(8),ref(8);
    auto N=[](int x){ return std::to_string(x); };
    auto mk=[&](int id,int k,int nn)->u64{ u64 h=S.newHandle(); hist.push_back("create h="+N(id)+" kind="+N(k)+" n="+N(nn)); if(S.create(h,k,nn,opt)) throw Violation{"api","factory fails"}; return h; };
    auto set=[&](int id,u64 h,int nn){ hist.push_back("setup h="+N(id)+" n="+N(nn)); if(S.setup(h,nn)) throw Violation{"api","setup fails"}; };
    auto del=[&](int id,u64 h){ hist.push_back("destroy h="+N(id)); S.destroy(h); };
    auto use=[&](int id,u64 h,int k,int m,int nn){ if(!hasMeth(k,m)||nn==0) return; hist.push_back("use h="+N(id)+" m="+N(m)+" n="+N(nn)); S.transform(h,k,m,nn,someInput(S,k,m,nn,sp,++sd)); };
    auto cmp=[&](int id,u64 h,int m,const char*what)->bool{ hist.push_back("use h="+N(id)+" m="+N(m)+" n="+N(n)); st.obligations++; auto out=S.transform(h,kind,m,n,in[m]); if(twin&&!out.empty()) out[out.size()/2]=S.var(); Ref R(kind,m,std::max(1,n)); double tl=2*tolFactor(kind,n)*std::max(1,n)*(double)R.sc; return sameOut(S,st,out,ref[m],vm.g.nvars,tl,f,n*8+m,what); };
    try {
      for(int m:ms){ in[m]=someInput(S,kind,m,n,sp,1000+m); u64 h=S.newHandle(); if(S.create(h,kind,n,opt)) throw Violation{"api","factory fails"}; ref[m]=S.transform(h,kind,m,n,in[m]); S.destroy(h); }
      // (a) arbitrarily many earlier transforms on the same object: whatever they write holds arbitrary values
      part=1; u64 h=mk(0,kind,n); wl.m.clear(); vm.hook=&wl; for(int m:ms) use(0,h,kind,m,n); vm.hook=nullptr;
      bool state=wl.intChanged(); bool junk=false;
      if(!state&&!twin){ auto keep=hist; try{ for(int m:ms){ st.atoms+=wl.havoc(); vm.hook=&wl; auto out=S.transform(h,kind,m,n,in[m]); vm.hook=nullptr; st.outputs+=out.size();
            for(u64 v:out) if(isUninit(v)||(isSym(v)&&(vm.g.taint[symId(v)]&1))){ junk=true; break; }
            if(junk) break; if(wl.intChanged()){ state=true; break; } f=Finding(); if(sameOut(S,st,out,ref[m],vm.g.nvars,1e-300,f,n*8+m,"havoc")){ junk=true; break; } } }
        catch(Violation&){ junk=true; } catch(EngineError&){ junk=true; } vm.hook=nullptr; hist=keep; f=Finding(); vm.callstack.clear(); }
      else junk=true;
      S.destroy(h); hist.clear();
      if(junk||state){ // some internal state survives transforms: explicit sequences
        st.merged++; part=2;
        for(int m1:ms){ hist.clear(); u64 q=mk(0,kind,n); for(int m2:ms){ use(0,q,kind,m1,n); if(cmp(0,q,m2,"after earlier transforms")) return true; if(cmp(0,q,m2,"repeated transform")) return true; } del(0,q); if(sp&&n>20000&&m1==ms[1%ms.size()]) break; } }
      // (b) earlier setups
      part=3;
      for(int n1:n1s){ hist.clear(); u64 q=mk(0,kind,n1); for(size_t i=0;i<ms.size();i+=sp?2:1) use(0,q,kind,ms[i],n1); set(0,q,n); for(int m:ms) if(cmp(0,q,m,"after setup from another length")) return true;
        if(n1){ set(0,q,n1); use(0,q,kind,ms[0],n1); set(0,q,n); for(size_t i=0;i<ms.size();i+=sp?3:1) if(cmp(0,q,ms[i],"after setup back and forth")) return true; }
        set(0,q,n); if(cmp(0,q,ms.back(),"after setup with the same length")) return true; del(0,q); }
      // (c) other objects in between
      part=4;
      for(size_t i=0;i<ons.size();i++){ hist.clear(); int k2=oks[i%oks.size()],n2=ons[i]; u64 p=mk(1,k2,n2),q=mk(0,kind,n);
        for(int m:ms){ use(1,p,k2,m,n2); if(cmp(0,q,m,"after using another object")) return true; }
        set(1,p,std::max(2,n2/2*2)); use(1,p,k2,M_FWD0,std::max(2,n2/2*2)); if(cmp(0,q,ms[i%ms.size()],"after set-up of another object")) return true;
        del(1,p); for(size_t j=0;j<ms.size();j+=sp?3:1) if(cmp(0,q,ms[j],"after destruction of another object")) return true; del(0,q);
        u64 r=mk(2,kind,n); if(cmp(2,r,ms[(i+1)%ms.size()],"fresh object after others")) return true; del(2,r); }
    } catch(Violation&e){ vm.hook=nullptr; f.kind=e.kind; f.msg=e.msg; return true; }
    return false; };
  try{ viol=explorePaths(S,st,D,256,body,f); } catch(...){ vm.hook=nullptr; throw; }
  vm.hook=nullptr; (void)part; if(viol) f.ctx=hist; return report(S,st,viol,f,t0); }
