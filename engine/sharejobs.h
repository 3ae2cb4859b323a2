// Distinct objects used from different threads (C18): what two threads' calls touch in common.
#pragma once
#include "racejobs.h"

// Accesses of two threads, A run before B in one memory, per segment (stretch between synchronisation operations).
struct ShareHook : AccessHook {
  VM&vm; Stats&st; int thr=-1; u64 accesses=0; bool twin=false;
  struct Ev{ int kind; u64 loc; }; std::vector<Ev> ev[2];
  enum { RD=1, WR=2 };
  struct Rec{ std::vector<u8> f; u32 seg=0; u64 lo=~0ull,hi=0; }; struct Iv{ u32 seg; u64 lo,hi; bool w; };
  std::unordered_map<u64,Rec> cur[2]; std::map<u64,std::vector<Iv>> done[2]; std::map<std::pair<u64,bool>,std::string> who[2]; std::set<u64> syncLocs;
  Rec*last=nullptr; u64 lastBase=0; bool lastSkip=true; u64 stampB=0;
  ShareHook(VM&v,Stats&s):vm(v),st(s){}
  void clear(){ for(int t=0;t<2;t++){ ev[t].clear(); cur[t].clear(); done[t].clear(); who[t].clear(); } syncLocs.clear(); last=nullptr; lastBase=0; thr=-1; }
  void start(int t){ thr=t; last=nullptr; lastBase=0; if(t==1) stampB=vm.objs.size(); }
  void stop(){ flushAll(); thr=-1; }
  void sync(int k,u64 loc){ if(thr<0) return; flushAll(); ev[thr].push_back({k,loc}); syncLocs.insert(loc); if(ev[thr].size()>400) throw EngineError("too many synchronisation operations"); }
  void flushRec(u64 b,Rec&r){ if(r.lo>r.hi) return; u64 i=r.lo; while(i<=r.hi){ if(!r.f[i]){ i++; continue; } u64 j=i; u8 v=r.f[i]; while(j<=r.hi&&r.f[j]==v) r.f[j++]=0; done[thr][b].push_back({r.seg,i*8,j*8,(v&WR)!=0}); i=j; } r.lo=~0ull; r.hi=0; }
  void flushAll(){ for(auto&kv:cur[thr]) flushRec(kv.first,kv.second); }
  void access(u64 ad,u32 size,bool w,u32,const Inst*in) override {
    if(thr<0||(ad&STK)) return; Obj*o=vm.objOf(ad);
    if(o->base!=lastBase){ lastBase=o->base; lastSkip= (o->kind!=OK_GMUT&&o->kind!=OK_HEAP)||(o->kind==OK_GMUT&&tlsObj(vm,o->base))||(thr==1&&o->kind==OK_HEAP&&((ad>>OSH)>=stampB||!(done[0].count(o->base)))); last=nullptr; if(!lastSkip){ last=&cur[thr][o->base]; if(last->f.empty()) last->f.resize(o->size/8+1); } }
    if(lastSkip) return; if(atomicAccess(in)){ sync(w?VM::SY_WRITE:VM::SY_READ,ad); return; } if(!in&&syncLocs.count(ad)) return;
    accesses++; u64 off=ad-o->base; Rec&r=*last; r.seg=ev[thr].size(); for(u64 k=off/8;k<=(off+size-1)/8;k++){ u8 n=w?WR:RD; if((r.f[k]&n)==0&&!who[thr].count({o->base,w})){ who[thr][{o->base,w}]=vm.callstack.empty()?"":VM::shortName(vm.callstack.back()->name); } r.f[k]|=n; if(k<r.lo) r.lo=k; if(k>r.hi) r.hi=k; } }
  void freed(u64 b){ if(thr<0) return; Obj*o=vm.objOf(b); if(!o) return; if(thr==1&&((b>>OSH)>=stampB||!done[0].count(b))) return; done[thr][b].push_back({(u32)ev[thr].size(),0,(o->size+7)/8*8,true}); who[thr][{b,true}]="operator delete / free"; }
  // exists an address, a segment of each thread touching it (one writing), and a schedule running both segments at the same time
  bool decide(Finding&f){
    st.obligations++; z3::context&z=vm.z; struct C{ u64 base; Iv a,b; }; std::vector<C> cs;
    for(auto&kv:done[0]){ auto it=done[1].find(kv.first); if(it==done[1].end()) continue; auto red=[](std::vector<Iv>&v){ std::sort(v.begin(),v.end(),[](const Iv&a,const Iv&b){ return std::tie(a.seg,a.w,a.lo)<std::tie(b.seg,b.w,b.lo); }); std::vector<Iv> o; for(auto&i:v){ if(!o.empty()&&o.back().seg==i.seg&&o.back().w==i.w&&i.lo<=o.back().hi) o.back().hi=std::max(o.back().hi,i.hi); else o.push_back(i); } v.swap(o); }; red(kv.second); red(it->second);
      for(auto&a:kv.second) for(auto&b:it->second){ if(!a.w&&!b.w) continue; cs.push_back({kv.first,a,b}); if(cs.size()>20000) break; } }
    // order: program order, lock sections, what B's reads of synchronisation variables observed of A's writes
    auto conflict=[&](u32 a0,u32 a1,u32 b0,u32 b1){ for(auto&c:cs) if(c.a.seg>=a0&&c.a.seg<=a1&&c.b.seg>=b0&&c.b.seg<=b1&&c.a.lo<c.b.hi&&c.b.lo<c.a.hi) return true; return false; };
    z3::solver s(z,"QF_LIA"); z3::expr tau=z.int_const("moment"),addr=z.int_const("offset"); std::vector<z3::expr> e[2]; for(int t=0;t<2;t++) for(size_t i=0;i<ev[t].size();i++){ e[t].push_back(z.int_const(((t?"B":"A")+std::to_string(i)).c_str())); if(i) s.add(e[t][i-1]<e[t][i]); }
    std::map<u64,size_t> lastW; for(size_t i=0;i<ev[0].size();i++) if(ev[0][i].kind==VM::SY_WRITE) lastW[ev[0][i].loc]=i;
    std::set<u64> own; for(size_t j=0;j<ev[1].size();j++){ if(ev[1][j].kind==VM::SY_WRITE) own.insert(ev[1][j].loc); if(ev[1][j].kind==VM::SY_READ&&lastW.count(ev[1][j].loc)&&!own.count(ev[1][j].loc)) s.add(e[0][lastW[ev[1][j].loc]]<e[1][j]); }
    auto sections=[&](int t){ std::vector<std::tuple<u64,size_t,size_t>> r; std::map<u64,size_t> open; for(size_t i=0;i<ev[t].size();i++){ if(ev[t][i].kind==VM::SY_LOCK) open[ev[t][i].loc]=i; if(ev[t][i].kind==VM::SY_UNLOCK&&open.count(ev[t][i].loc)){ r.push_back({ev[t][i].loc,open[ev[t][i].loc],i}); open.erase(ev[t][i].loc); } } return r; };
    auto sa=sections(0),sb=sections(1); for(auto&x:sa) for(auto&y:sb){ if(std::get<0>(x)!=std::get<0>(y)) continue; z3::expr ab=e[0][std::get<2>(x)]<e[1][std::get<1>(y)]; if(conflict(std::get<1>(x)+1,std::get<2>(x),std::get<1>(y)+1,std::get<2>(y))) s.add(ab); else s.add(ab||e[1][std::get<2>(y)]<e[0][std::get<1>(x)]); }
    auto during=[&](int t,u32 seg){ z3::expr r=z.bool_val(true); if(seg>0) r=r&&e[t][seg-1]<tau; if(seg<ev[t].size()) r=r&&tau<e[t][seg]; return r; };
    z3::expr_vector dis(z); for(auto&c:cs){ st.atoms++; dis.push_back(addr>=z.int_val((int64_t)c.a.lo)&&addr<z.int_val((int64_t)c.a.hi)&&addr>=z.int_val((int64_t)c.b.lo)&&addr<z.int_val((int64_t)c.b.hi)&&during(0,c.a.seg)&&during(1,c.b.seg)); }
    if(twin) dis.push_back(during(0,0)&&during(1,ev[1].size()));
    s.add(dis.empty()?z.bool_val(false):z3::mk_or(dis)); double t0=now(); auto r=s.check(); st.queries++; st.solver+=now()-t0; if(r==z3::unknown) throw EngineError("solver returned unknown"); if(r==z3::unsat) return false;
    z3::model m=s.get_model(); for(size_t i=0;i<cs.size();i++) if(m.eval(dis[(unsigned)i],true).is_true()){ auto&c=cs[i]; Obj*o=vm.objOf(c.base); i64 off=m.eval(addr,true).get_numeral_int64(); char b[900]; auto w=[&](int t,bool wr){ auto it=who[t].find({c.base,wr}); return it==who[t].end()?std::string("?"):it->second; };
        snprintf(b,900,"byte %lld of %s is %s by one thread (%s) and %s by the other (%s) with no order between them",(long long)off,o&&o->name?o->name->c_str():"a global variable",c.a.w?"written":"read",w(0,c.a.w).c_str(),c.b.w?"written":"read",w(1,c.b.w).c_str()); f.kind="race"; f.msg=b; return true; }
    f.kind="race"; f.msg="twin"; return true; }
};

// a new thread has its own copies of the thread-local variables
static void freshTls(VM&vm){ for(auto&kv:vm.gaddr) if(kv.first->isThreadLocal()&&kv.first->hasInitializer()){ u64 id=kv.second>>OSH; if(vm.objs[id].kind!=OK_GMUT) continue; memset(vm.objs[id].mem,0,vm.objs[id].size); vm.initConst(const_cast<llvm::GlobalVariable*>(kv.first)->getInitializer(),vm.objs[id].mem); } }

// share kind n opt kind2 n2 opt2 m m2 n3: two objects, two threads; whole lifecycles, transforms only, and set-up against transforms
static std::string jobShare(Session&S,JobArgs&a){
  int kd[2]={a.i("kind"),a.i("kind2")},n[2]={a.i("n"),a.i("n2")},op[2]={a.i("opt"),a.i("opt2")},n3=a.i("n3"),val=a.i("val"); bool twin=a.i("twin"); double t0=now(); Stats st; Finding f; VM&vm=S.vm; std::vector<int> ms[2]={a.list("m"),a.list("m2")}; std::vector<std::string> hist; bool viol=false; ShareHook sh(vm,st); sh.twin=twin;
  auto N=[](int x){ return std::to_string(x); };
  auto off=[&]{ vm.g.absorb=false; vm.hook=nullptr; vm.syncHook=nullptr; vm.freeHook=nullptr; };
  auto create=[&](int o,u64&h){ hist.push_back("create h="+N(o)+" kind="+N(kd[o])+" n="+N(n[o])+" opt="+N(op[o])); if(S.create(h,kd[o],n[o],op[o])) throw Violation{"api","factory fails"}; };
  auto use=[&](int o,u64 h,int nn){ for(int m:ms[o]) if(hasMeth(kd[o],m)&&nn>0){ hist.push_back("use h="+N(o)+" m="+N(m)+" n="+N(nn)); S.transform(h,kd[o],m,nn,vm.g.absorb?std::vector<u64>(Session::inDoubles(kd[o],m,nn),vm.g.top()):someInput(S,kd[o],m,nn,6,m+1)); } };
  auto setup=[&](int o,u64 h,int nn){ hist.push_back("setup h="+N(o)+" n="+N(nn)); if(S.setup(h,nn)) throw Violation{"api","setup fails"}; };
  auto destroy=[&](int o,u64 h){ hist.push_back("destroy h="+N(o)); S.destroy(h); };
  // variant 0: whole lifecycles; 1: both objects set up before, transforms against transforms; 2: transforms of one against set-up, transforms and destruction of the other
  auto body=[&](int var,int first,bool abs)->bool{
    S.reset(); hist.clear(); sh.clear(); off(); vm.g.absorb=abs; vm.ompMode=0; int o0=first,o1=1-first; u64 h[2]={S.newHandle(),S.newHandle()}; st.paths++; u64 i0=vm.icount;
    if(var){ hist.push_back("main"); create(0,h[0]); create(1,h[1]); }
    vm.hook=&sh; vm.syncHook=[&](int k,u64 l){ sh.sync(k,l); }; vm.freeHook=[&](u64 p){ sh.freed(p); };
    for(int t=0;t<2;t++){ int o=t?o1:o0; hist.push_back("thread"); freshTls(vm); sh.start(t);
      if(!var) create(o,h[o]);
      if(var==2&&o==1){ setup(o,h[o],n3?n3:n[o]); use(o,h[o],n3?n3:n[o]); destroy(o,h[o]); } else use(o,h[o],n[o]);
      if(!var){ if(n3){ setup(o,h[o],n3); use(o,h[o],n3); } destroy(o,h[o]); }
      sh.stop(); }
    off(); st.coefs+=sh.accesses; st.instr+=vm.icount-i0; return sh.decide(f); };
  Decider D(S,st);
  if(!val) for(int var=0;var<3&&!viol;var++) for(int first=0;first<2&&!viol;first++){
    try{ viol=body(var,first,true); }
    catch(AbstractBranch&){ off(); st.merged++; viol=explorePaths(S,st,D,64,[&]{ bool v; try{ v=body(var,first,false); } catch(Violation&e){ off(); f.kind=e.kind; f.msg=e.msg; v=true; } off(); return v; },f); }
    catch(Violation&e){ off(); f.kind=e.kind; f.msg=e.msg; viol=true; }
    catch(...){ off(); throw; } }
  else viol=explorePaths(S,st,D,64,[&]()->bool{ // interleaved calls: object 1 gives what it gives alone
    hist.clear(); std::vector<std::vector<u64>> in,ref; auto mm=ms[1]; mm.erase(std::remove_if(mm.begin(),mm.end(),[&](int m){ return !hasMeth(kd[1],m); }),mm.end());
    try{ u64 h1=S.newHandle(); if(S.create(h1,kd[1],n[1],op[1])) throw Violation{"api","factory fails"}; for(int m:mm){ in.push_back(someInput(S,kd[1],m,n[1],val,7+m)); ref.push_back(S.transform(h1,kd[1],m,n[1],in.back())); } S.destroy(h1);
      u64 ha=S.newHandle(),hb=S.newHandle(); auto cmp=[&](const char*w)->bool{ for(size_t i=0;i<mm.size();i++){ hist.push_back("use h=1 m="+N(mm[i])+" n="+N(n[1])); auto o=S.transform(hb,kd[1],mm[i],n[1],in[i]); if(twin) o[0]=S.var(); Ref R(kd[1],mm[i],n[1]); if(sameOut(S,st,o,ref[i],vm.g.nvars,2*tolFactor(kd[1],n[1])*n[1]*(double)R.sc,f,n[1]*8+mm[i],w)) return true; } return false; };
      create(1,hb); create(0,ha); use(0,ha,n[0]); if(cmp("after another object was created and used")) return true;
      setup(0,ha,n[1]); use(0,ha,n[1]); if(cmp("after another object was set up for the same length")) return true;
      if(n3){ setup(0,ha,n3); if(cmp("after another object was set up")) return true; setup(1,hb,n3); setup(0,ha,n[0]); setup(1,hb,n[1]); use(0,ha,n[0]); if(cmp("after interleaved set-ups")) return true; }
      destroy(0,ha); if(cmp("after another object was destroyed")) return true; destroy(1,hb); } catch(Violation&e){ f.kind=e.kind; f.msg=e.msg; return true; } return false; },f);
  if(viol){ auto c=f.ctx; f.ctx=hist; f.ctx.insert(f.ctx.end(),c.begin(),c.end()); } return report(S,st,viol,f,t0); }
