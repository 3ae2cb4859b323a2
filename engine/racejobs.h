// Data races: inside one call (OpenMP worksharing, C12) and between objects used from different threads (C18).
#pragma once
#include "memjobs.h"

static bool tlsObj(VM&vm,u64 base){ static std::map<VM*,std::map<u64,bool>> memo; auto&m=memo[&vm]; auto it=m.find(base); if(it!=m.end()) return it->second; bool t=false; for(auto&kv:vm.gaddr) if(kv.second==base){ t=kv.first->isThreadLocal(); break; } return m[base]=t; }
static bool atomicAccess(const Inst*in){ return in&&in->src&&in->src->isAtomic(); }

// Accesses of one parallel region, per phase (stretch between barriers) and per execution unit (what the OpenMP rules
// assign to a single thread: an iteration of a static loop, a chunk, a single block, ...).
struct RaceHook : AccessHook {
  VM&vm; Session&S; Stats&st; 
  struct Cell{ u32 ph=0,w1=0,w2=0,r1=0,r2=0; };
  struct Shadow{ u32 gran=8; std::vector<Cell> c; u32 lastPh=0; };
  struct Cls{ int sched; u64 trip,chunk; std::string where; };           // 0 static, 1 static chunked, 2 dynamic, 3 single, 4 all threads, 5 master, 6 critical
  struct Unit{ u32 cls; u64 it; };
  std::unordered_map<u64,Shadow> sh; std::vector<u64> touched; std::vector<Unit> units{Unit{0,0}}; std::vector<Cls> classes; std::map<std::tuple<int,u64,u64>,u32> clsIdx; std::map<std::pair<u32,u64>,u32> unitIdx;
  u32 phase=0,cur=0; int depth=0; u64 objMark=0,stkMark=0,dyn=0,regions=0,phases=0,accesses=0; std::vector<u32> saved; std::string region;
  struct Loop{ u32 cls; u64 k,chunk; bool chunked; }; std::vector<Loop> loops;
  u32 lastObjId=0; Shadow*last=nullptr; u64 lastBase=0; bool lastSkip=true;
  std::string found; int foundT=0; std::vector<std::string> benign; bool twin=false;
  RaceHook(Session&s,Stats&t):vm(s.vm),S(s),st(t){}
  u32 cls(int sched,u64 trip,u64 chunk){ auto k=std::make_tuple(sched,trip,chunk); auto it=clsIdx.find(k); if(it!=clsIdx.end()) return it->second; std::string w=vm.callstack.empty()?"":VM::shortName(vm.callstack.back()->name); classes.push_back({sched,trip,chunk,w}); return clsIdx[k]=classes.size()-1; }
  u32 unit(u32 c,u64 it){ auto k=std::make_pair(c,it); auto i=unitIdx.find(k); if(i!=unitIdx.end()) return i->second; units.push_back({c,it}); return unitIdx[k]=units.size()-1; }
  u32 allUnit(){ return unit(cls(4,0,0),0); }
  void begin(){ touched.clear(); units.assign(1,Unit{0,0}); unitIdx.clear(); classes.clear(); clsIdx.clear(); cur=0; phase++; last=nullptr; lastBase=0; }
  void nextPhase(){ flush(); u32 keep=0; begin(); (void)keep; cur=allUnit(); loops.clear(); saved.clear(); }
  void ev(int e,u64 a,u64 b,u64 c){
    if(e==1){ if(++depth==1){ regions++; region=vm.funcs.size()>a?VM::shortName(vm.funcs[a].name):""; objMark=vm.objs.size(); stkMark=vm.stkTop; begin(); cur=allUnit(); loops.clear(); saved.clear(); } return; }
    if(e==2){ if(--depth==0){ flush(); cur=0; phase++; } return; }
    if(depth!=1) return;
    switch(e){
      case 3: { int sched= c==1000000007ull?2: c?1:0; Loop l; l.chunk= sched==1?c:1; l.chunked=sched==1; l.k=0; l.cls= sched==2? cls(2,b,++dyn): cls(sched,b,sched==1?c:0); loops.push_back(l); saved.push_back(cur); break; }
      case 4: if(!loops.empty()){ Loop&l=loops.back(); if(l.k>0xffffff00ull) throw EngineError("loop too long"); cur=unit(l.cls,l.chunked?l.k/l.chunk:l.k); l.k++; } break;
      case 5: if(!loops.empty()){ loops.pop_back(); cur=saved.back(); saved.pop_back(); } break;
      case 6: if(loops.empty()) nextPhase(); break;
      case 7: saved.push_back(cur); cur=unit(cls(3,0,++dyn),0); break; case 8: case 10: case 12: if(!saved.empty()){ cur=saved.back(); saved.pop_back(); } break;
      case 9: saved.push_back(cur); cur=unit(cls(5,0,0),0); break; case 11: saved.push_back(cur); cur=unit(cls(6,0,0),0); break; } }
  void access(u64 ad,u32 size,bool w,u32,const Inst*in) override {
    if(!cur) return; Obj*o=vm.objOf(ad);
    if(o->base!=lastBase){ lastBase=o->base; lastSkip= o->kind==OK_GCONST || ((ad&STK)? ((ad&~STK)>>OSH)>=stkMark : (ad>>OSH)>=objMark) || (o->kind==OK_GMUT&&tlsObj(vm,o->base)); last=nullptr;
      if(!lastSkip){ Shadow&s=sh[(ad&STK)?o->base^phase*0x9E3779B97F4A7C15ull:o->base]; last=&s; if(s.lastPh!=phase){ s.lastPh=phase; touched.push_back((ad&STK)?o->base^phase*0x9E3779B97F4A7C15ull:o->base); } if(s.c.empty()) s.c.resize(o->size/s.gran+1); } }
    if(lastSkip||vm.guardDepth>0||atomicAccess(in)) return; accesses++;
    u64 off=ad-o->base; Shadow&s=*last; if(__builtin_expect(((size|off)&(s.gran-1))!=0,0)){ u32 ng=((size|off)&3)?1:4; std::vector<Cell> n(o->size/ng+1); for(u64 i=0;i<n.size();i++) n[i]=s.c[i*ng/s.gran]; s.c.swap(n); s.gran=ng; }
    for(u64 k=off/s.gran;k<=(off+size-1)/s.gran;k++){ Cell&c=s.c[k]; if(c.ph!=phase){ c=Cell(); c.ph=phase; }
      if(w){ if(!c.w1) c.w1=cur; else if(c.w1!=cur&&!c.w2) c.w2=cur; } else { if(!c.r1) c.r1=cur; else if(c.r1!=cur&&!c.r2) c.r2=cur; } } }
  // one query per phase and array: an element and two execution units that touch it, one writing, and that may be on different threads
  void flush(){ phases++; z3::context&z=vm.z;
    for(u64 b:touched){ Shadow&s=sh[b]; struct Run{ u64 s,n,len; u32 wc,oc; i64 wi,ws,oi,os; }; std::vector<Run> runs; std::map<u32,u64> same1; size_t N=s.c.size(); bool any=false;
      u64 i=0; while(i<N){ Cell&c=s.c[i]; if(c.ph!=phase||!c.w1){ i++; continue; } any=true;
        auto other=[&](Cell&c)->u32{ if(c.w2) return c.w2; if(c.r1&&c.r1!=c.w1) return c.r1; if(c.r2&&c.r2!=c.w1) return c.r2; return c.w1; };
        u32 w=c.w1,o=other(c); u64 j=i+1; auto same=[&](u64 j,u32 w,u32 o){ return j<N&&s.c[j].ph==phase&&s.c[j].w1==w&&other(s.c[j])==o; }; while(same(j,w,o)) j++;
        u64 len=j-i; Run r{i,len,len,units[w].cls,units[o].cls,(i64)units[w].it,0,(i64)units[o].it,0};
        // extend by equally long stretches whose units advance by a constant step
        bool first=true; while(j<N&&s.c[j].ph==phase&&s.c[j].w1){ u32 w2=s.c[j].w1,o2=other(s.c[j]); u64 q=j+1; while(same(q,w2,o2)) q++; if(q-j!=len||units[w2].cls!=r.wc||units[o2].cls!=r.oc) break; i64 k=r.n/len; i64 dw=(i64)units[w2].it-r.wi,dd=(i64)units[o2].it-r.oi; if(first){ r.ws=dw; r.os=dd; first=false; } else if(dw!=r.ws*k||dd!=r.os*k) break; r.n+=len; j=q; }
        bool all=classes[r.wc].sched==4||classes[r.oc].sched==4;
        if(!all&&r.wc==r.oc&&r.wi==r.oi&&r.ws==r.os) same1[r.wc]++; else runs.push_back(r); i=j; }
      if(!any) continue;
      if(!same1.empty()){ // every element of these pieces is touched by a single unit: piece and iteration stay symbolic
        z3::solver sv(z,"QF_UFLIA"); z3::expr_vector dis(z); z3::expr it=z.int_const("iteration"),it2=z.int_const("iteration2"),piece=z.int_const("piece"); for(auto&kv:same1){ z3::func_decl O=z.function(("thread_of_"+std::to_string(kv.first)).c_str(),z.int_sort(),z.int_sort()); dis.push_back(it==it2&&piece>=0&&piece<z.int_val((int)kv.second)&&O(it)!=O(it2)); st.atoms++; st.merged+=kv.second; } sv.add(z3::mk_or(dis)); double t0=now(); auto rs=sv.check(); st.queries++; st.obligations++; st.solver+=now()-t0; if(rs!=z3::unsat) throw EngineError("solver did not discharge a single-owner query"); }
      for(size_t c0=0;c0<runs.size();c0+=1000){ z3::solver sv(z,"QF_UFLIA"); z3::expr g=z.int_const("element"); z3::sort I=z.int_sort(); z3::expr_vector dis(z); std::map<u32,int> dummy;
        z3::expr nt=z.int_const("threads"),k=z.int_const("stretch"),rest=z.int_const("rest"); sv.add(nt>=2&&k>=0&&rest>=0);
        auto thr=[&](u32 c,const z3::expr&it)->z3::expr{ z3::func_decl O=z.function(("thread_of_"+std::to_string(c)).c_str(),I,I); return O(it); };
        for(size_t q=c0;q<runs.size()&&q<c0+1000;q++){ Run&r=runs[q]; int ws=classes[r.wc].sched,os=classes[r.oc].sched; z3::expr in= g==z.int_val((int64_t)r.s)+k*z.int_val((int64_t)r.len)+rest && rest<z.int_val((int64_t)r.len) && k<z.int_val((int64_t)(r.n/r.len));
          if(ws==6&&os==6) continue; st.atoms++;
          if(ws==4||os==4){ dis.push_back(in); continue; }
          z3::expr wi=z.int_val((int64_t)r.wi)+k*z.int_val((int64_t)r.ws), oi=z.int_val((int64_t)r.oi)+k*z.int_val((int64_t)r.os);
          z3::expr a=thr(r.wc,wi),bb=thr(r.oc,oi); dis.push_back(in&&a>=0&&bb>=0&&a<nt&&bb<nt&&a!=bb); }
        st.obligations++; if(dis.empty()) continue;
        sv.add(z3::mk_or(dis)); double t0=now(); auto rs=sv.check(); st.queries++; st.solver+=now()-t0; if(rs==z3::unknown) throw EngineError("solver returned unknown"); if(rs==z3::unsat) continue;
        int tries=0; // which runs: decide each under the partition OpenMP runtimes use, thread count symbolic
        for(size_t q=c0;q<runs.size()&&q<c0+1000&&found.empty()&&tries<40;q++){ Run&r=runs[q]; if(r.wc==r.oc&&r.wi==r.oi&&r.ws==r.os&&classes[r.wc].sched!=4) continue; if(classes[r.wc].sched==6&&classes[r.oc].sched==6) continue;
          for(u64 kk:{(u64)0,(r.n/r.len)/2,r.n/r.len-1}){ tries++; int T=concrete(r.wc,r.wi+(i64)kk*r.ws,r.oc,r.oi+(i64)kk*r.os); if(!T) continue;
            Obj*o=nullptr; for(auto&ob:vm.objs) if(ob.base==b) o=&ob; char m[700]; snprintf(m,700,"element at byte %llu of %s is written by %s and accessed by %s in the same phase of %s; with %d threads they run concurrently",(unsigned long long)((r.s+kk*r.len)*s.gran),o&&o->name?o->name->c_str():"a shared variable",desc(r.wc,r.wi+(i64)kk*r.ws).c_str(),desc(r.oc,r.oi+(i64)kk*r.os).c_str(),region.c_str(),T); found=m; foundT=T; break; } }
        if(!found.empty()) throw Violation{"race",found}; } } }
  std::string desc(u32 c,i64 it){ static const char*nm[]={"iteration ","chunk ","dynamic iteration ","a single block","every thread","the master block","a critical section"}; Cls&k=classes[c]; return std::string(nm[k.sched])+(k.sched<3?std::to_string(it)+" of "+std::to_string(k.trip):""); }
  // a thread count for which the two units are on different threads under the balanced static partition
  int concrete(u32 c1,i64 i1,u32 c2,i64 i2){ z3::context&z=vm.z; z3::solver sv(z,"QF_LIA"); z3::expr T=z.int_const("threads"),o1=z.int_const("owner1"),o2=z.int_const("owner2"); sv.add(o1>=0&&o1<T&&o2>=0&&o2<T&&o1!=o2);
    auto own=[&](u32 c,i64 it,i64 t)->i64{ Cls&k=classes[c]; if(k.sched==0){ i64 q=(i64)k.trip/t,r=(i64)k.trip%t,cut=r*(q+1); return it<cut||q==0? it/(q+1): r+(it-cut)/q; } if(k.sched==1) return it%t; if(k.sched==5) return 0; return -1; };
    z3::expr_vector alt(z); for(int t:{2,3,4,5,6,7,8,12,16,24,32,48,64}){ i64 a=own(c1,i1,t),b=own(c2,i2,t); z3::expr e= T==z.int_val(t); if(a>=0) e=e&&o1==z.int_val((int64_t)a); if(b>=0) e=e&&o2==z.int_val((int64_t)b); alt.push_back(e); }
    sv.add(z3::mk_or(alt)); double t0=now(); int v=0; for(int lim:{4,8,64}){ sv.push(); sv.add(T<=z.int_val(lim)); st.queries++; if(sv.check()==z3::sat){ z3::model m=sv.get_model(); v=m.eval(T,true).get_numeral_int(); break; } sv.pop(); }
    st.solver+=now()-t0; return v; }
};

// race kind n opt m n2: every parallel region of setup and transforms, for all input values, iterations-to-threads assignments and thread counts
static std::string jobRace(Session&S,JobArgs&a){
  int kind=a.i("kind"),n=a.i("n"),n2=a.i("n2"),opt=a.i("opt"),val=a.i("val"); int twin=a.i("twin"); double t0=now(); Stats st; Finding f; VM&vm=S.vm; auto ms=a.list("m"); std::vector<std::string> hist; bool viol=false; RaceHook rh(S,st); rh.twin=twin;
  auto body=[&](bool abs)->bool{
    hist.clear(); vm.g.absorb=abs; vm.ompMode=1; vm.hook=&rh; vm.ompHook=[&](int e,u64 x,u64 y,u64 zv){ if(twin&&e==6&&rh.depth==1) return; rh.ev(e,x,y,zv); }; vm.threadDependent=false; rh.depth=0; rh.cur=0; rh.sh.clear();
    u64 h=S.newHandle(); hist.push_back("create n="+std::to_string(n)); if(S.create(h,kind,n,opt)) throw Violation{"api","factory fails"};
    auto use=[&](int nn){ for(int m:ms){ if(!hasMeth(kind,m)) continue; hist.push_back("use m="+std::to_string(m)+" n="+std::to_string(nn)); std::vector<u64> in; if(abs) in.assign(Session::inDoubles(kind,m,nn),vm.g.top()); else in=someInput(S,kind,m,nn,6,m+1); auto out=S.transform(h,kind,m,nn,in); st.outputs+=out.size(); rh.sh.clear(); rh.last=nullptr; rh.lastBase=0; } };
    use(n); if(n2){ hist.push_back("setup n="+std::to_string(n2)); if(S.setup(h,n2)) throw Violation{"api","setup fails"}; rh.sh.clear(); rh.last=nullptr; rh.lastBase=0; use(n2); }
    hist.push_back("destroy"); S.destroy(h); if(vm.threadDependent) throw EngineError("a parallel region asks for thread numbers"); return false; };
  auto off=[&]{ vm.g.absorb=false; vm.ompMode=0; vm.hook=nullptr; vm.ompHook=nullptr; };
  Decider D(S,st);
  auto guard=[&](bool abs){ return [&,abs]()->bool{ try{ bool v=body(abs); off(); return v; } catch(Violation&e){ off(); f.kind=e.kind; f.msg=e.msg; return true; } catch(...){ off(); throw; } }; };
  if(!val){ try{ S.reset(); u64 i0=vm.icount; viol=guard(true)(); st.paths++; st.instr+=vm.icount-i0; } catch(AbstractBranch&){ off(); st.merged++; viol=explorePaths(S,st,D,64,guard(false),f); } }
  else { // the assignment of iterations to threads does not change the result: one thread against one thread per iteration
    viol=explorePaths(S,st,D,64,[&]()->bool{ for(int m:ms){ if(!hasMeth(kind,m)) continue; auto in=someInput(S,kind,m,n,val,m+1); std::vector<u64> o[2]; hist={"use m="+std::to_string(m)+" n="+std::to_string(n)};
        for(int p=0;p<2;p++){ vm.ompMode=p; u64 h=S.newHandle(); if(S.create(h,kind,n,opt)){ off(); throw Violation{"api","factory fails"}; } o[p]=S.transform(h,kind,m,n,in); if(vm.threadDependent){ off(); throw EngineError("a parallel region asks for thread numbers"); } S.destroy(h); vm.ompMode=0; }
        if(twin&&!o[1].empty()) o[1][o[1].size()/2]=S.var();
        Ref R(kind,m,n); if(sameOut(S,st,o[0],o[1],vm.g.nvars,2*tolFactor(kind,n)*n*(double)R.sc,f,n*8+m,"one thread per iteration")) { f.ctx.push_back("m="+std::to_string(m)); return true; } } return false; },f); off(); }
  st.coefs+=rh.accesses; st.obligations+=rh.phases;
  if(viol){ if(rh.foundT) hist.push_back("threads="+std::to_string(rh.foundT)); auto c=f.ctx; f.ctx=hist; f.ctx.insert(f.ctx.end(),c.begin(),c.end()); } return report(S,st,viol,f,t0); }
