#pragma once
#include "linear.h"

struct JobArgs { std::vector<std::string> a; std::map<std::string,std::string> kv; 
  JobArgs(const std::string&l){ std::istringstream is(l); std::string t; while(is>>t){ auto p=t.find('='); if(p==std::string::npos) a.push_back(t); else kv[t.substr(0,p)]=t.substr(p+1); } }
  int i(const char*k,int d=0){ auto it=kv.find(k); return it==kv.end()?d:atoi(it->second.c_str()); }
  std::string s(const char*k,const char*d=""){ auto it=kv.find(k); return it==kv.end()?d:it->second; }
  std::vector<int> list(const char*k){ std::vector<int> r; std::istringstream is(s(k)); std::string t; while(std::getline(is,t,',')) r.push_back(atoi(t.c_str())); return r; } };

static std::string findingJson(const Finding&f){ Json j; j.str("kind",f.kind); j.str("msg",f.msg); j.num("out",f.out); j.num("tol",f.tol); j.num("dev",f.dev); j.num("scale",f.scale); std::string x="["; for(size_t i=0;i<f.x.size()&&i<20000;i++){ char b[80]; snprintf(b,80,"%s[%d,%.17g]",i?",":"",f.x[i].first,f.x[i].second); x+=b; } j.raw("x",x+"]"); std::string c="["; for(size_t i=0;i<f.ctx.size();i++) c+=(i?",\"":"\"")+Json::esc(f.ctx[i])+"\""; j.raw("ctx",c+"]"); return j.done(); }

static std::string funcsJson(Session&S){ std::string s="["; bool first=true; for(auto&f:S.vm.funcs) if(f.calls&&!f.F->isDeclaration()){ if(f.name.rfind("h_",0)==0||f.name.find("OTFFT")==std::string::npos) continue; if(!first) s+=","; first=false; s+="\""+Json::esc(f.name)+"\""; f.calls=0; } return s+"]"; }

// Explores every feasible path of body(path); body returns true when it found a violation.
static bool explorePaths(Session&S,Stats&st,Decider&D,int maxPaths,const std::function<bool()>&body,Finding&f){
  std::vector<std::vector<int>> work; work.push_back({}); PathCtl pc(S,D,st);
  int n=0;
  while(!work.empty()){
    auto dec=work.back(); work.pop_back(); if(++n>maxPaths) throw EngineError("more than "+std::to_string(maxPaths)+" data-dependent paths");
    S.reset(); pc.begin(dec); pc.done=0; S.vm.worklist.clear(); u64 i0=S.vm.icount;
    bool v=false;
    try{ v=body(); }
    catch(Violation&e){ f.kind=e.kind; f.msg=e.msg; v=true; }
    catch(PathEnd&e){ if(e.why!="infeasible") throw EngineError("path: "+e.why); }
    st.paths++; st.instr+=S.vm.icount-i0;
    if(v) return true;
    for(auto&w:S.vm.worklist) work.push_back(w);
  }
  S.vm.decideReal=nullptr;
  return false; }

// Code without data-dependent branches is linear, so inputs in [-1,1] decide all magnitudes (barring over/underflow);
// where a branch on data was met, the same obligations are decided again for much smaller and larger input boxes.
static bool exploreScaled(Session&S,Stats&st,Decider&D,const std::function<bool(double)>&body,Finding&f){
  static const double xs[]={1.0,0x1p-40,0x1p40,0x1p-300,0x1p300}; S.vm.sawReal=false;
  for(double X:xs){ D.X=X; if(explorePaths(S,st,D,256,[&]{ return body(X); },f)){ f.scale=X; return true; } if(!S.vm.sawReal) break; }
  return false; }

// finish pending path conditions before checking outputs
static void syncPath(Session&S,Decider&D){ size_t have=D.pathLin.size(); for(size_t i=have;i<S.vm.rpc.size();i++){ auto&r=S.vm.rpc[i]; std::vector<std::pair<int,double>> d; double c0=0; if(linForm(S.vm.g,boxSym(r.node),d,c0)) D.pathLin.push_back({d,{c0,{r.pred,r.val}}}); else { D.pathInexact=true; D.pathLin.push_back({{},{0.0,{llvm::CmpInst::FCMP_TRUE,true}}}); } } }

static Mode modeOf(JobArgs&a){ Mode m; m.full=a.s("mode","full")=="full"; m.rows=a.i("rows",8); m.cols=a.i("cols",14); return m; }
static std::string report(Session&S,Stats&st,bool viol,const Finding&f,double t0){ Json j; j.str("status",viol?"violation":"ok"); if(viol) j.raw("finding",findingJson(f)); st.json(j); j.num("wall",now()-t0); j.raw("funcs",funcsJson(S)); return j.done(); }

// lin kind n opt m: one transform call on a fresh object against its mathematical definition
static std::string jobLin(Session&S,JobArgs&a){
  int kind=a.i("kind"),n=a.i("n"),opt=a.i("opt"); Mode md=modeOf(a); bool twin=a.i("twin"); int tw=a.i("tw",1); double t0=now(); Stats st; Finding f; bool viol=false;
  for(int m:a.list("m")){ if(!hasMeth(kind,m)) continue;
    Decider D(S,st); Ref R(kind,m,n); double tl=tolFactor(kind,n)*n*(double)R.sc; if(!(tl>0)) tl=1e-300;
    viol=exploreScaled(S,st,D,[&](double X){
      u64 h=S.newHandle(); int rc=S.create(h,kind,n,opt); if(rc) throw Violation{"api","factory failed with status "+std::to_string(rc)};
      if(!md.full) S.vm.g.hashcons=false;
      auto in=S.freshInput(kind,m,n); std::vector<u64> xa; auto out=S.transform(h,kind,m,n,in,&xa);
      S.vm.g.hashcons=true; syncPath(S,D);
      ApplyFn ap=[&](const std::vector<long double>&x,std::vector<long double>&y){ refApply(R,x,y); };
      if(kind==K_REAL&&!isInvM(m)) for(size_t i=0;i<xa.size();i++) if(xa[i]!=in[i]){ f.kind="input"; f.msg="the real input array is modified (element "+std::to_string(i)+")"; f.out=i; return true; }
      bool v=checkOutputs(S,st,D,out,R.numVars(),[&](int o,int j){ long double c=R.coef(o,j); if(twin&&o==tw&&j==0) c+=tl*4; return c; },[&](int){ return tl*X; },md,&ap,f,n*8+m);
      S.destroy(h); return v; },f);
    if(viol){ f.ctx={"m="+std::to_string(m)}; break; } }
  return report(S,st,viol,f,t0); }

// trip: second(first(x)) is the identity
static std::string jobTrip(Session&S,JobArgs&a){
  int kind=a.i("kind"),n=a.i("n"),opt=a.i("opt"); Mode md=modeOf(a); bool twin=a.i("twin"); int tw=a.i("tw",1); double t0=now(); Stats st; Finding f; bool viol=false;
  auto p=a.list("pairs");
  for(size_t k=0;k+1<p.size()&&!viol;k+=2){ int m1=p[k],m2=p[k+1]; if(!hasMeth(kind,m1)||!hasMeth(kind,m2)) continue;
    Decider D(S,st); static const double tk[]={4,16,16,64}; double tl=tk[kind]*tolFactor(kind,n)*std::max(1,n); if(kind==K_BLUE) tl*=std::max(1.0,n/32.0);
    viol=exploreScaled(S,st,D,[&](double X){
      u64 h=S.newHandle(); int rc=S.create(h,kind,n,opt); if(rc) throw Violation{"api","factory failed with status "+std::to_string(rc)};
      if(!md.full) S.vm.g.hashcons=false;
      auto in=S.freshInput(kind,m1,n); auto mid=S.transform(h,kind,m1,n,in); auto out=S.transform(h,kind,m2,n,mid);
      S.vm.g.hashcons=true; syncPath(S,D); int nv=Session::nVars(kind,m1,n);
      ApplyFn ap=[&](const std::vector<long double>&x,std::vector<long double>&y){ y=x; };
      bool v=checkOutputs(S,st,D,out,nv,[&](int o,int j){ return (long double)(o==j)+(twin&&o==tw&&j==0?4*tl:0); },[&](int){ return tl*X; },md,&ap,f,n*8+m1);
      S.destroy(h); return v; },f);
    if(viol) f.ctx={"m1="+std::to_string(m1),"m2="+std::to_string(m2)}; }
  return report(S,st,viol,f,t0); }

// differences of two runs on the same variables: out1 - scale*out2
static std::vector<u64> diffs(Session&S,const std::vector<u64>&a,const std::vector<u64>&b,double scale){ std::vector<u64> d(a.size()); for(size_t i=0;i<a.size();i++){ u64 y=b[i]; if(a[i]==y&&scale==1.0){ d[i]=asU(0.0); continue; } if(scale!=1.0) y=S.vm.fmulS(y,asU(scale)); d[i]=S.vm.fsubS(a[i],y); } return d; }

// alias: variants of one transform agree up to their documented scaling
static std::string jobAlias(Session&S,JobArgs&a){
  int kind=a.i("kind"),n=a.i("n"),opt=a.i("opt"); Mode md=modeOf(a); bool twin=a.i("twin"); int tw=a.i("tw",1); double t0=now(); Stats st; Finding f; bool viol=false;
  struct P{int m1,m2; double s;}; double N=n; std::vector<P> ps={{M_FWD,M_FWDN,1},{M_INV,M_INV0,1},{M_FWD0,M_FWD,N},{M_FWD0,M_FWDU,sqrt(N)},{M_INV,M_INVN,N},{M_INV,M_INVU,sqrt(N)}};
  auto sel=a.list("ps"); int pi=-1;
  for(auto&p:ps){ pi++; if(!sel.empty()&&std::find(sel.begin(),sel.end(),pi)==sel.end()) continue; if(viol) break; if(!hasMeth(kind,p.m1)||!hasMeth(kind,p.m2)) continue; if(n==0) continue;
    Decider D(S,st); Ref R(kind,p.m1,n); double tl=2*tolFactor(kind,n)*n*(double)R.sc;
    viol=exploreScaled(S,st,D,[&](double X){
      u64 h=S.newHandle(); int rc=S.create(h,kind,n,opt); if(rc) throw Violation{"api","factory failed"};
      auto in=S.freshInput(kind,p.m1,n); auto o1=S.transform(h,kind,p.m1,n,in); auto o2=S.transform(h,kind,p.m2,n,in); syncPath(S,D);
      auto d=diffs(S,o1,o2,p.s);
      ApplyFn ap=[&](const std::vector<long double>&x,std::vector<long double>&y){ y.assign(d.size(),0); };
      bool v=checkOutputs(S,st,D,d,Session::nVars(kind,p.m1,n),[&](int o,int j){ return twin&&o==tw&&j==0?4*(long double)tl:0.0L; },[&](int){ return tl*X; },md,&ap,f,n*8+p.m1);
      S.destroy(h); return v; },f);
    if(viol){ char b[40]; snprintf(b,40,"scale=%.17g",p.s); f.ctx={"m1="+std::to_string(p.m1),"m2="+std::to_string(p.m2),b}; } }
  return report(S,st,viol,f,t0); }

// backs: the back ends agree
static std::string jobBacks(Session&S,JobArgs&a){
  int kind=a.i("kind"),n=a.i("n"); Mode md=modeOf(a); bool twin=a.i("twin"); int tw=a.i("tw",1); double t0=now(); Stats st; Finding f; bool viol=false;
  for(int m:a.list("m")){ if(viol) break; if(!hasMeth(kind,m)||n==0) continue;
    for(int ob=2;ob<=3&&!viol;ob++){ if(a.i("ob")&&a.i("ob")!=ob) continue;
    Decider D(S,st); Ref R(kind,m,n); double tl=2*tolFactor(kind,n)*n*(double)R.sc;
    viol=exploreScaled(S,st,D,[&](double X){
      u64 h1=S.newHandle(),h2=S.newHandle(); int rc=S.create(h1,kind,n,1); int rc2=S.create(h2,kind,n,ob); if(rc||rc2) throw Violation{"api","factory failed"};
      auto in=S.freshInput(kind,m,n); auto o1=S.transform(h1,kind,m,n,in); auto o2=S.transform(h2,kind,m,n,in); syncPath(S,D);
      auto d=diffs(S,o1,o2,1.0);
      ApplyFn ap=[&](const std::vector<long double>&x,std::vector<long double>&y){ y.assign(d.size(),0); };
      bool v=checkOutputs(S,st,D,d,Session::nVars(kind,m,n),[&](int o,int j){ return twin&&o==tw&&j==0?4*(long double)tl:0.0L; },[&](int){ return tl*X; },md,&ap,f,n*8+m);
      S.destroy(h1); S.destroy(h2); return v; },f);
    if(viol) f.ctx={"m="+std::to_string(m),"opt2="+std::to_string(ob)}; } }
  return report(S,st,viol,f,t0); }

