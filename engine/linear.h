// Solver obligations over the linear forms of transform outputs.
#pragma once
#include "session.h"
#include <sys/resource.h>

struct Json { std::string s; bool first=true; Json(){ s="{"; }
  static std::string esc(const std::string&x){ std::string o; for(unsigned char c:x){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32) { o+=' '; } else o+=c; } return o; }
  void key(const char*k){ if(!first) s+=","; first=false; s+="\""; s+=k; s+="\":"; }
  void str(const char*k,const std::string&v){ key(k); s+="\""+esc(v)+"\""; }
  void num(const char*k,double v){ key(k); char b[64]; if(v!=v||std::isinf(v)) snprintf(b,64,"1e999"); else snprintf(b,64,"%.17g",v); s+= (v!=v||std::isinf(v))?"\"nonfinite\"":b; }
  void raw(const char*k,const std::string&v){ key(k); s+=v; }
  std::string done(){ return s+"}"; } };

struct Stats { u64 obligations=0, queries=0, atoms=0, merged=0, outputs=0, coefs=0, dag=0, paths=0, instr=0; double solver=0, maxratio=0; 
  void json(Json&j){ j.num("queries",queries); j.num("obligations",obligations); j.num("atoms",atoms); j.num("merged",merged); j.num("outputs",outputs); j.num("coefs",coefs); j.num("dag",dag); j.num("paths",paths); j.num("instr",instr); j.num("solver_s",solver); j.num("maxratio",maxratio); } };

// what a job found
struct Finding { std::string kind,msg; std::vector<std::pair<int,double>> x; int out=-1; double tol=0,dev=0,scale=1; std::vector<std::string> ctx; };

static z3::expr rat(z3::context&z,double d){ // exact rational of a double
  if(d==0) return z.real_val(0);
  int e; double m=frexp(d,&e); long long mi=(long long)ldexp(m,53); e-=53;
  while((mi&1)==0){ mi>>=1; e++; }
  z3::expr r=z.real_val((int64_t)mi); 
  auto p2=[&](int k){ std::string s; // 2^k as decimal via z3 power of constants
    z3::expr t=z.real_val(1); z3::expr b=z.real_val(2); while(k){ if(k&1) t=(t*b).simplify(); b=(b*b).simplify(); k>>=1; } return t; };
  if(e>0) r=(r*p2(e)).simplify(); else if(e<0) r=(r/p2(-e)).simplify(); return r; }
static double modelD(z3::model&m,const z3::expr&v){ z3::expr r=m.eval(v,true); 
  std::string n=Z3_get_numeral_decimal_string(r.ctx(),r,40); if(!n.empty()&&n.back()=='?') n.pop_back(); return strtod(n.c_str(),nullptr); }

struct Row { int o; double tol; double slack; double c0; std::vector<std::pair<int,double>> d; };

// Decides, for a batch of outputs, whether any input in the box (and path) makes |dev|>tol.
struct Decider {
  Session&S; Stats&st; double X=1.0;
  std::vector<std::pair<std::vector<std::pair<int,double>>,std::pair<double,std::pair<int,bool>>>> pathLin; // linear path conditions: coefs, c0, (pred,val)
  bool pathInexact=false;
  Decider(Session&s,Stats&t):S(s),st(t){}
  static z3::expr predE(int p,const z3::expr&e){ using namespace llvm; switch(p){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return e==0; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return e!=0; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return e>0; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return e>=0; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return e<0; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return e<=0; case CmpInst::FCMP_TRUE: case CmpInst::FCMP_ORD: return e.ctx().bool_val(true); default: return e.ctx().bool_val(false);} }
  void addPath(z3::solver&s,std::map<int,z3::expr>&xv,std::function<z3::expr(int)> X_){
    for(auto&pl:pathLin){ z3::expr e=rat(S.vm.z,pl.second.first); for(auto&c:pl.first) e=e+rat(S.vm.z,c.second)*X_(c.first); z3::expr b=predE(pl.second.second.first,e); s.add(pl.second.second.second?b:!b); } }
  // returns true if a violation was found (f filled in)
  bool decide(const std::vector<Row>&rows,Finding&f){
    if(rows.empty()) return false;
    z3::context&z=S.vm.z; double t0=now();
    z3::solver s(z,"QF_LRA"); z3::params p(z); p.set("timeout",60000u); s.set(p);
    std::map<int,z3::expr> xv; auto XV=[&](int j)->z3::expr{ auto it=xv.find(j); if(it!=xv.end()) return it->second; z3::expr v=z.real_const(("x"+std::to_string(j)).c_str()); xv.emplace(j,v); z3::expr b=rat(z,X); s.add(v<=b); s.add(v>=-b); return v; };
    addPath(s,xv,XV);
    z3::expr_vector viol(z); std::vector<z3::expr> devs;
    // rows whose deviation is all slack are represented by the worst of them
    int worst=-1; double wr=-1; for(size_t i=0;i<rows.size();i++) if(rows[i].d.empty()){ double q=(fabs(rows[i].c0)+rows[i].slack)/rows[i].tol; if(!(q<=wr)){ wr=q; worst=(int)i; } }
    std::vector<int> idx;
    // every row is divided by its tolerance; coefficients are rounded to multiples of 2^-16 and the exact remainders
    // (bounded outward) join the row's slack, so that the solver works on short rationals
    const double G=65536.0;
    for(size_t ri=0;ri<rows.size();ri++){ auto&r=rows[ri]; if(r.d.empty()&&(int)ri!=worst){ st.merged++; continue; } idx.push_back((int)ri); double sl=r.slack/r.tol; z3::expr_vector t(z);
      auto q=[&](double d,double mag)->z3::expr{ double v=d/r.tol*G; double k=std::fabs(v)<1e15?std::nearbyint(v):v; sl+=(std::fabs(v-k)/G+std::fabs(v)/G*4e-16)*mag*(1+1e-12); if(std::fabs(v)<1e15) return z.real_val((int64_t)k); return rat(z,k); };
      t.push_back(q(r.c0,1.0)); for(auto&c:r.d){ z3::expr k=q(c.second,X); if(k.is_numeral()&&Z3_get_numeral_double(z,k)==0) continue; t.push_back(k*XV(c.first)); }
      z3::expr e=z3::sum(t); double sk=std::ceil(sl*G*(1+1e-9));
      if(sk>0){ z3::expr w=z.real_const(("r"+std::to_string(r.o)).c_str()); z3::expr b=rat(z,sk); s.add(w<=b); s.add(w>=-b); e=e+w; }
      devs.push_back(e); z3::expr tl=rat(z,G); viol.push_back(e>tl||e<-tl); st.atoms+=2; }
    // guided query first: the row with the most room for a deviation, at the corner of the box where it is largest
    { int best=-1; double bv=1; for(size_t i=0;i<idx.size();i++){ auto&r=rows[idx[i]]; double mx=fabs(r.c0); for(auto&c:r.d) mx+=fabs(c.second)*X; if(mx/r.tol>bv){ bv=mx/r.tol; best=(int)i; } }
      if(best>=0){ auto&r=rows[idx[best]]; z3::solver g(z,"QF_LRA"); z3::params gp(z); gp.set("timeout",20000u); g.set(gp); z3::expr_vector t(z); t.push_back(rat(z,r.c0)); double sg=r.c0<0?-1:1; std::vector<std::pair<int,double>> cx;
        if(pathLin.empty()){ for(auto&c:r.d){ z3::expr v=z.real_const(("x"+std::to_string(c.first)).c_str()); double xv_=(c.second*sg>0?X:-X); g.add(v==rat(z,xv_)); t.push_back(rat(z,c.second)*v); cx.push_back({c.first,xv_}); }
          z3::expr e=z3::sum(t); z3::expr tl=rat(z,r.tol); g.add(e>tl||e<-tl); auto gr=g.check(); st.queries++;
          if(gr==z3::sat){ f.out=r.o; f.tol=r.tol; f.x=cx; f.dev=r.c0; for(size_t k=0;k<cx.size();k++) f.dev+=cx[k].second*r.d[k].second; st.solver+=now()-t0; return true; } } } }
    s.add(z3::mk_or(viol)); auto res=s.check(); st.queries++; st.solver+=now()-t0;
    if(res==z3::unsat) return false;
    if(res==z3::unknown) throw EngineError("solver returned unknown on a linear obligation");
    z3::model m=s.get_model(); int hit=-1; for(size_t i=0;i<idx.size();i++) if(m.eval(viol[i],true).is_true()){ hit=idx[i]; break; }
    if(hit<0) throw EngineError("model without a violated output");
    // ask for a robust witness for that output: without the rounding slack and close to its maximum
    const Row&r=rows[hit]; double mx=fabs(r.c0); for(auto&c:r.d) mx+=fabs(c.second)*X;
    f.out=r.o; f.tol=r.tol; if(mx<r.tol){ f.kind="slack"; f.msg="the a-priori rounding bound of the output exceeds the tolerance"; f.dev=mx; st.solver+=now()-t0; return true; } for(auto&c:r.d) XV(c.first);
    for(double frac: {0.999,0.9,0.5,0.1,0.0}){
      double want=mx*frac; if(want<=r.tol) want=r.tol; s.push(); z3::expr e=rat(z,r.c0); for(auto&c:r.d) e=e+rat(z,c.second)*XV(c.first); z3::expr wl=rat(z,want); s.add(e>wl||e<-wl); auto rr=s.check(); st.queries++; 
      if(rr==z3::sat){ z3::model mm=s.get_model(); m=mm; s.pop(); break; } s.pop(); }
    f.dev=0; for(auto&kv:xv){ double v=modelD(m,kv.second); f.x.push_back({kv.first,v}); for(auto&c:r.d) if(c.first==kv.first) f.dev+=c.second*v; } f.dev+=r.c0;
    st.solver+=now()-t0; return true; }
};

// linear form of a single node (all coefficients) over the current DAG
static bool linForm(Dag&g,u64 boxed,std::vector<std::pair<int,double>>&d,double&c0){
  std::vector<u64> o{boxed}; Lin L(g,o); if(L.nonlinear||L.junk) return false; std::vector<double> cf,w; L.adjoint(0,cf,c0,w); for(size_t j=0;j<cf.size();j++) if(cf[j]!=0) d.push_back({(int)j,cf[j]}); return true; }

struct PathCtl { // exploration of data-dependent branches
  Session&S; Decider&D; Stats&st; PathCtl(Session&s,Decider&d,Stats&t):S(s),D(d),st(t){}
  void begin(const std::vector<int>&dec){ S.vm.decisions=dec; S.vm.dpos=0; S.vm.rpc.clear(); S.vm.pc.clear(); D.pathLin.clear(); D.pathInexact=false;
    S.vm.decideReal=[this](u32 node,int pred)->int{ return feas(node,pred); }; }
  void addCond(u32 node,int pred,bool val){ std::vector<std::pair<int,double>> d; double c0=0; if(!linForm(S.vm.g,boxSym(node),d,c0)){ D.pathInexact=true; return; } D.pathLin.push_back({d,{c0,{pred,val}}}); }
  size_t done=0;
  void sync(){ while(done<S.vm.rpc.size()){ auto&r=S.vm.rpc[done++]; addCond(r.node,r.pred,r.val);} }
  int feas(u32 node,int pred){ sync(); std::vector<std::pair<int,double>> d; double c0=0; if(!linForm(S.vm.g,boxSym(node),d,c0)) return 3;
    int m=0; for(int v=0;v<2;v++){ z3::solver s(S.vm.z,"QF_LRA"); std::map<int,z3::expr> xv; z3::context&z=S.vm.z; auto XV=[&](int j)->z3::expr{ auto it=xv.find(j); if(it!=xv.end()) return it->second; z3::expr q=z.real_const(("x"+std::to_string(j)).c_str()); xv.emplace(j,q); z3::expr b=rat(z,D.X); s.add(q<=b); s.add(q>=-b); return q; };
      D.addPath(s,xv,XV); z3::expr e=rat(z,c0); for(auto&c:d) e=e+rat(z,c.second)*XV(c.first); z3::expr b=Decider::predE(pred,e); s.add(v?b:!b); st.queries++; double t0=now(); if(s.check()!=z3::unsat) m|=1<<v; st.solver+=now()-t0; }
    return m; }
};

struct Mode { int full=1; int rows=0, cols=0; };
typedef std::function<long double(int,int)> CoefFn;   // (output, variable)
typedef std::function<double(int)> TolFn;
typedef std::function<void(const std::vector<long double>&,std::vector<long double>&)> ApplyFn; // reference on a dense vector

// Checks the outputs of one path against the reference. Returns true if a violation was found.
static bool checkOutputs(Session&S,Stats&st,Decider&D,const std::vector<u64>&outs,int nv,const CoefFn&ref,const TolFn&tol,Mode md,const ApplyFn*apply,Finding&f,unsigned seed){
  Dag&g=S.vm.g; st.dag=std::max<u64>(st.dag,g.size());
  for(size_t o=0;o<outs.size();o++){
    u64 v=outs[o]; if(isUninit(v)){ f.kind="uninit"; f.msg="output element "+std::to_string(o)+" is never written"; f.out=o; return true; }
    if(isSym(v)&&(g.taint[symId(v)]&1)){ f.kind="uninit"; f.out=o; std::vector<u64> oo{v}; Lin L(g,oo); f.msg="output element "+std::to_string(o)+" depends on "+(L.junk?g.junkInfo[g.A[L.junkNode]]:std::string("uninitialised memory")); return true; } }
  Lin L(g,outs);
  if(L.nonlinear){ f.kind="nonlinear"; f.msg="outputs are not a linear function of the inputs"; return true; }
  std::vector<double> B,E; L.bounds(D.X,B,E);
  const int no=outs.size(); const double thrRel= nv<=64?0.0:1e-2/nv;
  auto slackOf=[&](int o){ return L.out[o]==0xffffffffu?0.0:2*E[L.out[o]]; };
  std::vector<double> c0(no,0.0);
  { std::vector<double> v; L.forward<1>(v,[&](u32,double*r){ r[0]=0; },true); for(int o=0;o<no;o++) c0[o]= L.out[o]==0xffffffffu?L.outc[o]:v[L.out[o]]; }
  const double X=D.X;
  auto ratio=[&](int o,double s){ double r=s/tol(o); if(r>st.maxratio) st.maxratio=r; };
  for(int o=0;o<no;o++) if(c0[o]!=c0[o]||std::isinf(c0[o])){ f.kind="value"; f.out=o; f.msg="output is not finite"; return true; }
  if(md.full){
    std::vector<Row> rows(no); std::vector<double> lump(no,0.0);
    for(int o=0;o<no;o++){ rows[o].o=o; rows[o].tol=tol(o); rows[o].c0=c0[o]; }
    std::vector<double> v;
    for(int j=0;j<nv;j+=8){ L.forward<8>(v,[&](u32 vi,double*r){ for(int l=0;l<8;l++) r[l]=(int)vi==j+l?1.0:0.0; },false);
      int le=std::min(8,nv-j);
      for(int o=0;o<no;o++) for(int l=0;l<le;l++){ long double rc=ref(o,j+l); double c=L.out[o]==0xffffffffu?0.0:v[(size_t)L.out[o]*8+l]; double d=(double)((long double)c-rc); if(d==0) continue; double a=fabs(d); if(!(a<=1e300)){ f.kind="value"; f.out=o; f.msg="coefficient not finite"; f.x.push_back({j+l,1.0}); return true; }
        if(a*X<thrRel*rows[o].tol) lump[o]+=a; else rows[o].d.push_back({j+l,d}); } 
      st.coefs+=(u64)le*no; }
    for(int o=0;o<no;o++){ double s=slackOf(o)+lump[o]*X*(1+1e-9); rows[o].slack=s; double t=s+fabs(c0[o]); for(auto&d:rows[o].d) t+=fabs(d.second)*X; ratio(o,t); }
    st.outputs+=no;
    size_t bs= nv<=32?64:4096; size_t i=0;
    while(i<rows.size()){ std::vector<Row> b; size_t nt=0; while(i<rows.size()&&b.size()<bs&&nt<4000){ nt+=rows[i].d.size(); 
        if(rows[i].d.size()>64&&nv>32){ // keep the largest, lump the rest
          auto&d=rows[i].d; std::sort(d.begin(),d.end(),[](auto&x,auto&y){ return fabs(x.second)>fabs(y.second); }); double rest=0; for(size_t k=64;k<d.size();k++) rest+=fabs(d[k].second); d.resize(64); rows[i].slack+=rest*X; }
        b.push_back(rows[i]); i++; }
      if(D.decide(b,f)){ if(f.kind.empty()) f.kind="value"; return true; } }
    return false;
  }
  // large lengths: all outputs on a few columns, a few outputs on all inputs
  u64 rs=seed*2654435761u+12345; auto rnd=[&]{ rs=rs*6364136223846793005ull+1442695040888963407ull; return (u32)(rs>>33); };
  std::vector<int> rowSel; std::vector<long double> dense(nv),dref;
  std::vector<int> colSel; colSel.push_back(0); colSel.push_back(nv-1); while((int)colSel.size()<md.cols) colSel.push_back(rnd()%nv);
  std::sort(colSel.begin(),colSel.end()); colSel.erase(std::unique(colSel.begin(),colSel.end()),colSel.end());
  for(auto&x:dense) x=(long double)((int)(rnd()%2000001)-1000000)/1000000.0L;
  B.clear(); B.shrink_to_fit(); const bool wide=L.n()<(10u<<20); const size_t LW=wide?8:4, LC=LW-1;
  { std::vector<double> v; 
    for(size_t c=0;c<colSel.size()||c==0;c+=LC){ size_t ce=std::min(colSel.size(),c+LC);
      auto ini=[&](u32 vi,double*r){ r[0]=c==0?(double)dense[vi]:0.0; for(size_t k=c;k<c+LC;k++) r[1+k-c]= k<ce&&(int)vi==colSel[k]?1.0:0.0; };
      if(wide) L.forward<8>(v,ini,false); else L.forward<4>(v,ini,false);
      if(c==0&&apply){ (*apply)(dense,dref); std::vector<std::pair<double,int>> dv(no); for(int o=0;o<no;o++){ double val=L.out[o]==0xffffffffu?0.0:v[(size_t)L.out[o]*LW]; dv[o]={-fabs((double)((long double)val-dref[o]))/tol(o),o}; if(dv[o].first!=dv[o].first) dv[o].first=-1e300; }
        std::partial_sort(dv.begin(),dv.begin()+std::min<size_t>(no,4),dv.end()); for(int k=0;k<4&&k<no;k++) rowSel.push_back(dv[k].second); }
      std::vector<Row> rows; for(int o=0;o<no;o++){ Row r; r.o=o; r.tol=tol(o); r.c0=c0[o]; r.slack=slackOf(o); double t=0; for(size_t k=c;k<ce;k++){ double cv=L.out[o]==0xffffffffu?0.0:v[(size_t)L.out[o]*LW+1+k-c]; double d=(double)((long double)cv-ref(o,colSel[k])); if(!(fabs(d)<1e300)){ f.kind="value"; f.out=o; f.msg="coefficient not finite"; return true; } t+=fabs(d); if(fabs(d)*X<1e-2*r.tol/8) r.slack+=fabs(d)*X; else r.d.push_back({colSel[k],d}); } ratio(o,t*X+r.slack+fabs(c0[o])); rows.push_back(r); st.coefs+=ce-c;
          if(rows.size()==8192||o==no-1){ if(D.decide(rows,f)){ if(f.kind.empty()) f.kind="value"; return true; } rows.clear(); } } } }
  while((int)rowSel.size()<md.rows) rowSel.push_back(rnd()%no);
  rowSel.push_back(0); rowSel.push_back(no-1);
  std::vector<double> cf,w; std::vector<Row> rows;
  for(int o:rowSel){ double cc; L.adjoint(o,cf,cc,w); Row r; r.o=o; r.tol=tol(o); r.c0=cc; r.slack=slackOf(o); double lump=0,t=0; for(int j=0;j<nv;j++){ double d=(double)((long double)(j<(int)cf.size()?cf[j]:0.0)-ref(o,j)); t+=fabs(d); if(fabs(d)*X<thrRel*r.tol) lump+=fabs(d); else r.d.push_back({j,d}); }
    if(r.d.size()>256){ std::sort(r.d.begin(),r.d.end(),[](auto&x,auto&y){ return fabs(x.second)>fabs(y.second); }); for(size_t k=256;k<r.d.size();k++) lump+=fabs(r.d[k].second); r.d.resize(256); }
    r.slack+=lump*X; ratio(o,t*X+slackOf(o)+fabs(cc)); rows.push_back(r); st.coefs+=nv; st.outputs++; }
  if(D.decide(rows,f)){ if(f.kind.empty()) f.kind="value"; return true; }
  return false; }

// simple long double DFT of arbitrary length (smooth lengths are fast), sign=-1 forward
static void ldft(std::vector<long double>&re,std::vector<long double>&im,int sign){
  int n=re.size(); if(n<=1) return; int p=2; while(p*p<=n&&n%p) p++; if(n%p) p=n;
  if(p==n&&n>300){ // large prime: chirp convolution of power-of-two length
    int m=1; while(m<2*n) m*=2; std::vector<long double> wc(n),ws(n),ar(m,0),ai(m,0),br(m,0),bi(m,0); const long double pi=3.14159265358979323846264338327950288L;
    for(int i=0;i<n;i++){ long long q=(long long)i*i%(2LL*n); long double t=pi*q/n; wc[i]=cosl(t); ws[i]=sign*sinl(t); ar[i]=re[i]*wc[i]-im[i]*ws[i]; ai[i]=re[i]*ws[i]+im[i]*wc[i]; br[i]=wc[i]; bi[i]=-ws[i]; if(i){ br[m-i]=wc[i]; bi[m-i]=-ws[i]; } }
    ldft(ar,ai,-1); ldft(br,bi,-1); for(int i=0;i<m;i++){ long double x=(ar[i]*br[i]-ai[i]*bi[i])/m,y=(ar[i]*bi[i]+ai[i]*br[i])/m; ar[i]=x; ai[i]=y; } ldft(ar,ai,1);
    for(int i=0;i<n;i++){ re[i]=ar[i]*wc[i]-ai[i]*ws[i]; im[i]=ar[i]*ws[i]+ai[i]*wc[i]; } return; }
  if(p==n){ // naive
    std::vector<long double> c(n),s(n),a(n),b(n); for(int i=0;i<n;i++){ long double t=2*3.14159265358979323846264338327950288L*i/n; c[i]=cosl(t); s[i]=sign*sinl(t);} for(int k=0;k<n;k++){ long double x=0,y=0; for(int j=0;j<n;j++){ int t=(long long)k*j%n; x+=re[j]*c[t]-im[j]*s[t]; y+=re[j]*s[t]+im[j]*c[t]; } a[k]=x;b[k]=y; } re=a; im=b; return; }
  int m=n/p; std::vector<std::vector<long double>> R(p,std::vector<long double>(m)),I=R; for(int i=0;i<n;i++){ R[i%p][i/p]=re[i]; I[i%p][i/p]=im[i]; } for(int q=0;q<p;q++) ldft(R[q],I[q],sign);
  std::vector<long double> c(n),s(n); for(int i=0;i<n;i++){ long double t=2*3.14159265358979323846264338327950288L*i/n; c[i]=cosl(t); s[i]=sign*sinl(t);} 
  for(int k=0;k<n;k++){ long double x=0,y=0; for(int q=0;q<p;q++){ int t=(long long)k*q%n; long double a=R[q][k%m],b=I[q][k%m]; x+=a*c[t]-b*s[t]; y+=a*s[t]+b*c[t]; } re[k]=x; im[k]=y; } }
// reference transform of a dense vector of the free variables
static void refApply(const Ref&R,const std::vector<long double>&x,std::vector<long double>&y){
  int n=R.n; bool inv=isInvM(R.m); y.assign(R.numOut(),0);
  if(R.kind==K_DCT){ // through a 4n DFT of the half-sample symmetric extension
    if(!inv){ std::vector<long double> a(4*n,0),b(4*n,0); for(int i=0;i<n;i++) a[2*i+1]=x[i]; ldft(a,b,-1); for(int k=0;k<n;k++) y[k]=a[k]*R.sc; }
    else { std::vector<long double> a(4*n,0),b(4*n,0); for(int k=0;k<n;k++) a[k]=(k?2:1)*x[k]; ldft(a,b,-1); for(int i=0;i<n;i++) y[i]=a[2*i+1]*R.sc; } return; }
  std::vector<long double> a(n,0),b(n,0);
  if(R.kind==K_REAL){ if(!inv) for(int i=0;i<n;i++) a[i]=x[i]; else { int h=n/2; a[0]=x[0]; if(n>=2) a[h]=x[n-1]; for(int k=1;k<h;k++){ a[k]=x[2*k-1]; b[k]=x[2*k]; a[n-k]=a[k]; b[n-k]=-b[k]; } } }
  else for(int i=0;i<n;i++){ a[i]=x[2*i]; b[i]=x[2*i+1]; }
  ldft(a,b,inv?1:-1);
  if(R.kind==K_REAL&&inv) for(int i=0;i<n;i++) y[i]=a[i]*R.sc; else for(int i=0;i<n;i++){ y[2*i]=a[i]*R.sc; y[2*i+1]=b[i]*R.sc; } }

static int maxPrime(int n){ int r=1; for(int p=2;p*p<=n;p++) while(n%p==0){ r=std::max(r,p); n/=p; } return std::max(r,n); }
static double tolFactor(int kind,int n){ double u=1.1102230246251565e-16; double l=log2((double)std::max(2,n)); if(kind==K_BLUE) return u*256*(n+16); double k=kind==K_COMPLEX?128:kind==K_REAL?256:512; int q=0; { int t=n; for(int p=2;p*p<=t;p++) while(t%p==0){ t/=p; q+=p>2; } q+=t>2; } return u*(k*(l+4)*(1+q/3.0)+8.0*maxPrime(n)); }
