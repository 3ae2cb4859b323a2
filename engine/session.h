// Driving the public API inside the symbolic executor; reference transforms.
#pragma once
#include "vm.h"
#include <cstdio>
#include <sstream>
#include <chrono>

enum Kind { K_COMPLEX=0, K_REAL=1, K_DCT=2, K_BLUE=3 };
enum Meth { M_FWD=0,M_FWD0,M_FWDU,M_FWDN,M_INV,M_INV0,M_INVU,M_INVN };
static const char* kindName[]={"complex","real","dct","bluestein"};
static const char* methName[]={"fwd","fwd0","fwdu","fwdn","inv","inv0","invu","invn"};
static inline bool isInvM(int m){ return m>=M_INV; }
static inline bool hasMeth(int kind,int m){ return !(kind==K_DCT&&(m==M_FWDU||m==M_INVU)); }

static inline double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Session {
  VM vm; std::map<std::string,Func*> fn;
  u64 cpu_leaf0=7; // concrete machine: everything supported
  Session(const std::string&bc){ vm.load(bc);
    vm.cpuidHook=[](int leaf,int r)->u64{ if(leaf==0) return r==0?13:0x756e6547; return 0xffffffffull; };
    vm.xgetbvHook=[](int r)->u64{ return r==0?7:0; };
  }
  std::vector<std::pair<int,Func*>> ctors; bool ctorsRead=false;
  // fresh process image: no heap, globals at their initial values, static constructors run
  void reset(std::function<void()> before=nullptr){
    vm.callstack.clear(); vm.regTop=0; vm.stkTop=0; vm.stkMemTop=0; vm.caught.clear(); vm.parDepth=0; vm.disp.clear(); vm.ishadow.clear(); vm.guardDepth=0; vm.unwinding=false;
    vm.liveHeap.clear(); vm.nallocs=vm.nfrees=0; vm.threadDependent=false; vm.loopCounter=0; vm.g.clear(); vm.g.hashcons=true; vm.decisions.clear(); vm.dpos=0; vm.pc.clear(); vm.rpc.clear();
    for(size_t i=1;i<vm.objs.size();i++){ Obj&o=vm.objs[i]; if(o.alive&&o.kind!=OK_GCONST&&o.kind!=OK_GMUT){ free(o.mem); o.mem=nullptr; o.alive=false; } }
    auto gwh=vm.globalWriteHook; vm.globalWriteHook=nullptr;
    std::vector<std::pair<const llvm::GlobalVariable*,u64>> gs(vm.gaddr.begin(),vm.gaddr.end());
    for(auto&kv:gs){ if(!kv.first->hasInitializer()||kv.first->isConstant()) continue; u64 id=kv.second>>OSH; memset(vm.objs[id].mem,0,vm.objs[id].size); vm.initConst(const_cast<llvm::GlobalVariable*>(kv.first)->getInitializer(),vm.objs[id].mem); }
    if(!ctorsRead){ ctorsRead=true; if(auto*G=vm.M->getNamedGlobal("llvm.global_ctors")) if(G->hasInitializer()) if(auto*A=llvm::dyn_cast<llvm::ConstantArray>(G->getInitializer())) for(auto&op:A->operands()){ auto*cs=llvm::cast<llvm::ConstantStruct>(op); int pr=(int)llvm::cast<llvm::ConstantInt>(cs->getOperand(0))->getSExtValue(); if(auto*fn2=llvm::dyn_cast<llvm::Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({pr,&vm.funcs[vm.funcIndex(fn2)]}); }
      std::stable_sort(ctors.begin(),ctors.end(),[](auto&a,auto&b){ return a.first<b.first; }); }
    if(before) before();
    for(auto&c:ctors){ u64 a[2]={0,0},r[8]; if(!vm.exec(*c.second,a,r)) throw EngineError("static constructor throws"); }
    vm.globalWriteHook=gwh;
    if(vm.objs.size()>(1u<<22)) throw EngineError("too many objects in one process"); }
  Func& F(const char*n){ auto it=fn.find(n); if(it!=fn.end()) return *it->second; Func&f=vm.func(n); fn[n]=&f; return f; }
  bool callRaw(const char*n,std::vector<u64> a,u64&r){ a.push_back(0); u64 rv[64]={0}; bool ok=vm.exec(F(n),a.data(),rv); r=rv[0]; if(!ok) vm.fail("terminate",std::string("exception leaves ")+n); return ok; }
  u64 call(const char*n,std::vector<u64> a){ u64 r=0; callRaw(n,a,r); return r; }
  u64 newHandle(){ u64 sz=call("h_size",{}); u64 h=vm.userBuf(sz,16,"handle",false); call("h_init",{h}); return h; }
  // returns the status code of the harness
  int create(u64 h,int kind,int n,int opt){ return (int)call("h_create",{h,(u64)kind,(u64)(u32)n,(u64)(u32)opt}); }
  int setup(u64 h,int n){ return (int)call("h_setup",{h,(u64)(u32)n}); }
  int destroy(u64 h){ return (int)call("h_destroy",{h}); }
  u64 buf(size_t nd,const char*nm){ return vm.userBuf(nd*8,8,nm,true); }
  void freeUser(u64 b){ vm.freeObj(b); }
  u64 get(u64 b,size_t i){ u64 v; memcpy(&v,vm.objOf(b)->mem+8*i,8); return v; }
  void put(u64 b,size_t i,u64 v){ memcpy(vm.objOf(b)->mem+8*i,&v,8); }
  u64 var(){ return boxSym(vm.g.mkVar()); }
  // number of free variables and the input words (nd doubles) for a transform
  static size_t inDoubles(int kind,int m,int n){ if(kind==K_COMPLEX||kind==K_BLUE) return 2*(size_t)n; if(kind==K_DCT) return n; return isInvM(m)?2*(size_t)n:n; }
  static size_t outDoubles(int kind,int m,int n){ if(kind==K_COMPLEX||kind==K_BLUE) return 2*(size_t)n; if(kind==K_DCT) return n; return isInvM(m)?n:2*(size_t)n; }
  static size_t nVars(int kind,int m,int n){ if(kind==K_REAL&&isInvM(m)) return n; return inDoubles(kind,m,n); }
  // fills words with fresh variables (respecting the Hermitian precondition of the real inverse)
  std::vector<u64> freshInput(int kind,int m,int n){
    std::vector<u64> w(inDoubles(kind,m,n)); Dag&g=vm.g;
    if(kind==K_REAL&&isInvM(m)){
      // variables: X[0].re, (X[k].re, X[k].im) for 1<=k<n/2, X[n/2].re
      if(n==0) return w;
      std::vector<u64> v; for(int i=0;i<n;i++) v.push_back(var());
      w[0]=v[0]; w[1]=asU(0.0); int h=n/2;
      for(int k=1;k<h;k++){ u64 re=v[2*k-1],im=v[2*k]; w[2*k]=re; w[2*k+1]=im; w[2*(n-k)]=re; w[2*(n-k)+1]=g.neg(im); }
      if(n>=2){ w[2*h]=v[n-1]; w[2*h+1]=asU(0.0); }
    } else for(auto&x:w) x=var();
    return w; }
  // one transform call on given words; returns the output words. xAfter gets the input buffer afterwards (real only)
  std::vector<u64> transform(u64 h,int kind,int m,int n,const std::vector<u64>&in,std::vector<u64>*xAfter=nullptr,const std::vector<u64>*yBefore=nullptr){
    std::vector<u64> out(outDoubles(kind,m,n));
    if(kind!=K_REAL){
      u64 x=buf(in.size(),"caller array x"); for(size_t i=0;i<in.size();i++) put(x,i,in[i]);
      call(kind==K_DCT?"h_dct":"h_complex",{h,(u64)m,x});
      for(size_t i=0;i<out.size();i++) out[i]=get(x,i); freeUser(x);
    } else {
      u64 x=buf(in.size(),"caller array x"), y=buf(out.size(),"caller array y");
      for(size_t i=0;i<in.size();i++) put(x,i,in[i]); if(yBefore) for(size_t i=0;i<out.size();i++) put(y,i,(*yBefore)[i]);
      call(isInvM(m)?"h_real_i":"h_real_f",{h,(u64)m,x,y});
      for(size_t i=0;i<out.size();i++) out[i]=get(y,i);
      if(xAfter){ xAfter->resize(in.size()); for(size_t i=0;i<in.size();i++) (*xAfter)[i]=get(x,i); }
      freeUser(x); freeUser(y);
    }
    return out; }
};

// Reference linear map of a transform: coefficient of variable j in output double o.
struct Ref {
  int kind,m,n; std::vector<long double> C,S; long double sc; // tables of cos/sin(2 pi i / T)
  int T;
  Ref(int k,int me,int N):kind(k),m(me),n(N){
    T= kind==K_DCT?4*n:n; C.resize(T); S.resize(T);
    const long double pi=3.14159265358979323846264338327950288L;
    for(int i=0;i<T;i++){ // octant reduction for accuracy
      long double a; long long q=8LL*i/T; (void)q; a=2*pi*((long double)i/T); C[i]=cosl(a); S[i]=sinl(a); 
      if((long long)i*4%T==0){ int qd=(int)((long long)i*4/T); static const int cc[4]={1,0,-1,0},ss[4]={0,1,0,-1}; C[i]=cc[qd]; S[i]=ss[qd]; } }
    sc=1; 
    bool nrm = m==M_FWD||m==M_FWDN||m==M_INVN; if(nrm) sc=1.0L/n; if(m==M_FWDU||m==M_INVU) sc=1.0L/sqrtl((long double)n);
  }
  int numVars()const{ return (int)Session::nVars(kind,m,n); }
  int numOut()const{ return (int)Session::outDoubles(kind,m,n); }
  long double coef(int o,int j)const{
    const bool inv=isInvM(m);
    if(kind==K_COMPLEX||kind==K_BLUE||(kind==K_REAL&&!inv)){
      int k=o/2, im=o&1; int nn= kind==K_REAL? j : j/2, jim= kind==K_REAL?0:(j&1);
      int t=(int)((long long)k*nn%n); long double c=C[t], s=inv?S[t]:-S[t]; // w = c + i s
      // (re+ i im)*w
      long double v; if(!jim) v= im? s: c; else v= im? c: -s;
      return v*sc; }
    if(kind==K_REAL){ // inverse: y[o] = sum_k X[k] e^{+..}, Hermitian variables
      if(j==0) return sc; if(j==n-1) return ((o&1)?-sc:sc);
      int k=(j+1)/2; bool im=(j&1)==0; int t=(int)((long long)k*o%n); return 2*(im?-S[t]:C[t])*sc; }
    // DCT
    if(!inv){ long long t=(long long)o*(2*j+1)%(4LL*n); return C[t]*sc; }
    // inverse: fwd0: X; fwd: X/N. inv undoes fwd.
    if(j==0) return sc; long long t=(long long)j*(2*o+1)%(4LL*n); return 2*C[t]*sc; }
};
