// Expression DAG for symbolic doubles, and its linear / rounding-error analysis.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <set>
#include <tuple>
#include <string>
#include <unordered_map>
#include <stdexcept>
#include <algorithm>

typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64; typedef int32_t i32; typedef uint8_t u8;

struct EngineError : std::runtime_error { using std::runtime_error::runtime_error; };
struct NonFinite : std::runtime_error { using std::runtime_error::runtime_error; };   // data combined with an infinite or NaN constant
struct BoundExceeded : std::runtime_error { using std::runtime_error::runtime_error; }; // magnitude analysis: a result may leave the range of its type

enum NodeOp : u8 { N_CONST=0, N_VAR, N_JUNK, N_ADD, N_SUB, N_NEG, N_MULC, N_DIVC, N_F32,
                   // non-linear:
                   N_MUL, N_DIV, N_SQRT, N_ABS, N_FUN1, N_FUN2 };

static const u64 TAG_SYM = 0xFFF4ull;   // boxed symbolic double
static const u64 TAG_INT = 0xFFF5ull;   // boxed symbolic integer / pointer
static const u32 UNINIT32 = 0xFFF2BADDu;
static const u64 UNINIT64 = 0xFFF2BADDFFF2BADDull;

static inline bool isSym(u64 v){ return (v>>48)==TAG_SYM; }
static inline bool isSInt(u64 v){ return (v>>48)==TAG_INT; }
static inline bool isUninit(u64 v){ return v==UNINIT64 || (u32)v==UNINIT32 || (u32)(v>>32)==UNINIT32; }
static inline u64 boxSym(u32 n){ return (TAG_SYM<<48)|n; }
static inline u32 symId(u64 v){ return (u32)v; }
static inline double asD(u64 v){ double d; memcpy(&d,&v,8); return d; }
static inline u64 asU(double d){ u64 v; memcpy(&v,&d,8); return v; }

struct Dag {
  std::vector<u8> op; std::vector<u32> A,B;
  // function names for N_FUN
  std::vector<u8> taint;      // 1: depends on uninitialised (junk) memory, 2: contains non-linear node
  bool hashcons=true;
  std::vector<u32> ht; u64 hmask=0; u64 hcount=0;
  std::unordered_map<u64,u32> constmap;
  u32 nvars=0; std::vector<u32> varNode; std::vector<std::string> junkInfo; std::vector<u32> junkNode;
  std::vector<std::string> funNames;
  Dag(){ clear(); }
  void clear(){
    op.clear();A.clear();B.clear();taint.clear();constmap.clear();varNode.clear();junkInfo.clear();junkNode.clear();nvars=0;
    topN=jtopN=0xffffffffu; bk.clear(); bkNode.clear(); funArgs.clear();
    ht.assign(1<<16,0xffffffffu); hmask=ht.size()-1; hcount=0;
  }
  u32 raw(u8 o,u32 a,u32 b,u8 t){
    if(op.size()>=0xfffffff0u) throw EngineError("DAG too large");
    op.push_back(o);A.push_back(a);B.push_back(b);taint.push_back(t); return op.size()-1; }
  static u64 hsh(u8 o,u32 a,u32 b){ u64 h=(u64)a*0x9E3779B97F4A7C15ull ^ ((u64)b*0xC2B2AE3D27D4EB4Full) ^ ((u64)o*0x165667B19E3779F9ull); h^=h>>29; h*=0xBF58476D1CE4E5B9ull; h^=h>>32; return h; }
  void grow(){
    std::vector<u32> o; o.swap(ht); ht.assign(o.size()*2,0xffffffffu); hmask=ht.size()-1;
    for(u32 id:o) if(id!=0xffffffffu){ u64 h=hsh(op[id],A[id],B[id])&hmask; while(ht[h]!=0xffffffffu) h=(h+1)&hmask; ht[h]=id; }
  }
  // abstract run: every symbolic result is the same "any value" node (or "any value computed from uninitialised memory")
  bool absorb=false; u32 topN=0xffffffffu, jtopN=0xffffffffu;
  u64 top(){ if(topN==0xffffffffu) topN=mkVar(); return boxSym(topN); }
  // magnitude run: every symbolic result is the node "any value of magnitude at most 2^e*(1+j/lat)", one node per bound; every distinct step is remembered
  bool bounds=false; std::vector<i32> bk; std::unordered_map<i32,u32> bkNode; struct Step{ u8 op; i32 a,b,r; bool operator<(const Step&o)const{ return std::tie(op,a,b,r)<std::tie(o.op,o.a,o.b,o.r); } }; std::set<Step> steps; i32 bkMax=-(1<<27); u64 nsteps=0; std::unordered_map<u64,i32> stepMemo;
  i32 lat=8; i32 bkDbl()const{ return lat*1024-1; }   // largest bound strictly below the overflow threshold (2^1023*(2-1/lat))
  i32 bucketUp(long double v)const{ if(!(v>0)) return -lat*1070; if(!(v<ldexpl(1,1100))) return lat*1100; int e; long double m=frexpl(v,&e)*2; e--; int j=(int)ceill((m-1)*lat); if(j>=lat){ j=0; e++; } return std::max(-lat*1070,lat*e+j); }
  i32 bkExp(i32 k)const{ return k>=0?k/lat:-((-k+lat-1)/lat); }
  long double bucketVal(i32 k)const{ int e=bkExp(k), j=k-lat*e; return ldexpl((long double)(lat+j)/lat,e); }
  i32 bucketConst(double c){ long double v=fabsl((long double)c); if(v<1.0L/64) v=1.0L/64; return bucketUp(v); }
  i32 bkOf(u32 n){ return n<bk.size()?bk[n]:0; }
  u64 bounded(i32 k){ if(k>bkMax) bkMax=k; auto it=bkNode.find(k); if(it!=bkNode.end()) return boxSym(it->second); u32 id=mkVar(); if(bk.size()<=id) bk.resize(id+1,0); bk[id]=k; bkNode[k]=id; return boxSym(id); }
  static const char*opName(u8 o){ static const char*n[]={"constant","input","uninitialised","addition","subtraction","negation","multiplication","division","conversion to float","multiplication of data by data","division by data","square root","absolute value","function","function"}; return n[o]; }
  u64 bstep(u8 o,i32 a,i32 b){ nsteps++; u64 key=((u64)o<<56)^((u64)(u32)(a+(1<<27))<<28)^(u64)(u32)(b+(1<<27)); auto it=stepMemo.find(key); if(it!=stepMemo.end()) return bounded(it->second);
    long double A=bucketVal(a),B=bucketVal(b),v=0; const long double up=1+ldexpl(1,-50);
    switch(o){ case N_ADD: case N_SUB: v=(A+B)*up; break; case N_MULC: case N_MUL: v=A*B*up; break; case N_DIVC: v=A/B*up; break; case N_NEG: case N_ABS: v=A; break; case N_F32: v=A*(1+ldexpl(1,-23)); break; case N_SQRT: v=sqrtl(A)*up; break; default: throw BoundExceeded(std::string(opName(o))+" has no bound"); }
    i32 r=bucketUp(v); char m[300]; if(r>bkDbl()||(o==N_F32&&r>lat*128-1)){ snprintf(m,300,"%s of values of magnitude up to %Lg%s may exceed the range of %s",opName(o),A,o==N_NEG||o==N_ABS||o==N_SQRT||o==N_F32?"":[&]{ char q[60]; snprintf(q,60," and up to %Lg",B); return std::string(q); }().c_str(),o==N_F32?"float":"double"); throw BoundExceeded(m); }
    steps.insert({o,a,b,r}); stepMemo[key]=r; return bounded(r); }
  u64 bbin(u8 o,u64 a,u64 b){ // at least one symbolic
    if(isSym(a)&&(taint[symId(a)]&1)) return a; if(isSym(b)&&(taint[symId(b)]&1)) return b;
    if(isSym(a)&&isSym(b)) return bstep(o,bkOf(symId(a)),bkOf(symId(b)));
    double c=isSym(a)?asD(b):asD(a); u64 s=isSym(a)?a:b; if(!std::isfinite(c)) throw NonFinite("data combined with a non-finite constant");
    if(o==N_ADD||o==N_SUB){ if(c==0) return s; return bstep(o,bkOf(symId(s)),bucketUp(fabsl((long double)c))); }
    if(o==N_MUL){ if(c==0) return asU(0.0); if(c==1||c==-1) return s; return bstep(N_MULC,bkOf(symId(s)),bucketConst(c)); }
    if(isSym(b)) throw BoundExceeded("division by a value computed from the data"); if(c==0) throw BoundExceeded("division by zero"); if(c==1||c==-1) return s;
    i32 k=bucketUp(fabsl((long double)c)); if(bucketVal(k)>fabsl((long double)c)) k--; return bstep(N_DIVC,bkOf(symId(s)),k); }
  u32 mk(u8 o,u32 a,u32 b){
    if(bounds){ if(taint[a]&1) return a; if(o==N_NEG||o==N_ABS) return a; if(o==N_F32||o==N_SQRT) return symId(bstep(o,bkOf(a),bkOf(a))); throw BoundExceeded("unsupported operation on data"); }
    if(absorb){ bool j=(taint[a]&1)||((o==N_ADD||o==N_SUB||o>=N_MUL)&&(taint[b]&1)); if(!j){ top(); return topN; } if(jtopN==0xffffffffu) jtopN=mkJunk("uninitialised value"); return jtopN; }
    u8 t=taint[a]; if(o==N_ADD||o==N_SUB||o>=N_MUL) t|=taint[b];
    if(o>=N_MUL) t|=2;
    if(!hashcons) return raw(o,a,b,t);
    u64 h=hsh(o,a,b)&hmask;
    while(ht[h]!=0xffffffffu){ u32 id=ht[h]; if(op[id]==o&&A[id]==a&&B[id]==b) return id; h=(h+1)&hmask; }
    u32 id=raw(o,a,b,t); ht[h]=id; if(++hcount*10>ht.size()*7) grow();
    return id;
  }
  u32 mkConst(double d){
    u64 v=asU(d); auto it=constmap.find(v); if(it!=constmap.end()) return it->second;
    u32 id=raw(N_CONST,(u32)v,(u32)(v>>32),0); constmap.emplace(v,id); return id; }
  double cval(u32 id) const { return asD((u64)A[id]|((u64)B[id]<<32)); }
  u32 mkVar(){ u32 id=raw(N_VAR,nvars,0,0); varNode.push_back(id); nvars++; return id; }
  u32 mkJunk(const std::string&info){ u32 id=raw(N_JUNK,(u32)junkNode.size(),0,1); junkNode.push_back(id); junkInfo.push_back(info); return id; }
  u32 node(u64 v){ return isSym(v)? symId(v) : mkConst(asD(v)); }
  // arithmetic on boxed values, at least one symbolic
  u64 neg(u64 a){
    if(bounds) return a;
    u32 n=symId(a);
    if(op[n]==N_NEG) return boxSym(A[n]);
    return boxSym(mk(N_NEG,n,0)); }
  u64 add(u64 a,u64 b){
    if(bounds) return bbin(N_ADD,a,b);
    if(!isSym(a)){ std::swap(a,b); }
    if(absorb) return boxSym(mk(N_ADD,isSym(a)?symId(a):symId(b),isSym(b)?symId(b):symId(a)));
    if(!isSym(b)){ if(asD(b)==0.0 && !(taint[symId(a)]&1)) return a; }
    u32 x=node(a), y=node(b); if(hashcons && x>y) std::swap(x,y);
    return boxSym(mk(N_ADD,x,y)); }
  u64 sub(u64 a,u64 b){
    if(bounds) return bbin(N_SUB,a,b);
    if(absorb) return boxSym(mk(N_SUB,isSym(a)?symId(a):symId(b),isSym(b)?symId(b):symId(a)));
    if(!isSym(b)){ if(asD(b)==0.0 && !(taint[symId(a)]&1)) return a; }
    if(!isSym(a)){ if(asD(a)==0.0 && !(taint[symId(b)]&1)) return neg(b); }
    return boxSym(mk(N_SUB,node(a),node(b))); }
  u64 mul(u64 a,u64 b){
    if(bounds) return bbin(N_MUL,a,b);
    if(absorb) return boxSym(mk(N_MUL,isSym(a)?symId(a):symId(b),isSym(b)?symId(b):symId(a)));
    if(isSym(a)&&isSym(b)){ u32 x=symId(a),y=symId(b); if(x>y)std::swap(x,y); return boxSym(mk(N_MUL,x,y)); }
    if(!isSym(a)) std::swap(a,b);
    double c=asD(b);
    if(!(taint[symId(a)]&1)){
      if(c==1.0) return a; if(c==-1.0) return neg(a); if(c==0.0) return asU(0.0);
    }
    if(!std::isfinite(c)) throw NonFinite("data multiplied by a non-finite constant");
    return boxSym(mk(N_MULC,symId(a),mkConst(c))); }
  u64 div(u64 a,u64 b){
    if(bounds) return bbin(N_DIV,a,b);
    if(absorb) return boxSym(mk(N_DIV,isSym(a)?symId(a):symId(b),isSym(b)?symId(b):symId(a)));
    if(isSym(b)){ return boxSym(mk(N_DIV,node(a),symId(b))); }
    double c=asD(b);
    if(c==1.0) return a; if(c==-1.0) return neg(a);
    if(c==0.0||!std::isfinite(c)) throw NonFinite("data divided by zero or by a non-finite constant");
    return boxSym(mk(N_DIVC,symId(a),mkConst(c))); }
  u64 f32(u64 a){ return boxSym(mk(N_F32,symId(a),0)); }
  u64 fun1(const char*name,u64 a){
    if(!strcmp(name,"sqrt")) return boxSym(mk(N_SQRT,symId(a),symId(a)));
    if(!strcmp(name,"fabs")) return boxSym(mk(N_ABS,symId(a),symId(a)));
    u32 f=funId(name); u32 x=node(a); (void)x; return boxSym(mkFun(N_FUN1,f,x,x)); }
  u64 fun2(const char*name,u64 a,u64 b){ u32 f=funId(name); return boxSym(mkFun(N_FUN2,f,node(a),node(b))); }
  // N_FUN nodes: A = index in funArgs
  struct FA{u32 f,x,y;}; std::vector<FA> funArgs;
  u32 funId(const std::string&n){ for(u32 i=0;i<funNames.size();i++) if(funNames[i]==n) return i; funNames.push_back(n); return funNames.size()-1; }
  u32 mkFun(u8 o,u32 f,u32 x,u32 y){
    if(bounds){ const std::string&n=funNames[f]; i32 a=bkOf(x),b=bkOf(y); if(n=="sin"||n=="cos"||n=="tanh") return symId(bounded(0)); if(n=="atan"||n=="asin"||n=="atan2"||n=="acos") return symId(bounded(2*lat)); if(n=="hypot") return symId(bstep(N_ADD,a,b)); if(n=="fmax"||n=="fmin") return symId(bounded(std::max(a,b))); if(n=="floor"||n=="ceil"||n=="trunc"||n=="rint"||n=="round") return symId(bstep(N_ADD,a,0)); if(n=="copysign"||n=="fmod") return x; throw BoundExceeded(n+" of data has no bound"); }
    if(absorb) return mk(N_ADD,x,y);
    for(u32 i=0;i<funArgs.size();i++) if(funArgs[i].f==f&&funArgs[i].x==x&&funArgs[i].y==y){ for(u32 k=0;k<op.size();k++) if(op[k]==o&&A[k]==i) return k; }
    funArgs.push_back({f,x,y}); return raw(o,funArgs.size()-1,0,(taint[x]|taint[y])|2); }
  size_t size()const{return op.size();}
};

// One linear analysis over the sub-DAG below a set of outputs.
struct Lin {
  Dag&g; std::vector<u32> map; // node -> compact
  std::vector<u8> op; std::vector<u32> a,b; std::vector<double> c; std::vector<u32> orig;
  std::vector<u32> out; // compact index of outputs (0xffffffff for concrete), 
  std::vector<double> outc; // constant outputs
  bool nonlinear=false, junk=false; u32 junkNode=0;
  std::vector<u32> varCompact; // var idx -> compact or -1
  Lin(Dag&g_,const std::vector<u64>&outs):g(g_){
    map.assign(g.size(),0xffffffffu);
    std::vector<u8> mark(g.size(),0);
    u32 mx=0;
    for(u64 v:outs) if(isSym(v)){ mark[symId(v)]=1; mx=std::max(mx,symId(v)+1);} 
    for(u32 i=mx;i-->0;) if(mark[i]){
      switch(g.op[i]){
        case N_ADD: case N_SUB: mark[g.A[i]]=1; mark[g.B[i]]=1; break;
        case N_NEG: case N_F32: case N_MULC: case N_DIVC: mark[g.A[i]]=1; break;
        case N_CONST: case N_VAR: break;
        case N_JUNK: junk=true; junkNode=i; break;
        default: nonlinear=true; break;
      }
    }
    varCompact.assign(g.nvars,0xffffffffu);
    if(nonlinear) return;
    for(u32 i=0;i<mx;i++) if(mark[i]){
      u8 o=g.op[i]; u32 k=op.size(); map[i]=k; orig.push_back(i);
      op.push_back(o); double cc=0; u32 aa=0,bb=0;
      switch(o){
        case N_ADD: case N_SUB: aa=map[g.A[i]]; bb=map[g.B[i]]; break;
        case N_NEG: case N_F32: aa=map[g.A[i]]; break;
        case N_MULC: case N_DIVC: aa=map[g.A[i]]; cc=g.cval(g.B[i]); break;
        case N_CONST: cc=g.cval(i); break;
        case N_VAR: aa=g.A[i]; varCompact[aa]=k; break;
        case N_JUNK: break;
      }
      a.push_back(aa); b.push_back(bb); c.push_back(cc);
    }
    for(u64 v:outs){ if(isSym(v)){ out.push_back(map[symId(v)]); outc.push_back(0);} else { out.push_back(0xffffffffu); outc.push_back(asD(v)); } }
  }
  size_t n()const{return op.size();}
  // Evaluate lanes of L doubles. init(varIndex,lane pointer) sets the variable.
  template<int L,class F> void forward(std::vector<double>&v,F init,bool withConst)const{
    v.resize(n()*L);
    const size_t m=n();
    for(size_t i=0;i<m;i++){
      double*r=&v[i*L]; const double*x,*y;
      switch(op[i]){
        case N_ADD: x=&v[(size_t)a[i]*L];y=&v[(size_t)b[i]*L]; for(int l=0;l<L;l++) r[l]=x[l]+y[l]; break;
        case N_SUB: x=&v[(size_t)a[i]*L];y=&v[(size_t)b[i]*L]; for(int l=0;l<L;l++) r[l]=x[l]-y[l]; break;
        case N_NEG: x=&v[(size_t)a[i]*L]; for(int l=0;l<L;l++) r[l]=-x[l]; break;
        case N_F32: x=&v[(size_t)a[i]*L]; for(int l=0;l<L;l++) r[l]=x[l]; break;
        case N_MULC: {double k=c[i]; x=&v[(size_t)a[i]*L]; for(int l=0;l<L;l++) r[l]=x[l]*k; break;}
        case N_DIVC: {double k=c[i]; x=&v[(size_t)a[i]*L]; for(int l=0;l<L;l++) r[l]=x[l]/k; break;}
        case N_CONST: for(int l=0;l<L;l++) r[l]=withConst?c[i]:0.0; break;
        case N_VAR: init(a[i],r); break;
        default: for(int l=0;l<L;l++) r[l]=0; break;
      }
    }
  }
  // Adjoint for one output: coefficient of every variable (size nvars) and the constant part.
  void adjoint(u32 outIdx,std::vector<double>&coef,double&c0,std::vector<double>&w)const{
    coef.assign(g.nvars,0.0); c0=0;
    if(out[outIdx]==0xffffffffu){ c0=outc[outIdx]; return; }
    u32 top=out[outIdx]; w.assign(top+1,0.0); w[top]=1.0;
    for(u32 i=top+1;i-->0;){
      double t=w[i]; if(t==0.0) continue;
      switch(op[i]){
        case N_ADD: w[a[i]]+=t; w[b[i]]+=t; break;
        case N_SUB: w[a[i]]+=t; w[b[i]]-=t; break;
        case N_NEG: w[a[i]]-=t; break;
        case N_F32: w[a[i]]+=t; break;
        case N_MULC: w[a[i]]+=t*c[i]; break;
        case N_DIVC: w[a[i]]+=t/c[i]; break;
        case N_CONST: c0+=t*c[i]; break;
        case N_VAR: coef[a[i]]+=t; break;
      }
    }
  }
  // Magnitude bounds by interval arithmetic for |x_j|<=X and running error bound with unit roundoff 2^-53.
  // If Bexact is non-null it holds a (valid) magnitude bound per node that is used instead of the interval bound.
  void bounds(double X,std::vector<double>&B,std::vector<double>&E,const std::vector<double>*Bexact=nullptr)const{
    const double u=1.1102230246251565e-16, u32r=5.9604644775390625e-8;
    B.assign(n(),0);E.assign(n(),0);
    for(size_t i=0;i<n();i++){
      double m=0,e=0;
      switch(op[i]){
        case N_ADD: case N_SUB: m=B[a[i]]+B[b[i]]; e=E[a[i]]+E[b[i]]; break;
        case N_NEG: B[i]=B[a[i]]; E[i]=E[a[i]]; continue;
        case N_F32: m=B[a[i]]; e=E[a[i]]+u32r*(m+E[a[i]]); break;
        case N_MULC: m=B[a[i]]*std::fabs(c[i]); e=E[a[i]]*std::fabs(c[i]); break;
        case N_DIVC: m=B[a[i]]/std::fabs(c[i]); e=E[a[i]]/std::fabs(c[i]); break;
        case N_CONST: B[i]=std::fabs(c[i]); continue;
        case N_VAR: B[i]=X; continue;
        default: B[i]=0; continue;
      }
      if(Bexact) m=std::min(m,(*Bexact)[i]);
      m*=1+1e-14; B[i]=m; E[i]=(e+u*(m+e))*(1+1e-14);
    }
  }
};
