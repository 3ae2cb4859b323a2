// Symbolic executor over lengths: integers are polynomials over symbolic sizes, pointers are region+offset, doubles are opaque.
#pragma once
#include "poly.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <memory>
#include <unordered_map>
#include <iostream>
using namespace llvm;

typedef std::vector<std::vector<Atom>> Dnf;   // {} never, {{}} always
struct Cond { Dnf T,F; };
struct Val { enum K:char{TOP,INT,PTR,BOOL,FN,AGG}; K k=TOP; Poly p; int reg=-1; const Function*f=nullptr; int slot=-1; std::shared_ptr<Cond> c; std::vector<Val> agg;
  static Val I(Poly p){ Val v; v.k=INT; v.p=std::move(p); return v; } static Val P(int r,Poly o){ Val v; v.k=PTR; v.reg=r; v.p=std::move(o); return v; }
  static Val B(Cond c){ Val v; v.k=BOOL; v.c=std::make_shared<Cond>(std::move(c)); return v; } };
struct Region { Poly size; bool tracked; std::string name; bool kernel=false; const GlobalVariable*g=nullptr; };
struct Cell { u64 size; Val v; };
struct State { Path P; std::map<std::pair<int,i64>,Cell> mem; std::map<std::pair<int,i64>,i64> zero; };   // zero: cleared ranges
struct Out { State S; Val ret; };
struct LoopCtx; 
struct FnInfo { DominatorTree dt; LoopInfo li; };
struct Frame { const Function*F; FnInfo*fi; std::unordered_map<const Value*,Val> r; std::vector<LoopCtx*> loops; std::vector<Out>*outs; bool trialRet=false; };
struct Back { State S; Frame F; const BasicBlock*from; };
struct LoopCtx { const Loop*L; bool trial; std::vector<Back>*backs; int tvar=-1; };
struct Viol { std::string kind,msg,where; std::vector<i128> ns; };

struct Tmpl { int kind; int i,j,p; int lv; i128 c=0; };   // 0: a_i>=c  1: a_i<=c  2: a_i*a_j<=c  3: available(a_p)>=16*a_i*a_j+c  4: even(a_j) or odd(a_i) or a_j==1
struct Contract { const Function*F; std::vector<Tmpl> cand; };

struct Exec { Module&M; const DataLayout&DL; World w; std::vector<Region> regions; std::map<const Function*,std::unique_ptr<FnInfo>> infos; std::map<const GlobalVariable*,int> greg; std::map<const Function*,Contract> contracts; std::set<const Function*> recursive; bool dropped=false;
  int quiet=0, depth=0; u64 instrs=0,paths=0; std::set<std::string> funcs; std::vector<Viol> viols; std::set<std::string> violKeys; std::vector<std::string> undecided; int nvar=-1; std::vector<Poly> sizeExprs; std::vector<const GlobalVariable*> mixedVt; 
  Exec(Module&m):M(m),DL(m.getDataLayout()){ findRecursive(); for(auto&g:M.globals()){ std::string n=g.getName().str(); if(n.substr(0,4)=="_ZTV"&&g.hasInitializer()&&demangle(n).find("MixedRadix")!=std::string::npos) mixedVt.push_back(&g); } }
  // ---- helpers
  int newRegion(Poly size,bool tracked,const std::string&n){ regions.push_back({size,tracked,n}); return (int)regions.size()-1; }
  static i128 lo(unsigned w_){ return -((i128)1<<(w_-1)); } static i128 hi(unsigned w_){ return ((i128)1<<(w_-1))-1; }
  Val freshInt(const std::string&n,unsigned bits){ return Val::I(Poly::var(w.fresh(n,lo(bits),hi(bits)))); }
  Val unknownBool(){ Cond c; c.T={{}}; c.F={{}}; return Val::B(c); }
  Val freshOf(Type*T,const std::string&n){ if(T->isIntegerTy(1)) return unknownBool(); if(T->isIntegerTy()) return freshInt(n,T->getIntegerBitWidth()); return Val(); }
  static Cond cTrue(){ Cond c; c.T={{}}; return c; } static Cond cNot(Cond c){ std::swap(c.T,c.F); return c; }
  static Dnf cross(const Dnf&a,const Dnf&b){ Dnf r; for(auto&x:a) for(auto&y:b){ auto z=x; z.insert(z.end(),y.begin(),y.end()); r.push_back(z); } if(r.size()>64) unsup("condition too large"); return r; }
  static Dnf uni(Dnf a,const Dnf&b){ for(auto&x:b){ if(x.empty()) return {{}}; } for(auto&x:a) if(x.empty()) return {{}}; a.insert(a.end(),b.begin(),b.end()); return a; }
  static Cond cAnd(const Cond&a,const Cond&b){ Cond c; c.T=cross(a.T,b.T); c.F=uni(a.F,b.F); return c; } static Cond cOr(const Cond&a,const Cond&b){ return cNot(cAnd(cNot(a),cNot(b))); }
  static bool same(const State&s,const Val&a,const Val&b){ if(a.k!=b.k) return false; switch(a.k){ case Val::INT: return s.P.norm(a.p)==s.P.norm(b.p); case Val::PTR: return a.reg==b.reg&&s.P.norm(a.p)==s.P.norm(b.p); case Val::FN: return a.f==b.f&&a.slot==b.slot; case Val::BOOL: return a.c==b.c||(a.c->T==b.c->T&&a.c->F==b.c->F); case Val::AGG: if(a.agg.size()!=b.agg.size()) return false; for(size_t i=0;i<a.agg.size();i++) if(!same(s,a.agg[i],b.agg[i])) return false; return true; default: return true; } }
  FnInfo*info(const Function*F){ auto&p=infos[F]; if(!p){ p.reset(new FnInfo); p->dt.recalculate(*const_cast<Function*>(F)); p->li.analyze(p->dt); } return p.get(); }
  void findRecursive(){ std::map<const Function*,std::set<const Function*>> g; for(auto&F:M) for(auto&B:F) for(auto&I:B) if(auto*cb=dyn_cast<CallBase>(&I)){ if(auto*c=cb->getCalledFunction()) g[&F].insert(c); for(auto&a:cb->args()) if(auto*f=dyn_cast<Function>(a->stripPointerCasts())) g[&F].insert(f); }
    for(auto&F:M) if(!F.isDeclaration()){ std::set<const Function*> seen; std::vector<const Function*> st(g[&F].begin(),g[&F].end()); bool rec=false; while(!st.empty()){ auto*f=st.back(); st.pop_back(); if(f==&F){ rec=true; break; } if(!seen.insert(f).second) continue; for(auto*h:g[f]) st.push_back(h); } if(rec&&F.getReturnType()->isVoidTy()) recursive.insert(&F); } }
  std::string where(const Instruction&I){ std::string s; raw_string_ostream o(s); I.print(o); return demangle(I.getFunction()->getName().str())+":"+s; }
  void violation(State&S,const Atom*goal,const std::string&kind,const std::string&msg,const Instruction&I){
    std::string key=kind+"|"+where(I); if(!violKeys.insert(key).second) return; Viol v; v.kind=kind; v.msg=msg; v.where=where(I);
    if(fixedN){ v.ns.push_back(fixedN); viols.push_back(v); return; }
    // sizes that make it fail
    auto value=[&](const Poly&p0,std::map<int,i128>&m)->i128{ Poly p=S.P.norm(p0); i128 r=0; for(auto&k:p.t){ i128 x=k.second; for(int y:k.first){ auto it=m.find(y); x*=it==m.end()?std::max<i128>(w.v[y].lo,1):it->second; } r+=x; } return r; };
    double dl=w.deadline; w.deadline=std::max(dl,now()+60); std::vector<Atom> base; if(goal) base.push_back(negate(*goal));
    std::vector<Poly> szs=sizeExprs; int found=0; bool sat=false;
    for(auto&sz:szs) for(i128 B:{(i128)1<<12,(i128)1<<17,(i128)1<<22,(i128)1<<27,(i128)1<<30}){ if(found>=3) break; auto g=base; g.push_back({Poly(B)-sz,GE}); g.push_back({sz-Poly(2),GE}); std::map<int,i128> m; int r=S.P.solve(g,3,&m,4000); if(r==0&&!m.empty()){ sat=true; v.ns.push_back(value(sz,m)); found++; break; } }
    w.deadline=dl; (void)sat; viols.push_back(v); }
  void oblige(State&S,const Atom&goal,const char*kind,const Instruction&I){ if(S.P.dead||quiet) return; w.obligations++; Atom g=goal; g.p=S.P.norm(g.p); if(S.P.quick(g)==1||S.P.proves(g,3)){ w.proved++; return; } violation(S,&goal,kind,g.p.str(),I); S.P.assume(goal); }
  void inRange(State&S,const Poly&p,unsigned bits,const Instruction&I){ oblige(S,{p-Poly(lo(bits)),GE},"signed overflow",I); oblige(S,{Poly(hi(bits))-p,GE},"signed overflow",I); }
  bool prove(State&S,const Atom&a){ Atom g=a; g.p=S.P.norm(g.p); int q=S.P.quick(g); if(q==1) return true; if(q==0) return S.P.dead; return S.P.proves(g,2); }
  bool fits(State&S,const Poly&p,unsigned bits){ return prove(S,{p-Poly(lo(bits)),GE})&&prove(S,{Poly(hi(bits))-p,GE}); }
  void access(State&S,const Val&p,u64 size,const Instruction&I,const Poly*len=nullptr){ if(p.k!=Val::PTR) unsup("access through an unknown pointer: "+where(I)); if(p.reg<0){ if(!quiet) violation(S,nullptr,"null dereference","",I); S.P.dead=true; return; } if(quiet) return; Poly n=len?*len:Poly((i128)size);
    oblige(S,{p.p,GE},"out of bounds",I); oblige(S,{regions[p.reg].size-p.p-n,GE},"out of bounds",I); }
  // ---- constants
  int globalRegion(const GlobalVariable*g){ auto it=greg.find(g); if(it!=greg.end()) return it->second; int r=newRegion(Poly((i128)DL.getTypeAllocSize(g->getValueType())),true,g->getName().str()); regions[r].g=g; greg[g]=r; return r; }
  Val constant(const Constant*c){ if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()==1){ Cond x; (ci->isOne()?x.T:x.F)={{}}; return Val::B(x); } if(ci->getBitWidth()>64) return Val(); return Val::I(Poly((i128)ci->getSExtValue())); }
    if(isa<ConstantPointerNull>(c)) return Val::P(-1,Poly()); if(auto*f=dyn_cast<Function>(c)){ Val v; v.k=Val::FN; v.f=f; return v; } if(auto*g=dyn_cast<GlobalVariable>(c)) return Val::P(globalRegion(g),Poly()); if(auto*a=dyn_cast<GlobalAlias>(c)) return constant(a->getAliasee());
    if(auto*ce=dyn_cast<ConstantExpr>(c)){ if(ce->getOpcode()==Instruction::GetElementPtr){ APInt off(64,0); auto*g=cast<GEPOperator>(ce); if(g->accumulateConstantOffset(DL,off)){ Val b=constant(cast<Constant>(g->getPointerOperand())); if(b.k==Val::PTR){ b.p=b.p+Poly((i128)off.getSExtValue()); return b; } } } return Val(); }
    if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)||isa<ConstantAggregate>(c)){ if(auto*st=dyn_cast<StructType>(c->getType())){ Val v; v.k=Val::AGG; for(unsigned i=0;i<st->getNumElements();i++){ auto*e=c->getAggregateElement(i); v.agg.push_back(e&&!isa<UndefValue>(e)?constant(e):freshOf(st->getElementType(i),"undef")); } return v; } if(isa<UndefValue>(c)) return freshOf(c->getType(),"undef"); }
    return Val(); }
  Val get(State&S,Frame&F,const Value*v){ if(auto*c=dyn_cast<Constant>(v)) return constant(c); auto it=F.r.find(v); if(it==F.r.end()){ if(getenv("SZX_V")){ std::string z; raw_string_ostream o(z); v->print(o); fprintf(stderr,"V not computed %s in %s\n",o.str().c_str(),F.F->getName().str().c_str()); } unsup("value not computed"); } Val x=it->second; if(x.k==Val::INT||x.k==Val::PTR) x.p=S.P.norm(x.p); return x; }
  Val asInt(State&S,const Val&v){ if(v.k==Val::INT) return v; if(v.k==Val::BOOL){ if(v.c->F.empty()) return Val::I(Poly(1)); if(v.c->T.empty()) return Val::I(Poly(0)); return Val::I(Poly::var(w.fresh("bool",0,1))); } return Val(); }
  Cond asCond(State&S,const Val&v){ if(v.k==Val::BOOL) return *v.c; if(v.k==Val::INT) return cmp(CmpInst::ICMP_NE,v,Val::I(Poly(0)),S,32); Cond c; c.T={{}}; c.F={{}}; return c; }
  // ---- memory
  Val load(State&S,const Val&p,Type*T,const Instruction&I){ u64 sz=DL.getTypeStoreSize(T); access(S,p,sz,I); if(S.P.dead) return Val(); Region&R=regions[p.reg];
    if(R.kernel){ Val v; if(T->isPointerTy()){ Poly o=S.P.norm(p.p); if(R.name=="kernel"&&o.isConst()&&o.c()==0){ v=Val::P(kernelVt(),Poly()); return v; } if(R.name=="kernelvt"&&o.isConst()){ v.k=Val::FN; v.slot=(int)(o.c()/8); return v; } unsup("load from a kernel object"); } return freshOf(T,"k"); }
    Poly o=S.P.norm(p.p); if(R.tracked&&o.isConst()){ auto it=S.mem.find({p.reg,(i64)o.c()}); if(it!=S.mem.end()&&it->second.size==sz){ Val v=it->second.v; if(v.k==Val::INT||v.k==Val::PTR) v.p=S.P.norm(v.p); return v; }
      if(R.g&&R.g->isConstant()&&R.g->hasInitializer()){ if(Constant*c=ConstantFoldLoadFromConst(const_cast<Constant*>(R.g->getInitializer()),T,APInt(64,(u64)o.c()),DL)) return constant(c); return freshOf(T,"g"); } 
      if(T->isIntegerTy()&&sz<=8){ u64 bits=0; bool ok=true; for(u64 b=0;b<sz&&ok;b++){ i64 at=(i64)o.c()+(i64)b; ok=false; for(auto c=S.mem.lower_bound({p.reg,at-8});c!=S.mem.end()&&c->first.first==p.reg&&c->first.second<=at;++c) if(c->first.second+(i64)c->second.size>at&&c->second.v.k==Val::INT){ Poly q=S.P.norm(c->second.v.p); if(q.isConst()){ bits|=(u64)(((u64)(i64)q.c()>>(8*(at-c->first.second)))&255)<<(8*b); ok=true; } } } if(ok){ i64 x=(i64)bits; if(sz<8){ int sh=64-8*(int)sz; x=(i64)(bits<<sh)>>sh; } if(T->isIntegerTy(1)){ Cond c; ((x&1)?c.T:c.F)={{}}; return Val::B(c); } return Val::I(Poly((i128)x)); } }
      for(auto z=S.zero.lower_bound({p.reg,INT64_MIN});z!=S.zero.end()&&z->first.first==p.reg;++z) if(z->first.second<=(i64)o.c()&&(i64)o.c()+(i64)sz<=z->second) return zeroOf(T);
      return freshOf(T,"load"); }
    return freshOf(T,"load"); }
  void killZero(State&S,int reg,i64 o,i64 e){ std::vector<std::pair<i64,i64>> keep; for(auto it=S.zero.lower_bound({reg,INT64_MIN});it!=S.zero.end()&&it->first.first==reg;){ i64 a=it->first.second,b=it->second; if(b<=o||a>=e){ ++it; continue; } if(a<o) keep.push_back({a,o}); if(b>e) keep.push_back({e,b}); it=S.zero.erase(it); } for(auto&k:keep) S.zero[{reg,k.first}]=k.second; }
  Val zeroOf(Type*T){ if(T->isPointerTy()) return Val::P(-1,Poly()); if(T->isIntegerTy(1)) return Val::B(cNot(cTrue())); if(T->isIntegerTy()) return Val::I(Poly(0)); return Val(); }
  void kill(State&S,int reg,i64 o,u64 sz){ killZero(S,reg,o,o+(i64)sz); for(auto it=S.mem.lower_bound({reg,o-64});it!=S.mem.end()&&it->first.first==reg&&it->first.second<o+(i64)sz;){ if(it->first.second+(i64)it->second.size>o) it=S.mem.erase(it); else ++it; } }
  void killAll(State&S,int reg){ killZero(S,reg,INT64_MIN/2,INT64_MAX/2); for(auto it=S.mem.lower_bound({reg,INT64_MIN});it!=S.mem.end()&&it->first.first==reg;) it=S.mem.erase(it); }
  void storeTo(State&S,const Val&p,const Val&v,Type*T,const Instruction&I){ u64 sz=DL.getTypeStoreSize(T); access(S,p,sz,I); if(S.P.dead) return; Region&R=regions[p.reg]; if(R.kernel) unsup("store into a kernel object"); if(!R.tracked){ if(T->isPointerTy()) unsup("pointer stored into an array"); return; }
    Poly o=S.P.norm(p.p); if(!o.isConst()){ killAll(S,p.reg); return; } kill(S,p.reg,(i64)o.c(),sz); if(v.k!=Val::TOP) S.mem[{p.reg,(i64)o.c()}]={sz,v}; }
  int kvt=-1; int kernelVt(){ if(kvt<0){ kvt=newRegion(Poly(4096),true,"kernelvt"); regions[kvt].kernel=true; } return kvt; }
  Val shl1(State&S,const Poly&amount0){ Poly am=S.P.norm(amount0); if(am.isConst()){ if(am.c()<0||am.c()>62) return freshInt("shl",64); return Val::I(Poly((i128)1<<(int)am.c())); } for(auto&s:S.P.shls) if(S.P.norm(s.amount)==am) return Val::I(S.P.norm(Poly::var(s.var))); int v=w.fresh("pow2",1,(i128)1<<62); S.P.shls.push_back({am,v}); auto r=S.P.range(am); if(r.second<62) S.P.assume({Poly((i128)1<<(int)r.second)-Poly::var(v),GE}); return Val::I(Poly::var(v)); }
  // ---- division
  std::pair<Poly,Poly> floorDiv(State&S,const Poly&a0,const Poly&b0){ Poly a=S.P.norm(a0),b=S.P.norm(b0); if(a.isConst()&&b.isConst()){ i128 q=fdiv(a.c(),b.c()); return {Poly(q),Poly(a.c()-q*b.c())}; }
    if(b.isConst()){ i128 d=b.c(); bool ok=true; for(auto&k:a.t) if(!k.first.empty()&&k.second%d!=0) ok=false; if(ok){ Poly q; for(auto&k:a.t) if(!k.first.empty()) q.t[k.first]=k.second/d; i128 c=a.c(); q=q+Poly(fdiv(c,d)); return {q,Poly(c-fdiv(c,d)*d)}; } }
    else if(b.t.size()==1){ auto&bm=*b.t.begin(); if(bm.second==1){ bool ok=!a.t.empty(); Poly q; for(auto&k:a.t){ Mono m=k.first; for(int x:bm.first){ auto it=std::find(m.begin(),m.end(),x); if(it==m.end()){ ok=false; break; } m.erase(it); } if(!ok) break; q.t[m]=k.second; } if(ok) return {q,Poly()}; } }
    auto key=std::make_pair(a,b); for(auto&d:S.P.divs) if(S.P.norm(d.first.first)==a&&S.P.norm(d.first.second)==b) return {S.P.norm(Poly::var(d.second.first)),S.P.norm(Poly::var(d.second.second))};
    auto ra=S.P.range(a); auto rb=S.P.range(b); i128 qh=ra.second>=INF?INF:(rb.first>0?ra.second/rb.first:ra.second); int q=w.fresh("quot",0,qh), r=w.fresh("rem",0,rb.second>=INF?INF:rb.second-1);
    S.P.divs[key]={q,r}; S.P.assume({a-b*Poly::var(q)-Poly::var(r),EQ}); S.P.assume({b-Poly::var(r)-Poly(1),GE}); return {S.P.norm(Poly::var(q)),S.P.norm(Poly::var(r))}; }
  // ---- comparison
  Cond cmp(CmpInst::Predicate pr,const Val&a,const Val&b,State&S,unsigned bits){ Cond c; c.T={{}}; c.F={{}};
    if(a.k==Val::BOOL&&b.k==Val::INT&&b.p.isConst()){ bool z=b.p.c()==0; if(pr==CmpInst::ICMP_NE) return z?*a.c:cNot(*a.c); if(pr==CmpInst::ICMP_EQ) return z?cNot(*a.c):*a.c; }
    if(a.k==Val::BOOL&&b.k==Val::BOOL&&b.c->T.empty()){ if(pr==CmpInst::ICMP_NE) return *a.c; if(pr==CmpInst::ICMP_EQ) return cNot(*a.c); }
    if(a.k==Val::FN||b.k==Val::FN){ bool eq=a.k==b.k&&a.f==b.f&&a.slot==b.slot; Cond r; if((pr==CmpInst::ICMP_EQ)==eq) r.T={{}}; else r.F={{}}; return r; }
    if(a.k==Val::PTR&&b.k==Val::PTR){ if(a.reg!=b.reg){ if(pr!=CmpInst::ICMP_EQ&&pr!=CmpInst::ICMP_NE) return c; Cond r; if(pr==CmpInst::ICMP_NE) r.T={{}}; else r.F={{}}; return r; } }
    else if(!(a.k==Val::INT&&b.k==Val::INT)){ Val x=asInt(S,a),y=asInt(S,b); if(x.k==Val::INT&&y.k==Val::INT) return cmp(pr,x,y,S,bits); return c; }
    Poly d=S.P.norm(b.p-a.p);   // b-a
    if(CmpInst::isUnsigned(pr)){ if(a.k==Val::INT&&!(prove(S,{a.p,GE})&&prove(S,{b.p,GE}))) return c; pr=ICmpInst::getSignedPredicate(pr); }
    Atom t{d,GE}; switch(pr){ case CmpInst::ICMP_EQ: t={d,EQ}; break; case CmpInst::ICMP_NE: t={d,NE}; break; case CmpInst::ICMP_SLT: t={d-Poly(1),GE}; break; case CmpInst::ICMP_SLE: t={d,GE}; break; case CmpInst::ICMP_SGT: t={-d-Poly(1),GE}; break; case CmpInst::ICMP_SGE: t={-d,GE}; break; default: return c; }
    Cond r; int q=S.P.quick(t); if(q==1) r.T={{}}; else if(q==0) r.F={{}}; else { r.T={{t}}; r.F={{negate(t)}}; } return r; }
  // ---- fork helper: continues f in every feasible alternative
  template<class G> void alternatives(const State&S,const Dnf&d,G g){ for(auto&alt:d){ State T=S; bool live=true; for(auto&a:alt){ Atom b=a; b.p=T.P.norm(b.p); int q=T.P.quick(b); if(q==1) continue; if(q==0||!T.P.feasible(b)){ live=false; break; } if(b.r==NE){ auto r=T.P.range(b.p); if(r.first==0) b={b.p-Poly(1),GE}; else if(r.second==0) b={-b.p-Poly(1),GE}; } T.P.assume(b); if(T.P.dead){ live=false; break; } } if(live) g(T); } }
  void tick(){ if((++instrs&1023)==0&&now()>w.deadline) unsup("time limit"); }

  std::vector<Out> call(State S,const Function*F,std::vector<Val> args,const Instruction&I);
  void run(State S,Frame F,const BasicBlock*bb,BasicBlock::const_iterator it);
  bool edge(State&S,Frame&F,const BasicBlock*from,const BasicBlock*to);
  bool concreteLoop(State&S,Frame F,const BasicBlock*from,const BasicBlock*header,const Loop*L);
  i128 fixedN=0; std::map<const Function*,std::set<std::string>> memo;
  void enterLoop(State S,Frame F,const BasicBlock*from,const BasicBlock*header);
  void untilEqual(State&S,Dnf&d,int t);
  void phis(State&S,Frame&F,const BasicBlock*from,const BasicBlock*to){ std::vector<std::pair<const Value*,Val>> t; for(auto&I:*to){ auto*ph=dyn_cast<PHINode>(&I); if(!ph) break; t.push_back({ph,get(S,F,ph->getIncomingValueForBlock(from))}); } for(auto&x:t) F.r[x.first]=x.second; }
  std::vector<Out> external(State S,const Function*F,const Val&callee,std::vector<Val>&args,const CallBase&I);
  std::vector<Out> merge(const State&S,std::vector<Out> o,size_t nreg);
  void applyContract(State&S,const Function*F,std::vector<Val>&args,const Instruction&I);
  void analyze(const Function*F);
  Val arith(State&S,const Instruction&I,Val a,Val b);
};
