#include "exec.h"

Val Exec::arith(State&S,const Instruction&I,Val a,Val b){
  unsigned op=I.getOpcode(); Type*T=I.getType(); if(!T->isIntegerTy()) return Val(); unsigned bits=T->getIntegerBitWidth();
  if(op==Instruction::And||op==Instruction::Or||op==Instruction::Xor){
    if(a.k==Val::BOOL||b.k==Val::BOOL){ if(a.k==Val::BOOL&&b.k==Val::BOOL){ if(op==Instruction::And) return Val::B(cAnd(*a.c,*b.c)); if(op==Instruction::Or) return Val::B(cOr(*a.c,*b.c)); Cond x=cAnd(*a.c,cNot(*b.c)),y=cAnd(cNot(*a.c),*b.c); return Val::B(cOr(x,y)); }
      const Val&k=a.k==Val::INT?a:b; const Val&o=a.k==Val::BOOL?a:b; if(k.k==Val::INT&&k.p.isConst()){ i128 c=k.p.c(); if(op==Instruction::And) return (c&1)?o:Val::I(Poly(0)); if(op==Instruction::Or&&c==0) return o; if(op==Instruction::Xor&&c==0) return o; if(op==Instruction::Xor&&c==1) return Val::B(cNot(*o.c)); } return bits==1?unknownBool():freshInt("bits",bits); }
    if(bits==1) return unknownBool(); if(a.k!=Val::INT||b.k!=Val::INT) return freshInt("bits",bits);
    if(a.p.isConst()&&b.p.isConst()){ i64 x=(i64)a.p.c(),y=(i64)b.p.c(); return Val::I(Poly((i128)(op==Instruction::And?(x&y):op==Instruction::Or?(x|y):(x^y)))); }
    const Val&m=b.p.isConst()?b:a; const Val&o=b.p.isConst()?a:b; if(op==Instruction::And&&m.p.isConst()&&m.p.c()>=0){ i128 c=m.p.c(); if(((c+1)&c)==0&&prove(S,{o.p,GE})) return Val::I(floorDiv(S,o.p,Poly(c+1)).second); return Val::I(Poly::var(w.fresh("and",0,c))); }
    if(op==Instruction::And&&m.p.isConst()&&m.p.c()<0&&((-m.p.c())&(-m.p.c()-1))==0&&prove(S,{o.p,GE})){ auto d=floorDiv(S,o.p,Poly(-m.p.c())); return Val::I(d.first*Poly(-m.p.c())); }
    if(prove(S,{a.p,GE})&&prove(S,{b.p,GE})) return Val::I(Poly::var(w.fresh("bits",0,hi(bits)))); return freshInt("bits",bits); }
  a=asInt(S,a); b=asInt(S,b); if(a.k!=Val::INT||b.k!=Val::INT) return bits==1?unknownBool():freshInt("arith",bits);
  auto nsw=[&]{ auto*o=dyn_cast<OverflowingBinaryOperator>(&I); return o&&o->hasNoSignedWrap(); };
  auto result=[&](Poly p)->Val{ p=S.P.norm(p); if(nsw()){ inRange(S,p,bits,I); return Val::I(p); } if(fits(S,p,bits)) return Val::I(p); return freshInt("wrapped",bits); };
  switch(op){
    case Instruction::Add: return result(a.p+b.p); case Instruction::Sub: return result(a.p-b.p); case Instruction::Mul: { Poly m; try{ m=a.p*b.p; }catch(Unsupported&){ if(nsw()) throw; return freshInt("wrapped",bits); } return result(m); }
    case Instruction::SDiv: case Instruction::SRem: case Instruction::UDiv: case Instruction::URem: { bool dv=op==Instruction::SDiv||op==Instruction::UDiv;
      if(!prove(S,{b.p-Poly(1),GE})){ oblige(S,{b.p,NE},"division by zero",I); return freshInt("div",bits); } if(!prove(S,{a.p,GE})){ if(op==Instruction::UDiv||op==Instruction::URem) return freshInt("div",bits);
        if(prove(S,{-a.p,GE})){ auto d=floorDiv(S,-a.p,b.p); return Val::I(dv?-d.first:-d.second); } if(!dv){ int v=w.fresh("rem",-hi(bits),hi(bits)); S.P.assume({b.p-Poly(1)-Poly::var(v),GE}); S.P.assume({b.p-Poly(1)+Poly::var(v),GE}); return Val::I(Poly::var(v)); } return freshInt("div",bits); } auto d=floorDiv(S,a.p,b.p); return Val::I(dv?d.first:d.second); }
    case Instruction::Shl: if(b.p.isConst()){ i128 k=b.p.c(); if(k<0||k>=bits){ oblige(S,{Poly(-1),GE},"shift out of range",I); return freshInt("shl",bits);} if(k>40&&!nsw()) return a.p.isConst()?Val::I(Poly((i128)(i64)((u64)(i64)a.p.c()<<(int)k))):freshInt("shl",bits); return result(a.p*Poly((i128)1<<(int)k)); } oblige(S,{b.p,GE},"shift out of range",I); oblige(S,{Poly(bits-1)-b.p,GE},"shift out of range",I); if(a.p.isConst()&&a.p.c()==1){ Val v=shl1(S,b.p); if(!fits(S,v.p,bits)) return freshInt("shl",bits); return v; } return freshInt("shl",bits);
    case Instruction::AShr: case Instruction::LShr: if(b.p.isConst()&&b.p.c()>=0&&b.p.c()<bits&&prove(S,{a.p,GE})) return Val::I(floorDiv(S,a.p,Poly((i128)1<<(int)b.p.c())).first); if(op==Instruction::LShr&&b.p.isConst()&&b.p.c()>0&&b.p.c()<bits) return Val::I(Poly::var(w.fresh("lshr",0,((i128)1<<(bits-(int)b.p.c()))-1))); return freshInt("shr",bits);
    default: return freshInt("arith",bits); } }

bool Exec::edge(State&S,Frame&F,const BasicBlock*from,const BasicBlock*to){
  while(!F.loops.empty()&&!F.loops.back()->L->contains(to)){ if(F.loops.back()->trial) return false; F.loops.pop_back(); }
  if(!F.loops.empty()&&F.loops.back()->L->getHeader()==to){ auto*c=F.loops.back(); if(c->backs){ Frame G=F; G.loops.pop_back(); c->backs->push_back({S,G,from}); if(c->backs->size()>64) unsup("too many paths through a loop body"); } return false; }
  if(F.fi->li.isLoopHeader(to)){ enterLoop(S,F,from,to); return false; }
  phis(S,F,from,to); return true; }

// the condition of a loop header held in every iteration so far: c*(t-end)!=0 for 0..t with end>=0 means t<end
void Exec::untilEqual(State&S,Dnf&d,int t){
  if(d.size()!=1) return; for(auto&a:d[0]) if(a.r==NE){ Poly p=S.P.norm(a.p); Mono m{t}; auto it=p.t.find(m); if(it==p.t.end()||it->second==0) continue; i128 c=it->second; Poly r; bool ok=true;
    for(auto&k:p.t){ if(k.first==m) continue; if(k.second%c!=0||std::find(k.first.begin(),k.first.end(),t)!=k.first.end()){ ok=false; break; } r.t[k.first]=k.second/c; } if(!ok||!prove(S,{-r,GE})) continue;
    a={-r-Poly::var(t)-Poly(1),GE}; } }

// a loop over integers with known values and no memory accesses: executed directly; false when a value is not known
bool Exec::concreteLoop(State&S,Frame F,const BasicBlock*from,const BasicBlock*header,const Loop*L){
  std::unordered_map<const Value*,i64> r; auto val=[&](const Value*v,i64&x)->bool{ if(auto*c=dyn_cast<ConstantInt>(v)){ if(c->getBitWidth()>64) return false; x=c->getSExtValue(); return true; } auto it=r.find(v); if(it!=r.end()){ x=it->second; return true; } auto k=F.r.find(v); if(k==F.r.end()) return false; if(k->second.k==Val::BOOL){ if(k->second.c->F.empty()) x=-1; else if(k->second.c->T.empty()) x=0; else return false; return true; } if(k->second.k!=Val::INT) return false; Poly p=S.P.norm(k->second.p); if(!p.isConst()) return false; x=(i64)p.c(); return true; };
  auto wrap=[](i128 v,unsigned b)->i64{ return b>=64?(i64)v:(i64)((u64)(i64)v<<(64-b))>>(64-b); };
  const BasicBlock*prev=from,*bb=header; for(u64 steps=0;steps<50000000;steps++){
    std::vector<std::pair<const Value*,i64>> ps; for(auto&I:*bb){ auto*p=dyn_cast<PHINode>(&I); if(!p) break; i64 x; if(!val(p->getIncomingValueForBlock(prev),x)) return false; ps.push_back({p,x}); } for(auto&p:ps) r[p.first]=p.second;
    for(auto it=bb->getFirstNonPHI()->getIterator();it!=bb->end();++it){ auto&I=*it; steps++; if(I.isTerminator()) break; if(I.getType()->isVoidTy()) continue; unsigned w_=I.getType()->getIntegerBitWidth(); i64 a,b; if(!val(I.getOperand(0),a)) return false; unsigned wo=I.getOperand(0)->getType()->isIntegerTy()?I.getOperand(0)->getType()->getIntegerBitWidth():0; if(!wo) return false; u64 m=wo>=64?~0ull:(1ull<<wo)-1;
      if(isa<BinaryOperator>(I)){ if(!val(I.getOperand(1),b)) return false; i128 v; auto*ov=dyn_cast<OverflowingBinaryOperator>(&I); switch(I.getOpcode()){ case Instruction::Add: v=(i128)a+b; break; case Instruction::Sub: v=(i128)a-b; break; case Instruction::Mul: v=(i128)a*b; break; case Instruction::And: v=a&b; break; case Instruction::Or: v=a|b; break; case Instruction::Xor: v=a^b; break;
          case Instruction::SDiv: case Instruction::SRem: if(!b) return false; v=I.getOpcode()==Instruction::SDiv?(i128)a/b:(i128)a%b; break; case Instruction::UDiv: case Instruction::URem: if(!b) return false; v=I.getOpcode()==Instruction::UDiv?(i128)(((u64)a&m)/((u64)b&m)):(i128)(((u64)a&m)%((u64)b&m)); break;
          case Instruction::Shl: if(b<0||b>=(i64)w_) return false; v=(i128)a<<b; break; case Instruction::AShr: if(b<0||b>=(i64)w_) return false; v=a>>b; break; case Instruction::LShr: if(b<0||b>=(i64)w_) return false; v=(i128)(((u64)a&m)>>b); break; default: return false; }
        if(ov&&ov->hasNoSignedWrap()&&(v<lo(w_)||v>hi(w_))){ if(!quiet) violation(S,nullptr,"signed overflow","",I); S.P.dead=true; return true; } if(ov&&ov->hasNoSignedWrap()&&!quiet){ w.obligations++; w.proved++; } r[&I]=wrap(v,w_); }
      else if(auto*c=dyn_cast<ICmpInst>(&I)){ if(!val(I.getOperand(1),b)) return false; u64 ua=(u64)a&m,ub=(u64)b&m; bool t; switch(c->getPredicate()){ case CmpInst::ICMP_EQ: t=ua==ub; break; case CmpInst::ICMP_NE: t=ua!=ub; break; case CmpInst::ICMP_SLT: t=a<b; break; case CmpInst::ICMP_SLE: t=a<=b; break; case CmpInst::ICMP_SGT: t=a>b; break; case CmpInst::ICMP_SGE: t=a>=b; break; case CmpInst::ICMP_ULT: t=ua<ub; break; case CmpInst::ICMP_ULE: t=ua<=ub; break; case CmpInst::ICMP_UGT: t=ua>ub; break; default: t=ua>=ub; } r[&I]=t?-1:0; }
      else if(isa<SelectInst>(I)){ if(!val(I.getOperand(a?1:2),b)) return false; r[&I]=b; } else if(isa<ZExtInst>(I)) r[&I]=(i64)((u64)a&m); else if(isa<SExtInst>(I)||isa<FreezeInst>(I)) r[&I]=a; else if(isa<TruncInst>(I)) r[&I]=wrap(a,w_); else return false; }
    auto*br=dyn_cast<BranchInst>(bb->getTerminator()); if(!br) return false; const BasicBlock*to; if(br->isUnconditional()) to=br->getSuccessor(0); else { i64 c; if(!val(br->getCondition(),c)) return false; to=br->getSuccessor(c?0:1); }
    prev=bb; bb=to; if(!L->contains(to)){ for(auto&x:r){ Type*T=x.first->getType(); if(T->isIntegerTy(1)){ Cond c; (x.second?c.T:c.F)={{}}; F.r[x.first]=Val::B(c); } else F.r[x.first]=Val::I(Poly((i128)x.second)); } if(edge(S,F,prev,to)) run(S,F,to,to->getFirstNonPHI()->getIterator()); return true; } }
  return false; }

void Exec::enterLoop(State S,Frame F,const BasicBlock*from,const BasicBlock*header){
  const Loop*L=F.fi->li.getLoopFor(header); std::vector<const PHINode*> ph; std::vector<Val> init; for(auto&I:*header){ auto*p=dyn_cast<PHINode>(&I); if(!p) break; ph.push_back(p); init.push_back(get(S,F,p->getIncomingValueForBlock(from))); }
  { bool allc=true; for(size_t i=0;i<ph.size();i++) if(ph[i]->getType()->isIntegerTy()){ Val q=init[i].k==Val::BOOL?asInt(S,init[i]):init[i]; if(!(q.k==Val::INT&&S.P.norm(q.p).isConst())) allc=false; }
    if(allc&&fixedN){ bool pure=L->isInnermost(),nl=false; for(auto*B:L->blocks()) for(auto&I:*B){ if(isa<CallBase>(I)&&!(isa<IntrinsicInst>(I)&&cast<IntrinsicInst>(I).isAssumeLikeIntrinsic())) pure=false; if(I.mayReadOrWriteMemory()||(!I.getType()->isIntegerTy()&&!I.getType()->isVoidTy())) pure=false; if(auto*st=dyn_cast<StoreInst>(&I)) if(auto*bo=dyn_cast<BinaryOperator>(st->getValueOperand())) if(ph.empty()&&L->isInnermost()&&(bo->getOpcode()==Instruction::Mul||bo->getOpcode()==Instruction::Shl||bo->getOpcode()==Instruction::SDiv||bo->getOpcode()==Instruction::AShr||bo->getOpcode()==Instruction::LShr||bo->getOpcode()==Instruction::UDiv)) nl=true; if(isa<PHINode>(I)&&B==header){ std::vector<const Value*> q; std::set<const Value*> seen{&I}; for(auto&o:cast<PHINode>(I).operands()) q.push_back(o); while(!q.empty()){ auto*v=dyn_cast<Instruction>(q.back()); q.pop_back(); if(!v||!L->contains(v)||!seen.insert(v).second) continue; if(isa<PHINode>(v)&&v->getParent()==header){ if(v->getType()->isPointerTy()) nl=true; continue; } if(isa<PHINode>(v)||isa<SelectInst>(v)||isa<CastInst>(v)){ if(isa<PHINode>(v)&&L->isInnermost()==false&&L!=F.fi->li.getLoopFor(v->getParent())) continue; for(auto&o:v->operands()) q.push_back(o); continue; } auto*bo=dyn_cast<BinaryOperator>(v); if(bo) switch(bo->getOpcode()){ case Instruction::Mul: case Instruction::Shl: case Instruction::SDiv: case Instruction::UDiv: case Instruction::AShr: case Instruction::LShr: nl=true; default:; } } } }
      if(pure&&concreteLoop(S,F,from,header,L)) return;
      if(nl){ for(size_t i=0;i<ph.size();i++) F.r[ph[i]]=init[i]; std::vector<Back> cur; cur.push_back({S,F,nullptr}); for(int k=0;!cur.empty();k++){ if(k>100||cur.size()>4) unsup("loop does not end"); std::vector<Back> nx; for(auto&b:cur){ State T=b.S; Frame G=b.F; if(b.from) phis(T,G,b.from,header); LoopCtx c{L,false,&nx}; G.loops.push_back(&c); run(T,G,header,header->getFirstNonPHI()->getIterator()); } cur=nx; } return; } } }
  const int markReg=(int)regions.size(); typedef std::pair<int,i64> Key; std::vector<Key> cells; std::set<Key> cellSet; std::set<Key> gone; const size_t np=ph.size();
  auto initVal=[&](size_t i)->Val{ return i<np?init[i]:S.mem[cells[i-np]].v; };
  auto put=[&](State&T,Frame&G,size_t i,const Val&v){ if(i<np) G.r[ph[i]]=v; else T.mem[cells[i-np]]={S.mem[cells[i-np]].size,v}; };
  auto havoc=[&](const Val&v,unsigned bits)->Val{ switch(v.k){ case Val::INT: return freshInt("loop",bits); case Val::PTR: if(v.reg<0) return v; return Val::P(v.reg,Poly::var(w.fresh("off"))); case Val::BOOL: return unknownBool(); default: return v; } };
  auto bitsOf=[&](size_t i)->unsigned{ if(i<np) return ph[i]->getType()->isIntegerTy()?ph[i]->getType()->getIntegerBitWidth():64; return (unsigned)S.mem[cells[i-np]].size*8; };
  auto trialRun=[&](State T,Frame G,int tv=-1)->std::vector<Back>{ std::vector<Back> b; LoopCtx c{L,true,&b,tv}; G.loops.push_back(&c); quiet++; try{ run(T,G,header,header->getFirstNonPHI()->getIterator()); }catch(...){ quiet--; throw; } quiet--; return b; };
  auto realRun=[&](State T,Frame G,int tv=-1){ LoopCtx c{L,false,nullptr,tv}; G.loops.push_back(&c); run(T,G,header,header->getFirstNonPHI()->getIterator()); };
  auto backVal=[&](Back&b,size_t i)->Val{ if(i<np) return get(b.S,b.F,ph[i]->getIncomingValueForBlock(b.from)); auto it=b.S.mem.find(cells[i-np]); if(it==b.S.mem.end()) return Val(); Val v=it->second.v; if(v.k==Val::INT||v.k==Val::PTR) v.p=b.S.P.norm(v.p); return v; };
  std::vector<Back> backs; std::vector<Val> h; int mark=0;
  for(int round=0;;round++){ if(round>6) unsup("loop memory effects do not settle"); State T=S; Frame G=F; mark=(int)w.v.size(); h.clear(); for(auto&k:gone) T.mem.erase(k); T.zero=S.zero; for(size_t i=0;i<np+cells.size();i++){ Val v=havoc(initVal(i),bitsOf(i)); h.push_back(v); put(T,G,i,v); } auto before=T.mem;
    backs=trialRun(T,G); bool more=false; for(auto&b:backs){ for(auto&c:before){ if(c.first.first>=markReg) continue; auto it=b.S.mem.find(c.first); if(it==b.S.mem.end()){ if(gone.insert(c.first).second) more=true; continue; } if(!same(b.S,it->second.v,c.second.v)&&!cellSet.count(c.first)){ cellSet.insert(c.first); cells.push_back(c.first); more=true; } }
      for(auto&c:b.S.mem) if(c.first.first<markReg&&!before.count(c.first)&&!gone.count(c.first)){ gone.insert(c.first); } }
    for(auto&b:backs) for(auto it=S.zero.begin();it!=S.zero.end();){ auto z=b.S.zero.find(it->first); if(z==b.S.zero.end()||z->second!=it->second){ it=S.zero.erase(it); more=true; } else ++it; }
    if(gone.size()){ std::vector<Key> k2; for(auto&k:cells) if(!gone.count(k)) k2.push_back(k); if(k2.size()!=cells.size()){ cells=k2; cellSet=std::set<Key>(k2.begin(),k2.end()); more=true; } }
    if(!more) break; }
  for(auto&k:gone) S.mem.erase(k);
  if(backs.empty()){ State T=S; Frame G=F; for(size_t i=0;i<np;i++) G.r[ph[i]]=init[i]; realRun(T,G); return; }
  const size_t n=np+cells.size(); std::vector<int> ind(n,0); std::vector<Poly> step(n); bool geo=false,halve=false;
  for(size_t i=0;i<n;i++){ Val iv=initVal(i); if(h[i].k==Val::INT||h[i].k==Val::PTR){ bool ok=true,first=true; Poly c; for(auto&b:backs){ Val v=backVal(b,i); if(v.k!=h[i].k||(v.k==Val::PTR&&v.reg!=h[i].reg)){ if(h[i].k==Val::PTR) unsup("pointer changes its object in a loop"); ok=false; break; } if(v.k==Val::PTR&&v.reg<0) continue; Poly d=b.S.P.norm(v.p-h[i].p); for(auto&k:d.t) for(int x:k.first) if(x>=mark) ok=false; if(!ok) break; if(!first&&!(d==c)) ok=false; c=d; first=false; } if(ok){ ind[i]=1; step[i]=c; } }
    else if(h[i].k==Val::BOOL||h[i].k==Val::TOP) ind[i]=2; else { for(auto&b:backs) if(!same(b.S,backVal(b,i),h[i])) unsup("value changes in a loop"); ind[i]=2; } }
  SmallVector<BasicBlock*,8> ex; L->getExitingBlocks(ex); bool simple=ex.size()==1&&ex[0]==header; for(auto&I:*header) if(auto*ov=dyn_cast<OverflowingBinaryOperator>(&I)) if(ov->hasNoSignedWrap()) for(auto&o:I.operands()) if(auto*p=dyn_cast<PHINode>(o)) if(p->getParent()==header) simple=false; for(size_t i=0;i<n;i++) if(!ind[i]) simple=false;
  auto setInd=[&](State&T,Frame&G,int t,bool strict){ for(size_t i=0;i<n;i++){ Val iv=initVal(i); if(ind[i]==1&&!(iv.k==Val::PTR&&iv.reg<0)){ Poly p=T.P.norm(iv.p+step[i]*Poly::var(t)); iv.p=p; put(T,G,i,iv); if(iv.k==Val::INT&&!(step[i].t.empty())){ T.P.assume({p-Poly(lo(bitsOf(i))),GE}); T.P.assume({Poly(hi(bitsOf(i)))-p,GE}); } } else if(ind[i]==2) put(T,G,i,h[i].k==Val::BOOL?unknownBool():h[i]); } };
  if(simple){ State T=S; Frame G=F; int t=w.fresh("t",0,(i128)1<<32); setInd(T,G,t,true); realRun(T,G,t); return; }
  // general: first iteration, then one iteration after an arbitrary earlier one
  { State T=S; Frame G=F; for(size_t i=0;i<n;i++) put(T,G,i,initVal(i)); realRun(T,G); }
  struct Cand{ size_t i; int kind; Poly b; }; std::vector<Cand> cand;   // 0: v >= b, 1: v <= b
  for(size_t i=0;i<n;i++) if(!ind[i]&&h[i].k==Val::INT){ Val iv=initVal(i); cand.push_back({i,0,iv.p}); cand.push_back({i,1,iv.p}); if(prove(S,{iv.p-Poly(1),GE})) cand.push_back({i,0,Poly(1)}); if(prove(S,{iv.p,GE})) cand.push_back({i,0,Poly(0)});
    i128 mn=INF,mx=-INF; for(auto&b:backs){ Val v=backVal(b,i); if(v.k!=Val::INT){ mn=-INF; mx=INF; break; } auto r=b.S.P.range(v.p); mn=std::min(mn,r.first); mx=std::max(mx,r.second); } if(mx<INF&&prove(S,{Poly(mx)-iv.p,GE})) cand.push_back({i,1,Poly(mx)}); if(mn>-INF&&mn!=0&&mn!=1&&prove(S,{iv.p-Poly(mn),GE})) cand.push_back({i,0,Poly(mn)}); }
  bool open=false; for(size_t i=0;i<n;i++) if(!ind[i]&&h[i].k==Val::INT) open=true;
  if(open){ std::vector<Poly> lim; for(auto*B:L->blocks()) for(auto&I:*B) if(auto*c=dyn_cast<ICmpInst>(&I)) for(int o=0;o<2&&lim.size()<8;o++){ auto*v=c->getOperand(o); if(!v->getType()->isIntegerTy()||isa<ConstantInt>(v)||L->contains(dyn_cast<Instruction>(v)?cast<Instruction>(v)->getParent():nullptr)) continue; auto it=F.r.find(v); if(it==F.r.end()||it->second.k!=Val::INT) continue; Poly p=S.P.norm(it->second.p); bool dup=false; for(auto&q:lim) if(q==p) dup=true; if(!dup) lim.push_back(p); }
    for(size_t i=0;i<n;i++) if(!ind[i]&&h[i].k==Val::INT) for(auto&p:lim) for(int d=0;d<2;d++) if(prove(S,{p-Poly(d)-initVal(i).p,GE})) cand.push_back({i,1,p-Poly(d)}); }
  auto atomOf=[&](const Cand&c,const Poly&v)->Atom{ return c.kind?Atom{c.b-v,GE}:Atom{v-c.b,GE}; };
  std::vector<Back> b2; int tlast=-1; for(int round=0;;round++){ if(round>8) unsup("loop invariants do not settle"); State T=S; Frame G=F; int t=w.fresh("t",0,(geo||halve)?31:(i128)1<<32); setInd(T,G,t,false); std::vector<Val> hv(n); for(size_t i=0;i<n;i++) if(!ind[i]){ hv[i]=havoc(initVal(i),bitsOf(i)); put(T,G,i,hv[i]); } for(auto&c:cand) T.P.assume(atomOf(c,hv[c.i].p)); b2=trialRun(T,G,t); tlast=t;
    std::vector<Cand> keep; for(auto&c:cand){ bool ok=true; for(auto&b:b2){ Val v=backVal(b,c.i); if(v.k!=Val::INT||!prove(b.S,atomOf(c,v.p))){ ok=false; break; } } if(ok) keep.push_back(c); }
    bool g2=false; for(size_t i=0;i<n&&!g2;i++) if(!ind[i]&&h[i].k==Val::INT){ bool dbl=!b2.empty(),hlv=!b2.empty(),pos=false; for(auto&c:keep) if(c.i==i&&c.kind==0&&c.b.isConst()&&c.b.c()>=1) pos=true; for(auto&b:b2){ Val v=backVal(b,i); if(v.k!=Val::INT){ dbl=hlv=false; break; } Poly hp=b.S.P.norm(hv[i].p); if(!(b.S.P.norm(v.p-hp*Poly(2)).t.empty())) dbl=false; if(!prove(b.S,{hp-Poly(1),GE})||!prove(b.S,{hp-v.p*Poly(2),GE})||!prove(b.S,{v.p,GE})) hlv=false; } if((dbl&&pos)||hlv) g2=true; }
    bool again=keep.size()!=cand.size()||(g2&&!geo); cand=keep; if(g2) geo=true; if(!again) break; }
  for(auto&b:b2){ State T=b.S; Frame G=b.F; std::vector<Val> v(n); for(size_t i=0;i<n;i++) v[i]=backVal(b,i); for(size_t i=0;i<n;i++) if(v[i].k!=Val::TOP||i<np) put(T,G,i,v[i]); realRun(T,G,tlast); } }

std::vector<Out> Exec::merge(const State&pre,std::vector<Out> o,size_t nreg){
  for(auto&x:o) for(auto it=x.S.mem.begin();it!=x.S.mem.end();) if(it->first.first>=(int)nreg&&regions[it->first.first].name=="stack") it=x.S.mem.erase(it); else ++it;
  for(auto&x:o) for(auto it=x.S.zero.begin();it!=x.S.zero.end();) if(it->first.first>=(int)nreg&&regions[it->first.first].name=="stack") it=x.S.zero.erase(it); else ++it;
  if(o.size()<2) return o; std::vector<std::vector<size_t>> gs; for(size_t i=0;i<o.size();i++){ bool put=false; for(auto&g:gs){ auto&a=o[g[0]],&b=o[i]; if(!same(pre,a.ret,b.ret)||a.S.mem.size()!=b.S.mem.size()||a.S.zero!=b.S.zero) continue; bool eq=true; auto x=a.S.mem.begin(),y=b.S.mem.begin(); for(;x!=a.S.mem.end();++x,++y) if(x->first!=y->first||x->second.size!=y->second.size||!same(pre,x->second.v,y->second.v)){ eq=false; break; } if(eq){ g.push_back(i); put=true; break; } } if(!put) gs.push_back({i}); }
  std::vector<Out> r; for(auto&g:gs){ if(g.size()==1) r.push_back(o[g[0]]); else { Out x; x.S=pre; x.S.mem=o[g[0]].S.mem; x.S.zero=o[g[0]].S.zero; x.ret=o[g[0]].ret; r.push_back(x); } } return r; }

// ---- contracts of recursive functions
static std::vector<unsigned> intParams(const Function*F){ std::vector<unsigned> r; for(auto&a:F->args()) if(a.getType()->isIntegerTy()&&a.getType()->getIntegerBitWidth()>=32) r.push_back(a.getArgNo()); return r; }
static std::vector<unsigned> ptrParams(const Function*F){ std::vector<unsigned> r; for(auto&a:F->args()) if(a.getType()->isPointerTy()) r.push_back(a.getArgNo()); return r; }
struct CallSite { State&S; std::vector<Val>&a; };
static bool holds(Exec&X,State&S,std::vector<Val>&a,const Tmpl&t){
  if(t.kind==3){ auto&p=a[t.p]; if(p.k!=Val::PTR||p.reg<0) return false; if(a[t.i].k!=Val::INT||a[t.j].k!=Val::INT) return false; return X.prove(S,{X.regions[p.reg].size-p.p-a[t.i].p*a[t.j].p*Poly(16)-Poly(t.c),GE}); }
  const Val&x=a[t.i]; if(x.k!=Val::INT) return false; switch(t.kind){ case 0: return X.prove(S,{x.p-Poly(t.c),GE}); case 1: return X.prove(S,{Poly(t.c)-x.p,GE}); case 2: return a[t.j].k==Val::INT&&X.prove(S,{Poly(t.c)-x.p*a[t.j].p,GE});
    case 4: { Poly p=S.P.norm(x.p),q=S.P.norm(a[t.j].p); auto even=[&](const Poly&z){ for(auto&k:z.t) if(k.second%2!=0) return false; return true; }; if(q==Poly(1)||even(q)||even(p+Poly(1))) return true; State T=S; int v=X.w.fresh("half"); T.P.assume({p-Poly::var(v)*Poly(2),EQ}); if(T.P.dead||T.P.solve({},2)==1) return true; if(T.P.solve({{p-Poly::var(v)*Poly(2),EQ}},2)==1) return true; State U=S; int u=X.w.fresh("half"); U.P.assume({q-Poly::var(u)*Poly(2)-Poly(1),EQ}); if(U.P.dead) return true; return false; } }
  return false; }
void Exec::applyContract(State&S,const Function*F,std::vector<Val>&args,const Instruction&I){
  for(auto&a:args) if(a.k==Val::INT||a.k==Val::PTR) a.p=S.P.norm(a.p);
  auto it=contracts.find(F); auto ip=intParams(F),pp=ptrParams(F);
  // every template is a chain from strong to weak; the strongest member that holds at every call is kept
  auto level=[&](int kind,int lv,i128&c)->bool{ static const std::vector<i128> L0={1,0},L1={46340,65535,(i128)1<<28,(i128)1<<29,(i128)1<<30},L2={(i128)1<<28,(i128)1<<29,(i128)1<<30},L3={16,0},L4={0}; const std::vector<i128>&L=kind==0?L0:kind==1?L1:kind==2?L2:kind==3?L3:L4; if(lv>=(int)L.size()) return false; c=L[lv]; return true; };
  if(it==contracts.end()){ Contract C; C.F=F; for(unsigned i:ip){ C.cand.push_back({0,(int)i,0,0,0}); C.cand.push_back({1,(int)i,0,0,0}); for(unsigned j:ip){ if(i<j) C.cand.push_back({2,(int)i,(int)j,0,0}); if(i!=j&&args[j].k==Val::INT&&args[j].p==Poly(1)) C.cand.push_back({4,(int)i,(int)j,0,0}); if(i<j) for(unsigned p:pp) C.cand.push_back({3,(int)i,(int)j,(int)p,0}); } } contracts[F]=C; it=contracts.find(F); dropped=true; }
  Contract&C=it->second; std::vector<Tmpl> k; for(auto t:C.cand){ while(true){ if(!level(t.kind,t.lv,t.c)) break; if(holds(*this,S,args,t)){ k.push_back(t); break; } if(getenv("SZX_V")) fprintf(stderr,"drop %s (%d: %d %d %d %s) at %s\n",demangle(F->getName().str()).substr(0,60).c_str(),t.kind,t.i,t.j,t.p,s128(t.c).c_str(),where(I).substr(0,300).c_str()); t.lv++; dropped=true; } } C.cand=k; }
void Exec::analyze(const Function*F){ Contract C=contracts[F]; State S; S.P.w=&w; std::vector<Val> args; for(auto&a:F->args()){ Type*T=a.getType(); if(T->isPointerTy()){ int v=w.fresh("avail",0,(i128)1<<40); args.push_back(Val::P(newRegion(Poly::var(v),false,"param"),Poly())); } else args.push_back(freshOf(T,"param")); }
  for(auto&t:C.cand){ if(t.kind==0){ int v=args[t.i].p.t.begin()->first[0]; w.v[v].lo=std::max(w.v[v].lo,t.c); } if(t.kind==1){ int v=args[t.i].p.t.begin()->first[0]; w.v[v].hi=std::min(w.v[v].hi,t.c); } } 
  for(auto&t:C.cand) if(t.kind==2) S.P.assume({Poly(t.c)-args[t.i].p*args[t.j].p,GE}); for(auto&v:C.cand) if(v.kind==3) S.P.assume({regions[args[v.p].reg].size-args[v.i].p*args[v.j].p*Poly(16)-Poly(v.c),GE});
  auto saved=sizeExprs; sizeExprs.clear(); for(auto&v:C.cand) if(v.kind==3) sizeExprs.push_back(args[v.i].p*args[v.j].p); if(sizeExprs.size()>1) sizeExprs.resize(1); for(auto&a:F->args()) if(a.getType()->isIntegerTy(32)) sizeExprs.push_back(args[a.getArgNo()].p);
  std::vector<std::vector<Atom>> cases={{}}; for(auto&t:C.cand) if(t.kind==4){ std::vector<std::vector<Atom>> nc; for(auto&c:cases){ auto x=c; x.push_back({args[t.j].p-Poly(1),EQ}); nc.push_back(x); x=c; x.push_back({args[t.j].p-Poly::var(w.fresh("half",0,(i128)1<<31))*Poly(2),EQ}); nc.push_back(x); x=c; x.push_back({args[t.i].p-Poly::var(w.fresh("half",0,(i128)1<<31))*Poly(2)-Poly(1),EQ}); nc.push_back(x); } cases=nc; }
  for(auto&c:cases){ State T=S; for(auto&a:c) T.P.assume(a); if(T.P.dead) continue; std::vector<Out> outs; Frame G; G.F=F; G.fi=info(F); G.outs=&outs; for(auto&a:F->args()) G.r[&a]=args[a.getArgNo()]; funcs.insert(F->getName().str()); depth++; size_t nreg=regions.size(); auto base=T.mem; run(T,G,&F->getEntryBlock(),F->getEntryBlock().begin()); depth--; outs=merge(T,outs,nreg); for(auto&o:outs) for(auto&m:o.S.mem) if(!base.count(m.first)&&!(regions[m.first.first].g)) unsup("recursive function changes memory"); }
  sizeExprs=saved; }

std::vector<Out> Exec::call(State S,const Function*F,std::vector<Val> args,const Instruction&I){
  if(depth>80) unsup("call depth"); bool cargs=true; for(auto&x:args) if(x.k==Val::INT){ x.p=S.P.norm(x.p); if(!x.p.isConst()) cargs=false; } if(recursive.count(F)&&cargs&&fixedN){ // the outcome depends only on the integers and on the arrays' sizes, offsets and identities: decided once, under no path condition
    std::string key; bool ok=true; for(size_t i=0;i<args.size();i++){ auto&x=args[i]; if(x.k==Val::INT) key+=x.p.str()+";"; else if(x.k==Val::BOOL){ if(x.c->F.empty()) key+="T;"; else if(x.c->T.empty()) key+="F;"; else ok=false; } else if(x.k==Val::PTR&&x.reg>=0&&!regions[x.reg].tracked&&!regions[x.reg].kernel){ x.p=S.P.norm(x.p); Poly sz=S.P.norm(regions[x.reg].size); if(!x.p.isConst()||!sz.isConst()) ok=false; size_t j=0; while(args[j].reg!=x.reg) j++; key+=std::to_string(j)+","+x.p.str()+","+sz.str()+";"; } else ok=false; }
    if(ok){ auto&m=memo[F]; if(!quiet&&!m.count(key)){ State T; T.P.w=&w; funcs.insert(F->getName().str()); std::vector<Out> outs; Frame G; G.F=F; G.fi=info(F); G.outs=&outs; for(auto&a:F->args()) if(a.getArgNo()<args.size()) G.r[&a]=args[a.getArgNo()]; size_t nreg=regions.size(); depth++; try{ run(T,G,&F->getEntryBlock(),F->getEntryBlock().begin()); }catch(...){ depth--; throw; } depth--; outs=merge(T,outs,nreg); for(auto&o:outs) for(auto&mm:o.S.mem) if(!regions[mm.first.first].g&&mm.first.first<(int)nreg) unsup("recursive function changes memory"); if(outs.empty()&&viols.empty()) unsup("recursive function does not return"); m.insert(key); }
      std::vector<Out> r; r.push_back({S,Val()}); return r; } }
  if(recursive.count(F)&&!cargs){ applyContract(S,F,args,I); std::vector<Out> r; r.push_back({S,Val()}); return r; }
  funcs.insert(F->getName().str()); std::vector<Out> outs; Frame G; G.F=F; G.fi=info(F); G.outs=&outs; for(auto&a:F->args()){ if(a.getArgNo()<args.size()) G.r[&a]=args[a.getArgNo()]; } size_t nreg=regions.size(); depth++; try{ run(S,G,&F->getEntryBlock(),F->getEntryBlock().begin()); }catch(...){ depth--; throw; } depth--; size_t no=outs.size(); auto mg=merge(S,outs,nreg); static bool vb=getenv("SZX_P"); if(vb&&no>1) fprintf(stderr,"%*s%s: %zu outcomes, %zu merged\n",depth,"",demangle(F->getName().str()).c_str(),no,mg.size()); return mg; }

std::vector<Out> Exec::external(State S,const Function*F,const Val&callee,std::vector<Val>&a,const CallBase&I){
  std::string n=F?F->getName().str():""; std::vector<Out> r; auto one=[&](Val v){ r.push_back({S,v}); return r; };
  if(!F&&callee.slot>=0){ // virtual call of a kernel object: setup2(log n), transforms over n elements
    std::string slot; for(auto*g:mixedVt) if(auto*st=dyn_cast<ConstantStruct>(g->getInitializer())) if(auto*arr=dyn_cast<ConstantArray>(st->getOperand(0))) if(callee.slot+2<(int)arr->getNumOperands()) if(auto*f=dyn_cast<Function>(arr->getOperand(callee.slot+2)->stripPointerCasts())) slot=demangle(f->getName().str());
    size_t p=slot.rfind("::"); std::string m=p==std::string::npos?slot:slot.substr(p+2); int k=a[0].reg;
    if(m.substr(0,7)=="setup2("){ Val v=shl1(S,a[1].p); oblige(S,{a[1].p,GE},"shift out of range",I); oblige(S,{Poly(30)-a[1].p,GE},"shift out of range",I); S.mem[{k,8}]={8,v}; return one(Val()); } if(m.substr(0,6)=="setup("){ S.mem[{k,8}]={8,a[1]}; return one(Val()); } if(m.substr(0,1)=="~") return one(Val());
    auto it=S.mem.find({k,8}); if(it==S.mem.end()) unsup("kernel used before its setup"); Poly len=S.P.norm(it->second.v.p)*Poly(16); for(size_t i=1;i<a.size();i++) access(S,a[i],0,I,&len); return one(Val()); }
  if(!F) unsup("indirect call");
  if(F->isIntrinsic()){ auto id=F->getIntrinsicID(); if((id==Intrinsic::ctlz||id==Intrinsic::cttz||id==Intrinsic::ctpop)&&F->getReturnType()->isIntegerTy()){ unsigned wb=F->getReturnType()->getIntegerBitWidth(); Val x=a[0]; if(x.k==Val::INT){ Poly p=S.P.norm(x.p); if(p.isConst()&&wb<=64){ u64 v=(u64)(i64)p.c(); if(wb<64) v&=(1ull<<wb)-1; int r=id==Intrinsic::ctpop?__builtin_popcountll(v):!v?(int)wb:id==Intrinsic::ctlz?__builtin_clzll(v)-(64-(int)wb):__builtin_ctzll(v); return one(Val::I(Poly(r))); } } return one(Val::I(Poly::var(w.fresh("bits",0,(i128)wb)))); }
    if((id==Intrinsic::smax||id==Intrinsic::smin||id==Intrinsic::abs)&&F->getReturnType()->isIntegerTy()&&a[0].k==Val::INT&&(id==Intrinsic::abs||a[1].k==Val::INT)){ Poly x=S.P.norm(a[0].p),y=id==Intrinsic::abs?-x:S.P.norm(a[1].p); bool mx=id!=Intrinsic::smin; if(prove(S,{x-y,GE})) return one(Val::I(mx?x:y)); if(prove(S,{y-x,GE})) return one(Val::I(mx?y:x)); Poly v=Poly::var(w.fresh("mm")); S.P.assume({mx?v-x:x-v,GE}); S.P.assume({mx?v-y:y-v,GE}); return one(Val::I(v)); }
    if(id==Intrinsic::memcpy||id==Intrinsic::memmove||id==Intrinsic::memset){ Val len=a[2]; if(len.k!=Val::INT) len=freshInt("len",64); Poly L=S.P.norm(len.p); access(S,a[0],0,I,&L); if(id!=Intrinsic::memset) access(S,a[1],0,I,&L); if(S.P.dead) return r;
      int d=a[0].reg; Poly od=S.P.norm(a[0].p); if(regions[d].tracked){ if(!L.isConst()||!od.isConst()){ killAll(S,d); return one(Val()); } std::vector<std::pair<i64,Cell>> cp; if(id!=Intrinsic::memset){ int s=a[1].reg; Poly os=S.P.norm(a[1].p); if(os.isConst()&&s>=0){ for(auto it=S.mem.lower_bound({s,(i64)os.c()});it!=S.mem.end()&&it->first.first==s&&it->first.second+(i64)it->second.size<=(i64)(os.c()+L.c());++it) cp.push_back({it->first.second-(i64)os.c(),it->second}); } }
        kill(S,d,(i64)od.c(),(u64)L.c()); for(auto&c:cp) S.mem[{d,(i64)od.c()+c.first}]=c.second; if(id==Intrinsic::memset&&a[1].k==Val::INT&&a[1].p.isConst()&&a[1].p.c()==0) S.zero[{d,(i64)od.c()}]=(i64)(od.c()+L.c()); } return one(Val()); }
    return one(freshOf(F->getReturnType(),"intr")); }
  if(n=="posix_memalign"){ if(a[2].k!=Val::INT) unsup("allocation of unknown size"); int g=newRegion(a[2].p,false,"heap"); storeTo(S,a[0],Val::P(g,Poly()),PointerType::get(M.getContext(),0),I); return one(Val::I(Poly(0))); }
  if(n=="malloc"||n=="_Znwm"||n=="_Znam"||n=="aligned_alloc"||n=="_mm_malloc"){ Val sz=a[n=="aligned_alloc"?1:0]; if(sz.k!=Val::INT) unsup("allocation of unknown size"); Poly p=S.P.norm(sz.p); return one(Val::P(newRegion(p,p.isConst()&&p.c()<=65536,"heap"),Poly())); }
  if(n=="calloc"){ if(a[0].k!=Val::INT||a[1].k!=Val::INT) unsup("allocation of unknown size"); return one(Val::P(newRegion(S.P.norm(a[0].p*a[1].p),false,"heap"),Poly())); }
  if(n.substr(0,6)=="_ZdlPv"||n.substr(0,6)=="_ZdaPv"||n=="free") return one(Val());
  if(n=="__cxa_throw"||n=="__cxa_rethrow"||n=="_ZSt9terminatev"||n=="abort"||n=="__cxa_pure_virtual"||n.substr(0,8)=="_ZSt20__") return r;
  if(n=="__cxa_guard_acquire") return one(Val::I(Poly(1))); if(n=="__cxa_guard_release"||n=="__cxa_guard_abort"||n=="__cxa_atexit"||n=="__cxa_begin_catch"||n=="__cxa_end_catch") return one(freshOf(F->getReturnType(),"abi"));
  if(n=="__kmpc_fork_call"){ const Function*m=a[2].f; if(!m||m->isDeclaration()) unsup("parallel region"); int g=newRegion(Poly(4),true,"stack"); std::vector<Val> b={Val::P(g,Poly()),Val::P(g,Poly())}; for(size_t i=3;i<a.size();i++) b.push_back(a[i]); return call(S,m,b,I); }
  if(n=="__kmpc_for_static_init_4"||n=="__kmpc_for_static_init_4u"||n=="__kmpc_for_static_init_8"||n=="__kmpc_for_static_init_8u"){ unsigned bits=n.find("_8")!=std::string::npos?64:32; Type*T=IntegerType::get(M.getContext(),bits); Type*T4=IntegerType::get(M.getContext(),32); Val l=load(S,a[4],T,I),u=load(S,a[5],T,I); Val l2=freshInt("lower",bits),u2=freshInt("upper",bits); S.P.assume({l2.p-l.p,GE}); S.P.assume({u.p-u2.p,GE}); if(prove(S,{u.p-l.p,GE})){ S.P.assume({u2.p-l.p,GE}); S.P.assume({u.p+Poly(1)-l2.p,GE}); } storeTo(S,a[4],l2,T,I); storeTo(S,a[5],u2,T,I); storeTo(S,a[6],freshInt("stride",bits),T,I); storeTo(S,a[3],freshInt("last",32),T4,I); return one(Val()); }
  if(n.substr(0,6)=="__kmpc"){ if(n=="__kmpc_single"||n=="__kmpc_master"||n=="__kmpc_masked") return one(Val::I(Poly(1))); if(n.find("dispatch")!=std::string::npos||n.find("task")!=std::string::npos||n.find("reduce")!=std::string::npos) unsup("OpenMP construct "+n); return one(freshOf(F->getReturnType(),"omp")); }
  if(n.find("8instance")!=std::string::npos&&F->hasParamAttribute(0,Attribute::StructRet)){ int g=newRegion(Poly(4096),false,"kernel"); regions[g].kernel=true; storeTo(S,a[0],Val::P(g,Poly()),PointerType::get(M.getContext(),0),I); return one(Val()); }
  if(n=="_ZNSt6thread20hardware_concurrencyEv") return one(Val::I(Poly(8)));
  for(auto&v:a) if(v.k==Val::PTR&&v.reg>=0&&regions[v.reg].tracked) killAll(S,v.reg);
  if(F->getReturnType()->isPointerTy()) return one(Val()); return one(freshOf(F->getReturnType(),n)); }

void Exec::run(State S,Frame F,const BasicBlock*bb,BasicBlock::const_iterator it){
  while(true){ if(S.P.dead) return; tick(); const Instruction&I=*it; Type*T=I.getType();
    auto go=[&](State X,const BasicBlock*to){ Frame G=F; if(edge(X,G,bb,to)) run(X,G,to,to->getFirstNonPHI()->getIterator()); };
    switch(I.getOpcode()){
    case Instruction::Ret: { for(auto*l:F.loops) if(l->trial) return; paths++; Val v; if(I.getNumOperands()) v=get(S,F,I.getOperand(0)); F.outs->push_back({S,v}); if(F.outs->size()>400) unsup("too many paths in "+demangle(F.F->getName().str())); return; }
    case Instruction::Unreachable: case Instruction::Resume: return;
    case Instruction::Br: { auto&b=cast<BranchInst>(I); if(b.isUnconditional()){ auto*to=b.getSuccessor(0); if(!edge(S,F,bb,to)) return; bb=to; it=to->getFirstNonPHI()->getIterator(); continue; }
      Cond c=asCond(S,get(S,F,b.getCondition())); auto*s0=b.getSuccessor(0),*s1=b.getSuccessor(1); if(!F.loops.empty()&&F.loops.back()->tvar>=0&&F.loops.back()->L->getHeader()==bb){ auto*L=F.loops.back()->L; if(L->contains(s0)&&!L->contains(s1)) untilEqual(S,c.T,F.loops.back()->tvar); else if(L->contains(s1)&&!L->contains(s0)) untilEqual(S,c.F,F.loops.back()->tvar); } alternatives(S,c.T,[&](State&X){ go(X,s0); }); alternatives(S,c.F,[&](State&X){ go(X,s1); }); return; }
    case Instruction::Switch: { auto&sw=cast<SwitchInst>(I); Val v=asInt(S,get(S,F,sw.getCondition())); if(v.k!=Val::INT) v=freshInt("switch",32); std::vector<Atom> def; std::map<const BasicBlock*,Dnf> by; for(auto&c:sw.cases()){ Poly d=S.P.norm(v.p-Poly((i128)c.getCaseValue()->getSExtValue())); by[c.getCaseSuccessor()].push_back({{d,EQ}}); def.push_back({d,NE}); }
      for(auto&c:sw.cases()){ auto x=by.find(c.getCaseSuccessor()); if(x==by.end()) continue; Dnf d=x->second; by.erase(x); alternatives(S,d,[&](State&X){ go(X,c.getCaseSuccessor()); }); } alternatives(S,{def},[&](State&X){ go(X,sw.getDefaultDest()); }); return; }
    case Instruction::Alloca: { auto&al=cast<AllocaInst>(I); Val n=asInt(S,get(S,F,al.getArraySize())); Poly sz=n.p*Poly((i128)DL.getTypeAllocSize(al.getAllocatedType())); int g=newRegion(sz,true,"stack"); F.r[&I]=Val::P(g,Poly()); break; }
    case Instruction::Load: { Val p=get(S,F,I.getOperand(0)); Val v=load(S,p,T,I); if(S.P.dead) return; F.r[&I]=v; break; }
    case Instruction::Store: { Val v=get(S,F,I.getOperand(0)),p=get(S,F,I.getOperand(1)); storeTo(S,p,v,I.getOperand(0)->getType(),I); break; }
    case Instruction::GetElementPtr: { if(!T->isPointerTy()){ F.r[&I]=Val(); break; } auto*g=cast<GEPOperator>(&I); Val b=get(S,F,g->getPointerOperand()); if(b.k!=Val::PTR){ F.r[&I]=Val(); break; } Poly off=b.p; for(auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi){ const Value*ix=gi.getOperand(); if(auto*st=gi.getStructTypeOrNull()) off=off+Poly((i128)DL.getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue())); else { Val x=asInt(S,get(S,F,ix)); if(x.k!=Val::INT) x=freshInt("index",64); off=off+x.p*Poly((i128)DL.getTypeAllocSize(gi.getIndexedType())); } } b.p=S.P.norm(off); F.r[&I]=b; break; }
    case Instruction::ICmp: { if(!T->isIntegerTy(1)){ F.r[&I]=Val(); break; } Val a=get(S,F,I.getOperand(0)),b=get(S,F,I.getOperand(1)); Type*o=I.getOperand(0)->getType(); F.r[&I]=Val::B(cmp(cast<ICmpInst>(I).getPredicate(),a,b,S,o->isIntegerTy()?o->getIntegerBitWidth():64)); break; }
    case Instruction::FCmp: F.r[&I]=T->isIntegerTy(1)?unknownBool():Val(); break;
    case Instruction::Select: { Val c=get(S,F,I.getOperand(0)); if(!I.getOperand(0)->getType()->isIntegerTy(1)){ F.r[&I]=Val(); break; } Val a=get(S,F,I.getOperand(1)),b=get(S,F,I.getOperand(2)); Cond k=asCond(S,c); if(k.F.empty()){ F.r[&I]=a; break; } if(k.T.empty()){ F.r[&I]=b; break; }
      if(a.k==Val::BOOL&&b.k==Val::BOOL){ F.r[&I]=Val::B(cOr(cAnd(k,*a.c),cAnd(cNot(k),*b.c))); break; } if(same(S,a,b)){ F.r[&I]=a; break; } auto nx=std::next(it); alternatives(S,k.T,[&](State&X){ Frame G=F; G.r[&I]=a; run(X,G,bb,nx); }); alternatives(S,k.F,[&](State&X){ Frame G=F; G.r[&I]=b; run(X,G,bb,nx); }); return; }
    case Instruction::Trunc: { Val v=get(S,F,I.getOperand(0)); if(!T->isIntegerTy()){ F.r[&I]=Val(); break; } if(v.k==Val::BOOL){ F.r[&I]=v; break; } unsigned b=T->getIntegerBitWidth(); if(v.k!=Val::INT){ F.r[&I]=freshOf(T,"trunc"); break; } if(b==1){ if(v.p.isConst()){ Cond c; ((v.p.c()&1)?c.T:c.F)={{}}; F.r[&I]=Val::B(c); } else F.r[&I]=unknownBool(); break; } F.r[&I]=fits(S,v.p,b)?v:freshInt("trunc",b); break; }
    case Instruction::ZExt: { Val v=get(S,F,I.getOperand(0)); if(!T->isIntegerTy()){ F.r[&I]=Val(); break; } if(v.k==Val::BOOL){ F.r[&I]=v; break; } unsigned b=I.getOperand(0)->getType()->getIntegerBitWidth(); if(v.k==Val::INT&&prove(S,{v.p,GE})) F.r[&I]=v; else F.r[&I]=Val::I(Poly::var(w.fresh("zext",0,((i128)1<<b)-1))); break; }
    case Instruction::SExt: { Val v=get(S,F,I.getOperand(0)); if(!T->isIntegerTy()){ F.r[&I]=Val(); break; } F.r[&I]=v.k==Val::INT?v:freshOf(T,"sext"); break; }
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: { Val v=get(S,F,I.getOperand(0)); bool pi=T->isIntegerTy()!=I.getOperand(0)->getType()->isIntegerTy(); F.r[&I]=pi?freshOf(T,"cast"):v; break; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::SDiv: case Instruction::UDiv: case Instruction::SRem: case Instruction::URem: case Instruction::Shl: case Instruction::AShr: case Instruction::LShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: F.r[&I]=T->isIntegerTy()?arith(S,I,get(S,F,I.getOperand(0)),get(S,F,I.getOperand(1))):Val(); break;
    case Instruction::ExtractValue: { Val v=get(S,F,I.getOperand(0)); for(unsigned x:cast<ExtractValueInst>(I).indices()){ if(v.k==Val::AGG&&x<v.agg.size()){ Val t=v.agg[x]; v=t; } else { v=Val(); break; } } if(v.k==Val::TOP) v=freshOf(T,"ev"); F.r[&I]=v; break; }
    case Instruction::InsertValue: { auto&iv=cast<InsertValueInst>(I); Val v=get(S,F,I.getOperand(0)),e=get(S,F,I.getOperand(1)); if(iv.getNumIndices()!=1||!T->isStructTy()){ F.r[&I]=Val(); break; } if(v.k!=Val::AGG){ v=Val(); v.k=Val::AGG; v.agg.resize(T->getStructNumElements()); } v.agg[iv.getIndices()[0]]=e; F.r[&I]=v; break; }
    case Instruction::Call: case Instruction::Invoke: { auto&cb=cast<CallBase>(I); std::vector<Out> outs; const Function*fn=nullptr; Val cv; std::vector<Val> args;
      const BasicBlock*nbb=bb; if(auto*iv=dyn_cast<InvokeInst>(&I)) nbb=iv->getNormalDest();
      if(cb.isInlineAsm()){ Val v; if(auto*st=dyn_cast<StructType>(T)){ v.k=Val::AGG; for(unsigned i=0;i<st->getNumElements();i++) v.agg.push_back(st->getElementType(i)->isIntegerTy()?Val::I(Poly(0x7fffffff)):Val()); } else v=freshOf(T,"asm"); outs.push_back({S,v}); }
      else { auto*dbg=dyn_cast<IntrinsicInst>(&I); if(dbg&&(dbg->isLifetimeStartOrEnd()||isa<DbgInfoIntrinsic>(dbg)||dbg->isAssumeLikeIntrinsic())){ if(!T->isVoidTy()) F.r[&I]=freshOf(T,"i"); break; }
        fn=dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts()); if(!fn){ cv=get(S,F,cb.getCalledOperand()); if(cv.k==Val::PTR&&cv.reg<0){ if(!quiet) violation(S,nullptr,"null call","",I); return; } if(cv.k!=Val::FN) unsup("indirect call: "+where(I)); fn=cv.f; }
        for(auto&x:cb.args()) args.push_back(x->getType()->isMetadataTy()?Val():get(S,F,x));
        if(fn&&!fn->isDeclaration()) outs=call(S,fn,args,I); else outs=external(S,fn,cv,args,cb); }
      bool inv=isa<InvokeInst>(I); for(size_t i=0;i<outs.size();i++){ auto&o=outs[i]; bool last=i+1==outs.size(); if(inv){ Frame G=F; if(!T->isVoidTy()) G.r[&I]=o.ret; State X=o.S; if(edge(X,G,bb,nbb)) run(X,G,nbb,nbb->getFirstNonPHI()->getIterator()); }
        else if(!last){ Frame G=F; if(!T->isVoidTy()) G.r[&I]=o.ret; run(o.S,G,bb,std::next(it)); } else { if(!T->isVoidTy()) F.r[&I]=o.ret; S=o.S; } }
      if(inv||outs.empty()) return; break; }
    default: if(T->isVoidTy()) break; F.r[&I]=freshOf(T,"op"); if(T->isPointerTy()) F.r[&I]=Val(); break; }
    ++it; } }

static std::string esc(const std::string&x){ std::string o; for(unsigned char c:x){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32) o+=' '; else o+=c; } return o; }
// job: size kind= opt= max=
static std::string runJob(const std::string&bc,const std::string&line,double limit){
  std::map<std::string,std::string> a; std::istringstream is(line); std::string tok; std::string cmd; is>>cmd; while(is>>tok){ auto e=tok.find('='); if(e!=std::string::npos) a[tok.substr(0,e)]=tok.substr(e+1); }
  int tw=atoi(a["twin"].c_str()); int kind=atoi(a["kind"].c_str()),opt=atoi(a["opt"].c_str()); i128 mx=(i128)atoll(a.count("max")?a["max"].c_str():"1073741824"); double t0=now();
  static LLVMContext C; static std::unique_ptr<Module> M; if(!M){ auto b=MemoryBuffer::getFile(bc); auto m=parseBitcodeFile((*b)->getMemBufferRef(),C); if(!m) return "{\"status\":\"error\",\"msg\":\"bitcode\"}"; M=std::move(*m); }
  Exec X(*M); X.w.deadline=now()+limit; std::string msg,status="ok"; 
  auto fn=[&](const char*n){ auto*f=M->getFunction(n); if(!f) unsup(std::string("no function ")+n); return f; };
  auto root=[&](){ State S; S.P.w=&X.w; bool evenOnly=kind==1||kind==2; Poly n; X.w.v.clear(); X.regions.clear(); X.greg.clear(); X.kvt=-1; X.w.cache.clear(); if(evenOnly) n=Poly::var(X.w.fresh("half",1,mx/2))*Poly(2); else n=Poly::var(X.w.fresh("n",1,mx)); if(a.count("n")){ n=Poly((i128)atoll(a["n"].c_str())); X.fixedN=n.c(); } X.sizeExprs={n};
    int h=X.newRegion(Poly(64),true,"handle"), x=X.newRegion((n-Poly(tw==1))*Poly(16),false,"x"), y=X.newRegion((n-Poly(tw==1))*Poly(8),false,"y"); Val H=Val::P(h,Poly()),VX=Val::P(x,Poly()),VY=Val::P(y,Poly()); const Instruction&I=*fn("h_create")->getEntryBlock().begin();
    for(int i=0;i<3;i++){} auto o0=X.call(S,fn("h_init"),{H},I); std::vector<Out> st; for(auto&o:o0) for(auto&p:X.call(o.S,fn("h_create"),{H,Val::I(Poly(kind)),Val::I(n),Val::I(Poly(opt))},I)) st.push_back(p);
    if(st.empty()) unsup("no path through the factory"); bool ok=false; for(auto&o:st){ Val s=X.asInt(o.S,o.ret); if(s.k!=Val::INT||!s.p.isConst()||s.p.c()!=0) continue; ok=true; for(int m=0;m<8;m++){ if(kind==2&&(m==2||m==6)) continue; if(a.count("m")&&(","+a["m"]+",").find(","+std::to_string(m)+",")==std::string::npos) continue; const char*f=kind==0||kind==3?"h_complex":kind==2?"h_dct":m<4?"h_real_f":"h_real_i"; std::vector<Val> args={H,Val::I(Poly(m))}; if(kind==1){ if(m<4){ args.push_back(VY); args.push_back(VX); } else { args.push_back(VX); args.push_back(VY); } } else args.push_back(kind==2?VY:VX); X.call(o.S,fn(f),args,I); } } if(!ok) unsup("factory never succeeds"); };
  try{ if(!a.count("n")) for(int round=0;;round++){ if(round>12) unsup("contracts do not settle"); X.dropped=false; X.quiet=1; if(getenv("SZX_V")) fprintf(stderr,"round %d at %.1f\n",round,now()-t0); root(); if(getenv("SZX_V")) fprintf(stderr,"root done at %.1f\n",now()-t0); std::set<const Function*> done; bool more=true; while(more){ more=false; std::vector<const Function*> fs; for(auto&c:X.contracts) if(!done.count(c.first)) fs.push_back(c.first); for(auto*f:fs){ done.insert(f); more=true; double ta=now(); X.analyze(f); if(getenv("SZX_V")) fprintf(stderr,"analysed %s %.1f s\n",demangle(f->getName().str()).c_str(),now()-ta); } } X.quiet=0; if(!X.dropped) break; }
    X.quiet=0; root(); for(auto&c:X.contracts){ X.analyze(c.first); } if(X.dropped) unsup("contract dropped in the final round"); }
  catch(Unsupported&e){ status="error"; msg=e.what(); }
  catch(z3::exception&e){ status="error"; msg=std::string("z3: ")+e.msg(); }
  if(!X.viols.empty()) status="violation";
  std::string s="{\"status\":\""+status+"\",\"msg\":\""+esc(msg)+"\",\"obligations\":"+std::to_string(X.w.obligations)+",\"queries\":"+std::to_string(X.w.queries)+",\"paths\":"+std::to_string(X.paths)+",\"instr\":"+std::to_string(X.instrs)+",\"solver_s\":"+std::to_string(X.w.solver)+",\"wall\":"+std::to_string(now()-t0);
  if(!X.viols.empty()){ auto&v=X.viols[0]; s+=",\"finding\":{\"kind\":\"size\",\"msg\":\""+esc(v.kind+" in "+v.where.substr(0,300)+(v.msg.empty()?"":" ["+v.msg.substr(0,200)+"]"))+"\",\"x\":[],\"out\":-1,\"tol\":0,\"dev\":0,\"ctx\":["; bool first=true; std::set<i128> seen; for(auto&q:X.viols) for(i128 k:q.ns) if(seen.insert(k).second){ s+=(first?"\"":",\"")+s128(k)+"\""; first=false; } s+="]},\"violations\":"+std::to_string(X.viols.size()); if(getenv("SZX_V")) for(auto&q:X.viols){ std::string ns; for(i128 k:q.ns) ns+=" "+s128(k); fprintf(stderr,"V %s | %s | %s | n:%s\n",q.kind.c_str(),q.where.c_str(),q.msg.c_str(),ns.c_str()); } }
  if(getenv("SZX_V")) for(int i=0;i<4;i++) fprintf(stderr,"level %d: %llu queries, %llu unsat, %.1f s\n",i,(unsigned long long)X.w.nl[i],(unsigned long long)X.w.un[i],X.w.tl[i]);
  s+=",\"funcs\":["; bool first=true; for(auto&f:X.funcs){ s+=(first?"\"":",\"")+f+"\""; first=false; } s+="]"; if(getenv("SZX_V")) for(auto&c:X.contracts){ fprintf(stderr,"contract %s:",demangle(c.first->getName().str()).c_str()); for(auto&t:c.second.cand) fprintf(stderr," (%d: %d %d %d %s)",t.kind,t.i,t.j,t.p,s128(t.c).c_str()); fprintf(stderr,"\n"); } 
  return s+"}"; }
int main(int argc,char**argv){ if(argc<2) return 2; std::string line; double lim=argc>2?atof(argv[2]):240; while(std::getline(std::cin,line)){ if(line.empty()) continue; std::string r; try{ r=runJob(argv[1],line,lim); }catch(std::exception&e){ r=std::string("{\"status\":\"error\",\"msg\":\"")+esc(e.what())+"\"}"; } std::cout<<r<<std::endl; } }
