// ---- execution (included inside struct VM)
struct LoopSnap { bool active=false; int pcAfter; std::vector<u64> regs; i64 cur,last,step; u64 pl,pu,pst,plast; int w; u64 loopId; u64 stkTopAt; };

z3::expr bv(u64 lane,int w){ if(isSInt(lane)){ z3::expr e=iexp[(u32)lane]; int ew=e.get_sort().bv_size(); if(ew==w) return e; if(ew>w) return e.extract(w-1,0); return z3::zext(e,w-ew); } return z.bv_val((uint64_t)mask(lane,w),w); }
u64 boxI(z3::expr e){ e=e.simplify(); if(e.is_numeral()){ uint64_t v=0; if(Z3_get_numeral_uint64(z,e,&v)) return v; } iexp.push_back(e); useSInt=true; return (TAG_INT<<48)|(u32)(iexp.size()-1); }
u64 boxBool(z3::expr c){ c=c.simplify(); if(c.is_true()) return 1; if(c.is_false()) return 0; return boxI(z3::ite(c,z.bv_val(1,1),z.bv_val(0,1))); }

// Decide a symbolic boolean; explores feasible sides through re-execution.
bool decide(const z3::expr&c0){
  z3::expr c=c0.simplify(); if(c.is_true()) return true; if(c.is_false()) return false;
  if(dpos<decisions.size()){ bool v=decisions[dpos++]; pc.push_back(v?c:!c); if(fsolver) fsolver->add(pc.back()); return v; }
  if(!fsolver) unsup("symbolic branch without a path solver");
  struct timespec t0,t1; clock_gettime(CLOCK_MONOTONIC,&t0);
  fsolver->push(); fsolver->add(c); auto rt=fsolver->check(); fsolver->pop(); 
  fsolver->push(); fsolver->add(!c); auto rf=fsolver->check(); fsolver->pop(); forkQueries+=2;
  clock_gettime(CLOCK_MONOTONIC,&t1); solverTime+=(t1.tv_sec-t0.tv_sec)+1e-9*(t1.tv_nsec-t0.tv_nsec);
  bool ct=rt!=z3::unsat, cf=rf!=z3::unsat;
  if(!ct&&!cf) throw PathEnd{"infeasible"};
  bool v=ct;
  if(ct&&cf){ std::vector<int> alt(decisions.begin(),decisions.begin()+dpos); alt.push_back(0); worklist.push_back(alt); if((int)alt.size()>maxDecisions) throw PathEnd{"too many decisions"}; }
  decisions.push_back(v); dpos++; pc.push_back(v?c:!c); fsolver->add(pc.back()); return v; }
bool decideLane(u64 lane){ if(!isSInt(lane)) { return lane&1; } return decide(bv(lane,1)==z.bv_val(1,1)); }
// three-way style decision of a comparison of a symbolic double with 0: outcome of predicate
bool sawReal=false;
bool decideFcmp(int pred,u64 a,u64 b){
  if(isUninit(a)||isUninit(b)) fail("uninit","branch on an uninitialised value");
  if(g.absorb||g.bounds) throw AbstractBranch();
  u64 df; { u64 s; if(a==b) s=asU(0.0); else s=fsubS(a,b); df=s; }
  if(!isSym(df)){ double d=asD(df); return evalPred(pred,d,0.0); }
  u32 n=symId(df); sawReal=true; if(g.taint[n]&1) fail("uninit","branch depends on uninitialised memory: "+g.junkInfo[g.A[g.junkNode[0]]<g.junkInfo.size()?0:0]);
  if(dpos<decisions.size()){ bool v=decisions[dpos++]; rpc.push_back({n,pred,v}); return v; }
  int m=3; if(decideReal) { rpcPred=pred; m=decideReal(n,pred); }
  if(m==0) throw PathEnd{"infeasible"};
  bool v=(m&2)!=0; if(m==3){ std::vector<int> alt(decisions.begin(),decisions.begin()+dpos); alt.push_back(0); worklist.push_back(alt);} 
  decisions.push_back(v); dpos++; rpc.push_back({n,pred,v}); return v; }
int rpcPred=0;
static bool evalPred(int p,double x,double y){ using namespace llvm; switch(p){ case CmpInst::FCMP_OEQ: return x==y; case CmpInst::FCMP_OGT: return x>y; case CmpInst::FCMP_OGE: return x>=y; case CmpInst::FCMP_OLT: return x<y; case CmpInst::FCMP_OLE: return x<=y; case CmpInst::FCMP_ONE: return x<y||x>y; case CmpInst::FCMP_ORD: return x==x&&y==y; case CmpInst::FCMP_UNO: return !(x==x&&y==y); case CmpInst::FCMP_UEQ: return !(x<y||x>y); case CmpInst::FCMP_UGT: return !(x<=y); case CmpInst::FCMP_UGE: return !(x<y); case CmpInst::FCMP_ULT: return !(x>=y); case CmpInst::FCMP_ULE: return !(x>y); case CmpInst::FCMP_UNE: return x!=y; case CmpInst::FCMP_TRUE: return true; default: return false; } }

u64 junkFor(const std::string&why){ return boxSym(g.mkJunk(why)); }
inline u64 fixU(u64 v){ if(isUninit(v)) return junkFor("uninitialised value"); return v; }
u64 fslow(int op,u64 a,u64 b){ a=fixU(a); b=fixU(b); if(isSInt(a)||isSInt(b)) unsup("float arithmetic on a symbolic integer"); switch(op){ case I_FADD: return g.add(a,b); case I_FSUB: return g.sub(a,b); case I_FMUL: return g.mul(a,b); default: return g.div(a,b);} }
static inline bool special(u64 v){ return (v>>51)==(0xFFF0ull>>3) ; } // 0xFFF0..0xFFF7 : our tags (and -inf)
inline u64 faddS(u64 a,u64 b){ if(special(a)||special(b)){ if(isSym(a)||isSym(b)||isUninit(a)||isUninit(b)||isSInt(a)||isSInt(b)) return fslow(I_FADD,a,b);} return asU(asD(a)+asD(b)); }
inline u64 fsubS(u64 a,u64 b){ if(special(a)||special(b)){ if(isSym(a)||isSym(b)||isUninit(a)||isUninit(b)||isSInt(a)||isSInt(b)) return fslow(I_FSUB,a,b);} return asU(asD(a)-asD(b)); }
inline u64 fmulS(u64 a,u64 b){ if(special(a)||special(b)){ if(isSym(a)||isSym(b)||isUninit(a)||isUninit(b)||isSInt(a)||isSInt(b)) return fslow(I_FMUL,a,b);} return asU(asD(a)*asD(b)); }
inline u64 fdivS(u64 a,u64 b){ if(special(a)||special(b)){ if(isSym(a)||isSym(b)||isUninit(a)||isUninit(b)||isSInt(a)||isSInt(b)) return fslow(I_FDIV,a,b);} return asU(asD(a)/asD(b)); }
inline u64 fnegS(u64 a){ if(special(a)){ if(isUninit(a)) a=fixU(a); if(isSym(a)) return g.neg(a);} return a^0x8000000000000000ull; }

u64 intSlow(const Inst&in,u64 a,u64 b){
  const int w=in.w;
  // bit tricks on boxed doubles
  if(isSym(a)||isSym(b)){
    if(!isSym(a)) std::swap(a,b);
    if(w==64&&in.op==I_XOR&&b==0x8000000000000000ull) return g.neg(a);
    if(w==64&&(in.op==I_XOR||in.op==I_OR||in.op==I_ADD)&&b==0) return a;
    if(w==64&&in.op==I_AND&&b==~0ull) return a; if(w==64&&in.op==I_AND&&b==0) return 0;
    if(w==64&&in.op==I_AND&&b==0x7fffffffffffffffull) return g.fun1("fabs",a);
    unsup("integer operation on the bits of a symbolic double"); }
  if(isUninit(a)||isUninit(b)){ if(w>=32 && !(isSInt(a)||isSInt(b))){ 
      // arithmetic on uninitialised integers: propagate the mark
      return w==64?UNINIT64:UNINIT32; } }
  z3::expr x=bv(a,w), y=bv(b,w);
  auto chk=[&](z3::expr ok,const char*what){ ovf(ok,what); };
  switch(in.op){
    case I_ADD: if(in.x&1) chk(z3::bvadd_no_overflow(x,y,true)&&z3::bvadd_no_underflow(x,y),"signed addition"); return boxI(x+y);
    case I_SUB: if(in.x&1) chk(z3::bvsub_no_overflow(x,y)&&z3::bvsub_no_underflow(x,y,true),"signed subtraction"); return boxI(x-y);
    case I_MUL: if(in.x&1) chk(z3::bvmul_no_overflow(x,y,true)&&z3::bvmul_no_underflow(x,y),"signed multiplication"); return boxI(x*y);
    case I_UDIV: return boxI(z3::udiv(x,y)); case I_SDIV: return boxI(x/y); case I_UREM: return boxI(z3::urem(x,y)); case I_SREM: return boxI(z3::srem(x,y));
    case I_SHL: if(in.x&1) chk(z3::ashr(z3::shl(x,y),y)==x,"signed shift"); return boxI(z3::shl(x,y)); case I_LSHR: return boxI(z3::lshr(x,y)); case I_ASHR: return boxI(z3::ashr(x,y));
    case I_AND: return boxI(x&y); case I_OR: return boxI(x|y); case I_XOR: return boxI(x^y);
    case I_SMIN: return boxI(z3::ite(x<=y,x,y)); case I_SMAX: return boxI(z3::ite(x>=y,x,y)); case I_UMIN: return boxI(z3::ite(z3::ule(x,y),x,y)); case I_UMAX: return boxI(z3::ite(z3::uge(x,y),x,y));
  }
  unsup("symbolic integer operation"); }
std::function<void(z3::expr,const char*)> ovfHook; u64 ovfChecks=0;
void ovf(z3::expr ok,const char*what){ ovfChecks++; if(ovfHook) ovfHook(ok,what); }
inline u64 iop(const Inst&in,u64 a,u64 b){
  if(__builtin_expect(((a>>48)>=0xFFF2&&(a>>48)<=0xFFF5)||((b>>48)>=0xFFF2&&(b>>48)<=0xFFF5),0)){ if(isSym(a)||isSym(b)||isSInt(a)||isSInt(b)||a==UNINIT64||b==UNINIT64) return intSlow(in,a,b); }
  const int w=in.w;
  switch(in.op){
    case I_ADD: return mask(a+b,w); case I_SUB: return mask(a-b,w); case I_MUL: return mask(a*b,w);
    case I_UDIV: if(!b) fail("arith","division by zero"); return a/b; case I_UREM: if(!b) fail("arith","division by zero"); return a%b;
    case I_SDIV: if(!b) fail("arith","division by zero"); return mask((u64)(sx(a,w)/sx(b,w)),w); case I_SREM: if(!b) fail("arith","division by zero"); return mask((u64)(sx(a,w)%sx(b,w)),w);
    case I_SHL: return b>=(u64)w?0:mask(a<<b,w); case I_LSHR: return b>=(u64)w?0:a>>b; case I_ASHR: return mask((u64)(sx(a,w)>>(b>=(u64)w?63:b)),w);
    case I_AND: return a&b; case I_OR: return a|b; case I_XOR: return a^b;
    case I_SMIN: return sx(a,w)<sx(b,w)?a:b; case I_SMAX: return sx(a,w)>sx(b,w)?a:b; case I_UMIN: return a<b?a:b; case I_UMAX: return a>b?a:b;
  } return 0; }
u64 icmp(const Inst&in,u64 a,u64 b){ using namespace llvm; const int w=in.w;
  if(isSInt(a)||isSInt(b)){ z3::expr x=bv(a,w),y=bv(b,w); switch(in.x){ case CmpInst::ICMP_EQ: return boxBool(x==y); case CmpInst::ICMP_NE: return boxBool(x!=y); case CmpInst::ICMP_UGT: return boxBool(z3::ugt(x,y)); case CmpInst::ICMP_UGE: return boxBool(z3::uge(x,y)); case CmpInst::ICMP_ULT: return boxBool(z3::ult(x,y)); case CmpInst::ICMP_ULE: return boxBool(z3::ule(x,y)); case CmpInst::ICMP_SGT: return boxBool(x>y); case CmpInst::ICMP_SGE: return boxBool(x>=y); case CmpInst::ICMP_SLT: return boxBool(x<y); default: return boxBool(x<=y);} }
  if(isSym(a)||isSym(b)) unsup("integer comparison of symbolic double bits");
  if((w==64&&(a==UNINIT64||b==UNINIT64))||(w==32&&(a==UNINIT32||b==UNINIT32))) fail("uninit","control flow depends on an uninitialised integer");
  switch(in.x){ case CmpInst::ICMP_EQ: return a==b; case CmpInst::ICMP_NE: return a!=b; case CmpInst::ICMP_UGT: return a>b; case CmpInst::ICMP_UGE: return a>=b; case CmpInst::ICMP_ULT: return a<b; case CmpInst::ICMP_ULE: return a<=b; case CmpInst::ICMP_SGT: return sx(a,w)>sx(b,w); case CmpInst::ICMP_SGE: return sx(a,w)>=sx(b,w); case CmpInst::ICMP_SLT: return sx(a,w)<sx(b,w); default: return sx(a,w)<=sx(b,w);} }

void shadowClear(u64 addr,u64 n){ if(ishadow.empty()) return; for(auto it=ishadow.begin();it!=ishadow.end();){ if(it->first<addr+n&&addr<it->first+it->second.first) it=ishadow.erase(it); else ++it; } }
u64 loadLane(u64 addr,u32 sz,const u8*p,const Inst*in){
  u64 v=0; memcpy(&v,p,sz);
  if(sz<8&&!ishadow.empty()){ auto it=ishadow.find(addr); if(it!=ishadow.end()){ if(it->second.first==sz) return it->second.second; unsup("partial load of a symbolic integer"); }
    for(auto&kv:ishadow) if(kv.first<addr+sz&&addr<kv.first+kv.second.first) unsup("partial load of a symbolic integer"); }
  return v; }
void storeLane(u64 addr,u32 sz,u8*p,u64 v){
  if(sz<8){
    if(!ishadow.empty()) shadowClear(addr,sz);
    if(isSInt(v)){ ishadow[addr]={sz,v}; u64 zz=0; memcpy(p,&zz,sz); return; }
    // keep uninitialised marks consistent for the other half of a granule (marks are per 32 bits)
  } else if(!ishadow.empty()) shadowClear(addr,sz);
  memcpy(p,&v,sz); }

bool exec(Func&f,const u64*args,u64*ret){
  if(!f.decoded) decode(f);
  f.calls++;
  if(f.F->isDeclaration()){ if(f.ext<0) unsup("call of unknown external function "+f.name); bool r=exts[f.ext](*this,dummyInst,args,0,ret); return r; }
  if(!overridden.empty()&&overridden.count(f.id)){ bool ok=true; if(callOverride(*this,f,args,0,ret,ok)) return ok; }
  if(callstack.size()>4000) fail("stack","unbounded recursion");
  if(hook) hook->callEnter(f);
  callstack.push_back(&f);
  size_t rt0=regTop; if(regTop+f.nslots+64>regStack.size()) throw EngineError("register stack overflow");
  u64*R=&regStack[regTop]; regTop+=f.nslots+1;
  { int k=0; for(size_t i=0;i<f.argSlot.size();i++) for(int l=0;l<f.argLanes[i];l++) R[f.argSlot[i]+l]=args[k++]; }
  size_t stk0=stkTop, stkm0=stkMemTop;
  bool ok=run(f,R,ret);
  while(stkTop>stk0){ stkTop--; stk[stkTop].alive=false; if(!ishadow.empty()) shadowClear(stk[stkTop].base,stk[stkTop].size); }
  stkMemTop=stkm0; regTop=rt0; callstack.pop_back();
  return ok; }
Inst dummyInst{};

bool run(Func&f,u64*R,u64*ret){
  const u64*P=f.pool.data(); // pool may not grow after decode
  auto G=[&](i32 s)->const u64*{ return s>=0?R+s:P+(-1-s); };
  const Inst*code=f.code.data(); int pcx=0; u64 tmp[256]; u64 argb[128]; 
  LoopSnap snap;
  auto takeEdge=[&](i32 e){ const Edge&E=f.edges[e]; if(E.nc){ const Copy*c=&f.copies[E.c0]; if(E.nc==1){ const u64*s=G(c->s); for(int l=0;l<c->n;l++) tmp[l]=s[l]; for(int l=0;l<c->n;l++) R[c->d+l]=tmp[l]; } else { int k=0; for(int i=0;i<E.nc;i++){ const u64*s=G(c[i].s); for(int l=0;l<c[i].n;l++){ if(k>=256) throw EngineError("too many phis"); tmp[k++]=s[l]; } } k=0; for(int i=0;i<E.nc;i++) for(int l=0;l<c[i].n;l++) R[c[i].d+l]=tmp[k++]; } } pcx=E.pc; };
  u64 ic=0; struct IC{u64&g;u64&l;Func&f; ~IC(){g+=l; f.icount+=l;}} icg{icount,ic,f};
  for(;;){
    const Inst&in=code[pcx++]; ic++;
    switch(in.op){
      case I_ADD: case I_SUB: case I_MUL: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: case I_SHL: case I_LSHR: case I_ASHR: case I_AND: case I_OR: case I_XOR: case I_SMIN: case I_SMAX: case I_UMIN: case I_UMAX: {
        const u64*a=G(in.a),*b=G(in.b); for(int l=0;l<in.n;l++) R[in.d+l]=iop(in,a[l],b[l]); break; }
      case I_FADD: { const u64*a=G(in.a),*b=G(in.b); if(in.w==32){ f32bin(in,a,b,R); break; } for(int l=0;l<in.n;l++) R[in.d+l]=faddS(a[l],b[l]); break; }
      case I_FSUB: { const u64*a=G(in.a),*b=G(in.b); if(in.w==32){ f32bin(in,a,b,R); break; } for(int l=0;l<in.n;l++) R[in.d+l]=fsubS(a[l],b[l]); break; }
      case I_FMUL: { const u64*a=G(in.a),*b=G(in.b); if(in.w==32){ f32bin(in,a,b,R); break; } for(int l=0;l<in.n;l++) R[in.d+l]=fmulS(a[l],b[l]); break; }
      case I_FDIV: { const u64*a=G(in.a),*b=G(in.b); if(in.w==32){ f32bin(in,a,b,R); break; } for(int l=0;l<in.n;l++) R[in.d+l]=fdivS(a[l],b[l]); break; }
      case I_FREM: { const u64*a=G(in.a),*b=G(in.b); for(int l=0;l<in.n;l++){ if(isSym(a[l])||isSym(b[l])) unsup("frem"); R[in.d+l]=asU(fmod(asD(a[l]),asD(b[l]))); } break; }
      case I_FNEG: { const u64*a=G(in.a); for(int l=0;l<in.n;l++) R[in.d+l]= in.w==32? (a[l]^0x80000000u) : fnegS(a[l]); break; }
      case I_ADDSUB: { const u64*a=G(in.a),*b=G(in.b); u64 t[8]; for(int l=0;l<in.n;l++) t[l]=(l&1)?faddS(a[l],b[l]):fsubS(a[l],b[l]); for(int l=0;l<in.n;l++) R[in.d+l]=t[l]; break; }
      case I_HADD: case I_HSUB: { const u64*a=G(in.a),*b=G(in.b); u64 t[8]; for(int l=0;l<in.n;l+=2){ t[l]=in.op==I_HADD?faddS(a[l],a[l+1]):fsubS(a[l],a[l+1]); t[l+1]=in.op==I_HADD?faddS(b[l],b[l+1]):fsubS(b[l],b[l+1]); } for(int l=0;l<in.n;l++) R[in.d+l]=t[l]; break; }
      case I_FMA: case I_FMULADD: { const u64*a=G(in.a),*b=G(in.b),*c=G(in.c); for(int l=0;l<in.n;l++){ bool sp=special(a[l])||special(b[l])||special(c[l]); if(!sp&&in.op==I_FMA) R[in.d+l]=asU(std::fma(asD(a[l]),asD(b[l]),asD(c[l]))); else R[in.d+l]=faddS(fmulS(a[l],b[l]),c[l]); } break; }
      case I_ICMP: { const u64*a=G(in.a),*b=G(in.b); for(int l=0;l<in.n;l++) R[in.d+l]=icmp(in,a[l],b[l]); break; }
      case I_FCMP: { const u64*a=G(in.a),*b=G(in.b); for(int l=0;l<in.n;l++){ u64 x=a[l],y=b[l]; if(isSym(x)||isSym(y)||isUninit(x)||isUninit(y)) { if(in.x==llvm::CmpInst::FCMP_UNO) R[in.d+l]=0; else if(in.x==llvm::CmpInst::FCMP_ORD) R[in.d+l]=1; else R[in.d+l]=decideFcmp(in.x,x,y); } else if(in.w==32){ float p,q; u32 u=x,v=y; memcpy(&p,&u,4); memcpy(&q,&v,4); R[in.d+l]=evalPred(in.x,p,q);} else R[in.d+l]=evalPred(in.x,asD(x),asD(y)); } break; }
      case I_SELECT: { const u64*c=G(in.a),*a=G(in.b),*b=G(in.c); if(in.x){ u64 t[32]; for(int l=0;l<in.n;l++) t[l]=decideLane(c[l])?a[l]:b[l]; for(int l=0;l<in.n;l++) R[in.d+l]=t[l]; }
          else if(isSInt(c[0])){ bool num=in.n==1&&!isSym(a[0])&&!isSym(b[0])&&llvm::cast<llvm::Instruction>(in.src)->getType()->isIntegerTy(); if(num) R[in.d]=boxI(z3::ite(bv(c[0],1)==z.bv_val(1,1),bv(a[0],in.w),bv(b[0],in.w))); else { bool v=decideLane(c[0]); const u64*s=v?a:b; for(int l=0;l<in.n;l++) R[in.d+l]=s[l]; } }
          else { const u64*s=(c[0]&1)?a:b; if(in.n==1) R[in.d]=s[0]; else for(int l=0;l<in.n;l++) tmp[l]=s[l],R[in.d+l]=tmp[l]; } break; }
      case I_BR: takeEdge(in.x); if(ic>1000000){ icount+=ic; f.icount+=ic; ic=0; if(icount>ibudget) throw PathEnd{"instruction budget"}; } break;
      case I_CBR: { u64 c=*G(in.a); bool v=isSInt(c)?decideLane(c):(c&1); takeEdge(v?in.b:in.c); break; }
      case I_SWITCH: { u64 c=*G(in.a); const i64*ax=&f.aux[in.x]; i32 e=in.b; i64 n=ax[0]; if(isSInt(c)){ z3::expr x=bv(c,in.w); bool hit=false; for(i64 k=0;k<n&&!hit;k++) if(decide(x==z.bv_val((uint64_t)ax[1+2*k],in.w))){ e=ax[2+2*k]; hit=true; } } else { if((in.w==32&&c==UNINIT32)||c==UNINIT64) fail("uninit","switch on an uninitialised integer"); for(i64 k=0;k<n;k++) if((u64)ax[1+2*k]==c){ e=ax[2+2*k]; break; } } takeEdge(e); break; }
      case I_GEP: { u64 b=*G(in.a); const i64*ax=&f.aux[in.x]; bool sy=isSInt(b); for(int k=0;k<in.n&&!sy;k++) if(isSInt(*G(ax[1+3*k]))) sy=true;
          if(!sy){ u64 v=b+ax[0]; for(int k=0;k<in.n;k++) v+=(u64)(sx(*G(ax[1+3*k]),ax[2+3*k])*ax[3+3*k]); R[in.d]=v; }
          else { z3::expr e=bv(b,64)+z.bv_val((int64_t)ax[0],64); for(int k=0;k<in.n;k++){ z3::expr ix=bv(*G(ax[1+3*k]),ax[2+3*k]); if(ax[2+3*k]<64) ix=z3::sext(ix,64-ax[2+3*k]); e=e+ix*z.bv_val((int64_t)ax[3+3*k],64);} R[in.d]=boxI(e); } break; }
      case I_LOAD: { u64 ad=*G(in.a); 
          if(__builtin_expect(isSInt(ad)||ad==UNINIT64,0)){ if(ad==UNINIT64) fail("uninit","load through an uninitialised pointer"); if(!symLoad) unsup("symbolic address"); const i64*ax=in.x>=0?&f.aux[in.x]:nullptr; for(int l=0;l<in.n;l++){ u64 off=ax?ax[2*l]:8*l; u32 sz=ax?ax[2*l+1]:8; u64 la=boxI(bv(ad,64)+z.bv_val((uint64_t)off,64)); R[in.d+l]=symLoad(*this,la,sz,l,in); } break; }
          const u8*p=ptr(ad,in.w2,false,&in); if(__builtin_expect(hook!=nullptr,0)) hook->access(ad,in.w2,false,in.y,&in);
          if(in.x<0){ for(int l=0;l<in.n;l++){ u64 v; memcpy(&v,p+8*l,8); if(__builtin_expect((v>>48)==0xFFF2||(u32)v==UNINIT32,0)) { if(isUninit(v)&&(in.c&2)){ v=uninitLoad(ad+8*l,const_cast<u8*>(p)+8*l); } } R[in.d+l]=v; } }
          else { const i64*ax=&f.aux[in.x]; for(int l=0;l<in.n;l++){ u64 v=loadLane(ad+ax[2*l],ax[2*l+1],p+ax[2*l],&in); if((in.c&1)&&!isSInt(v)) v&=1; R[in.d+l]=v; } }
          break; }
      case I_STORE: { u64 ad=*G(in.a); const u64*v=G(in.b);
          if(__builtin_expect(isSInt(ad)||ad==UNINIT64,0)){ if(ad==UNINIT64) fail("uninit","store through an uninitialised pointer"); if(!symStore) unsup("symbolic address"); const i64*ax=in.x>=0?&f.aux[in.x]:nullptr; for(int l=0;l<in.n;l++){ u64 off=ax?ax[2*l]:8*l; u32 sz=ax?ax[2*l+1]:8; symStore(*this,boxI(bv(ad,64)+z.bv_val((uint64_t)off,64)),sz,v[l],in); } break; }
          u8*p=ptr(ad,in.w2,true,&in); if(__builtin_expect(hook!=nullptr,0)) hook->access(ad,in.w2,true,in.y,&in);
          if(in.x<0){ if(!ishadow.empty()) shadowClear(ad,in.w2); memcpy(p,v,8*in.n); }
          else { const i64*ax=&f.aux[in.x]; for(int l=0;l<in.n;l++) storeLane(ad+ax[2*l],ax[2*l+1],p+ax[2*l],v[l]); }
          break; }
      case I_ALLOCA: { u64 sz=f.aux[in.b]; if(in.x){ u64 c=*G(in.a); if(isSInt(c)) unsup("symbolic alloca"); sz*=c; } R[in.d]=stackObj(sz,in.y,f); break; }
      case I_TRUNC: { const u64*a=G(in.a); for(int l=0;l<in.n;l++){ if(isSInt(a[l])) R[in.d+l]=boxI(bv(a[l],in.w2).extract(in.w-1,0)); else { if(isSym(a[l])) unsup("trunc of symbolic double bits"); R[in.d+l]=mask(a[l],in.w); } } break; }
      case I_ZEXT: { const u64*a=G(in.a); for(int l=0;l<in.n;l++) R[in.d+l]=isSInt(a[l])?boxI(z3::zext(bv(a[l],in.w2),in.w-in.w2)):a[l]; break; }
      case I_SEXT: { const u64*a=G(in.a); for(int l=0;l<in.n;l++) R[in.d+l]=isSInt(a[l])?boxI(z3::sext(bv(a[l],in.w2),in.w-in.w2)):mask((u64)sx(a[l],in.w2),in.w); break; }
      case I_SITOFP: case I_UITOFP: { const u64*a=G(in.a); for(int l=0;l<in.n;l++){ if(isSInt(a[l])){ R[in.d+l]=symIntToFp?symIntToFp(a[l]):(unsup("int to fp of a symbolic integer"),0); continue; } if(a[l]==UNINIT64||(in.w2==32&&a[l]==UNINIT32)){ R[in.d+l]=junkFor("uninitialised integer"); continue; } double dv=in.op==I_SITOFP?(double)sx(a[l],in.w2):(double)a[l]; if(in.w==32){ float q=in.op==I_SITOFP?(float)sx(a[l],in.w2):(float)a[l]; u32 u; memcpy(&u,&q,4); R[in.d+l]=u; } else R[in.d+l]=asU(dv);} break; }
      case I_FPTOSI: case I_FPTOUI: { const u64*a=G(in.a); for(int l=0;l<in.n;l++){ if(isSym(a[l])||isUninit(a[l])) unsup("fp to int of a symbolic double"); double dv=asD(a[l]); if(in.w2==32){ float q; u32 u=a[l]; memcpy(&q,&u,4); dv=q; } R[in.d+l]=mask(in.op==I_FPTOSI?(u64)(i64)dv:(u64)dv,in.w);} break; }
      case I_FPTRUNC: { const u64*a=G(in.a); for(int l=0;l<in.n;l++){ u64 v=fixUif(a[l]); if(isSym(v)){ R[in.d+l]=g.f32(v); } else { float q=(float)asD(v); u32 u; memcpy(&u,&q,4); R[in.d+l]=u; } } break; }
      case I_FPEXT: { const u64*a=G(in.a); for(int l=0;l<in.n;l++){ if(isSym(a[l])) R[in.d+l]=a[l]; else { float q; u32 u=a[l]; memcpy(&q,&u,4); R[in.d+l]=asU((double)q);} } break; }
      case I_COPY: { const u64*a=G(in.a); for(int l=0;l<in.n;l++) R[in.d+l]=a[l]; break; }
      case I_BCGEN: { const u64*a=G(in.a); u8 buf[512]; memset(buf,0,sizeof buf); int fw=in.w2,tw=in.w; if(fw==1||tw==1){ // i1 vectors <-> integers
            u64 acc=0; if(fw==1){ for(int l=0;l<in.x;l++) acc|=(a[l]&1)<<l; R[in.d]=acc; } else for(int l=0;l<in.n;l++) R[in.d+l]=(a[0]>>l)&1; break; }
          if(fw%8||tw%8) unsup("odd bitcast"); for(int l=0;l<in.x;l++){ if(isSInt(a[l])||(isSym(a[l])&&tw!=64)) { symBits(a,in,R); goto bcdone; } memcpy(buf+l*(fw/8),&a[l],fw/8);} for(int l=0;l<in.n;l++){ u64 v=0; memcpy(&v,buf+l*(tw/8),tw/8); R[in.d+l]=v; } bcdone: break; }
      case I_EXTRACTEL: { u64 ix=*G(in.b); if(isSInt(ix)||ix>=(u64)in.x) unsup("extractelement index"); R[in.d]=G(in.a)[ix]; break; }
      case I_INSERTEL: { const u64*a=G(in.a); u64 v=*G(in.b), ix=*G(in.c); if(isSInt(ix)||ix>=in.n) unsup("insertelement index"); for(int l=0;l<in.n;l++) R[in.d+l]=a[l]; R[in.d+ix]=v; break; }
      case I_SHUFFLE: { const u64*a=G(in.a),*b=G(in.b); const i64*m=&f.aux[in.x]; u64 t[64]; for(int l=0;l<in.n;l++) t[l]=m[l]<0?0:(m[l]<in.c?a[m[l]]:b[m[l]-in.c]); for(int l=0;l<in.n;l++) R[in.d+l]=t[l]; break; }
      case I_EXTRACTV: { const u64*a=G(in.a); for(int l=0;l<in.n;l++) R[in.d+l]=a[in.x+l]; break; }
      case I_INSERTV: { const u64*a=G(in.a),*b=G(in.b); for(int l=0;l<in.n;l++) R[in.d+l]=a[l]; for(int l=0;l<in.c;l++) R[in.d+in.x+l]=b[l]; break; }
      case I_ABS: { const u64*a=G(in.a); for(int l=0;l<in.n;l++){ if(isSInt(a[l])){ z3::expr x=bv(a[l],in.w); R[in.d+l]=boxI(z3::ite(x<0,-x,x)); } else { i64 v=sx(a[l],in.w); R[in.d+l]=mask((u64)(v<0?-v:v),in.w);} } break; }
      case I_CPUID: { const i64*ax=&f.aux[in.x]; u64 leaf=*G(ax[1]); if(isSInt(leaf)) unsup("symbolic cpuid leaf"); if(!cpuidHook) unsup("cpuid"); u64 sub=ax[0]>1?*G(ax[2]):0; (void)sub; for(int r=0;r<4;r++) R[in.d+r]=cpuidHook((int)leaf,r); break; }
      case I_XGETBV: { if(!xgetbvHook) unsup("xgetbv"); R[in.d]=xgetbvHook(0); R[in.d+1]=xgetbvHook(1); break; }
      case I_ASMNOP: break;
      case I_CMPXCHG: { u64 ad=*G(in.a); u32 sz=in.w/8; u8*p=ptr(ad,sz,true,&in); u64 cur=0; memcpy(&cur,p,sz); u64 e=*G(in.b),nw=*G(in.c); bool okc=cur==e; if(okc) memcpy(p,&nw,sz); R[in.d]=cur; R[in.d+1]=okc; break; }
      case I_ATOMICRMW: { u64 ad=*G(in.a); u32 sz=in.w/8; u8*p=ptr(ad,sz,true,&in); u64 cur=0; memcpy(&cur,p,sz); u64 v=*G(in.b),nw=v; using AR=llvm::AtomicRMWInst; switch(in.x){ case AR::Add: nw=cur+v; break; case AR::Sub: nw=cur-v; break; case AR::Xchg: nw=v; break; case AR::And: nw=cur&v; break; case AR::Or: nw=cur|v; break; case AR::FAdd: nw=faddS(cur,v); break; default: unsup("atomicrmw"); } nw=mask(nw,in.w); memcpy(p,&nw,sz); R[in.d]=cur; break; }
      case I_CALL: case I_INVOKE: {
          const i64*ax=&f.aux[in.x]; int tot=ax[1]; if(tot>128) unsup("too many arguments"); int k=0; for(i64 i=0;i<ax[0];i++){ const u64*s=G(ax[2+2*i]); for(i64 l=0;l<ax[3+2*i];l++) argb[k++]=s[l]; }
          Func*cf; if(in.y==0) cf=&funcs[in.a]; else { u64 fp=*G(in.a); if(isSInt(fp)) unsup("symbolic function pointer"); if((fp&0xF000000000000000ull)!=FNB||((fp&~FNB)>>4)>=funcs.size()) fail("memory","call through an invalid function pointer (virtual call on a null or destroyed object)"); cf=&funcs[(fp&~FNB)>>4]; }
          if(!cf->decoded) decode(*cf);
          u64 rv[64]; bool ok;
          if(cf->F->isDeclaration()){
            if(cf->ext<0){ if(cf->F->isIntrinsic()) ok=intrinsic(*cf,in,argb,tot,rv); else unsup("call of unknown external function "+cf->name); }
            else {
              ompAct=0; cf->calls++;
              if(ext_is_omp[cf->ext]) ok=ompCall(cf->ext,f,R,pcx,argb,tot,rv,snap); else ok=exts[cf->ext](*this,in,argb,tot,rv);
            }
          } else ok=exec(*cf,argb,rv);
          if(ok){ for(int l=0;l<in.n&&l<64;l++) if(cf->retLanes) R[in.d+l]=rv[l]; if(in.op==I_INVOKE) takeEdge(in.b); }
          else if(in.op==I_INVOKE) takeEdge(in.c);
          else return false;
          break; }
      case I_LPAD: { u64 sel=0; bool match=false; const i64*ax=&f.aux[in.x]; for(i64 k=0;k<ax[0]&&!match;k++){ u64 ti=ax[1+k]; if(ti==(u64)-1) unsup("filter clause"); if(ti==0){ match=true; sel=typeId(0); } else if(typeMatches(excType,ti)){ match=true; sel=typeId(ti);} }
          if(!match&&!in.w2) return false; R[in.d]=excObj; R[in.d+1]=sel; unwinding=false; break; }
      case I_RESUME: { unwinding=true; excObj=*G(in.a); auto it=excTypes.find(excObj); if(it!=excTypes.end()) excType=it->second; return false; }
      case I_RET: { const u64*a=G(in.a); for(int l=0;l<in.n;l++) ret[l]=a[l]; return true; }
      case I_RETVOID: return true;
      case I_UNREACH: fail("ub","unreachable code reached (undefined behaviour)");
      case 999: throw EngineError(unsupMsgs[in.x]);
      default: throw EngineError("bad opcode");
    }
  }
}
std::function<u64(u64)> symIntToFp;
void symBits(const u64*a,const Inst&in,u64*R){ unsup("bitcast of a symbolic value"); }
u64 fixUif(u64 v){ return special(v)?fixU(v):v; }
void f32bin(const Inst&in,const u64*a,const u64*b,u64*R){ for(int l=0;l<in.n;l++){ if(isSym(a[l])||isSym(b[l])){ u64 x=a[l],y=b[l]; auto ext=[&](u64 v){ if(isSym(v)) return v; float q; u32 u=v; memcpy(&q,&u,4); return asU((double)q); }; x=ext(x);y=ext(y); u64 r=in.op==I_FADD?faddS(x,y):in.op==I_FSUB?fsubS(x,y):in.op==I_FMUL?fmulS(x,y):fdivS(x,y); R[in.d+l]=isSym(r)?g.f32(r):r; continue; } float p,q,r; u32 u=a[l],v=b[l]; memcpy(&p,&u,4); memcpy(&q,&v,4); r=in.op==I_FADD?p+q:in.op==I_FSUB?p-q:in.op==I_FMUL?p*q:p/q; memcpy(&u,&r,4); R[in.d+l]=u; } }
u64 uninitLoad(u64 ad,u8*p){
  if(!junkUninit) return 0;
  u64 j=junkFor("uninitialised "+where(ad)); memcpy(p,&j,8); return j; }
u64 stackObj(u64 sz,u32 al,Func&f){
  if(stkTop>=stk.size()) stk.resize(stk.size()*2);
  u64 need=(sz+31)&~15ull; if(stkMemTop+need>stkMem.size()) throw EngineError("stack memory exhausted");
  Obj&o=stk[stkTop]; o.mem=&stkMem[stkMemTop]; stkMemTop+=need; o.size=sz; o.align=al?al:1; o.base=STK|((u64)stkTop<<OSH)|(OBASE+o.align); o.kind=OK_STACK; o.alive=true; static std::string nm("stack variable"); o.name=&nm; o.tag=parDepth; stkTop++;
  u64 q=UNINIT64; for(u64 i=0;i+8<=((sz+7)&~7ull);i+=8) memcpy(o.mem+i,&q,8);
  return o.base; }
u32 typeId(u64 ti){ auto it=typeIds.find(ti); if(it!=typeIds.end()) return it->second; u32 v=typeIds.size()+1; typeIds[ti]=v; return v; }
std::string typeName(u64 ti){ for(auto&kv:gaddr) if(kv.second==ti) return kv.first->getName().str(); return "?"; }
bool typeMatches(u64 thrown,u64 want){ if(thrown==want) return true; std::string t=typeName(thrown),w=typeName(want);
  std::map<std::string,std::string> base={{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"}};
  for(int i=0;i<6;i++){ auto it=base.find(t); if(it==base.end()) return false; t=it->second; if(t==w) return true; } return false; }
