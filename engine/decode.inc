// ---- decoding of one function into the flat form (included inside struct VM)
std::vector<std::string> unsupMsgs;
struct Dec { std::unordered_map<const llvm::Value*,i32> slot; std::unordered_map<const llvm::Constant*,i32> cslot; std::unordered_map<const llvm::BasicBlock*,i32> bpc; std::map<std::pair<const llvm::BasicBlock*,const llvm::BasicBlock*>,i32> edge; };

i32 opnd(Func&f,Dec&d,const llvm::Value*v){
  if(auto*C=llvm::dyn_cast<llvm::Constant>(v)){
    auto it=d.cslot.find(C); if(it!=d.cslot.end()) return it->second;
    std::vector<u64> l; constLanes(C,l); i32 s=-1-(i32)f.pool.size(); for(u64 x:l) f.pool.push_back(x); if(l.empty()) f.pool.push_back(0);
    // lanes are stored in increasing pool order, accessed through a pointer
    d.cslot[C]=s; return s; }
  auto it=d.slot.find(v); if(it==d.slot.end()) throw EngineError("operand without slot"); return it->second; }

void decode(Func&f){
  using namespace llvm;
  if(f.decoded) return; f.decoded=true;
  Function*F=f.F;
  if(F->isMaterializable()){ if(Error e=F->materialize()) throw EngineError("materialize failed"); }
  f.retLanes=lanesOf(F->getReturnType());
  if(F->isDeclaration()){
    auto it=extIdx.find(f.name); f.ext = it==extIdx.end()? -2 : it->second; return; }
  Dec d; i32 ns=0;
  for(auto&A:F->args()){ d.slot[&A]=ns; int n=lanesOf(A.getType()); f.argSlot.push_back(ns); f.argLanes.push_back(n); ns+=n; }
  for(auto&B:*F) for(auto&I:B) if(!I.getType()->isVoidTy()&&!I.getType()->isTokenTy()&&!I.getType()->isMetadataTy()){ d.slot[&I]=ns; ns+=std::max(1,lanesOf(I.getType())); }
  f.nslots=ns;
  auto edgeOf=[&](const BasicBlock*p,const BasicBlock*s)->i32{
    auto k=std::make_pair(p,s); auto it=d.edge.find(k); if(it!=d.edge.end()) return it->second;
    Edge e; e.pc=-1; e.c0=f.copies.size(); e.nc=0;
    for(auto&I:*s){ auto*ph=dyn_cast<PHINode>(&I); if(!ph) break; i32 n=lanesOf(ph->getType()); Value*iv=ph->getIncomingValueForBlock(p); Copy c; c.d=d.slot[ph]; c.n=n; c.s= isa<UndefValue>(iv)? opnd(f,d,iv): opnd(f,d,iv); f.copies.push_back(c); e.nc++; }
    f.edges.push_back(e); i32 id=f.edges.size()-1; d.edge[k]=id; return id; };
  for(auto&B:*F){
    d.bpc[&B]=f.code.size();
    for(auto&I:B){
      if(isa<PHINode>(&I)) continue;
      Inst in; memset(&in,0,sizeof in); in.src=&I; in.op=I_NOP; in.n=1; in.w=64;
      try { decodeInst(f,d,I,in,edgeOf); }
      catch(EngineError&e){ in.op=999; in.x=unsupMsgs.size(); unsupMsgs.push_back(e.what()); }
      if(in.op!=I_NOP) f.code.push_back(in);
    }
  }
  for(auto&kv:d.edge) f.edges[kv.second].pc=d.bpc[kv.first.second];
}

template<class EF> void decodeInst(Func&f,Dec&d,llvm::Instruction&I,Inst&in,EF edgeOf){
  using namespace llvm;
  auto S=[&](const Value*v){ return opnd(f,d,v); };
  Type*T=I.getType(); if(!T->isVoidTy()&&d.slot.count(&I)) in.d=d.slot[&I];
  if(!T->isVoidTy()&&!T->isTokenTy()) { in.n=std::max(1,lanesOf(T)); in.w=widthOf(T->isAggregateType()?Type::getInt64Ty(ctx):T); }
  auto bin=[&](IOp op){ in.op=op; in.a=S(I.getOperand(0)); in.b=S(I.getOperand(1)); };
  switch(I.getOpcode()){
    case Instruction::Add: bin(I_ADD); in.x = (cast<OverflowingBinaryOperator>(I).hasNoSignedWrap()?1:0)|(cast<OverflowingBinaryOperator>(I).hasNoUnsignedWrap()?2:0); return;
    case Instruction::Sub: bin(I_SUB); in.x = (cast<OverflowingBinaryOperator>(I).hasNoSignedWrap()?1:0)|(cast<OverflowingBinaryOperator>(I).hasNoUnsignedWrap()?2:0); return;
    case Instruction::Mul: bin(I_MUL); in.x = (cast<OverflowingBinaryOperator>(I).hasNoSignedWrap()?1:0)|(cast<OverflowingBinaryOperator>(I).hasNoUnsignedWrap()?2:0); return;
    case Instruction::Shl: bin(I_SHL); in.x = (cast<OverflowingBinaryOperator>(I).hasNoSignedWrap()?1:0)|(cast<OverflowingBinaryOperator>(I).hasNoUnsignedWrap()?2:0); return;
    case Instruction::UDiv: bin(I_UDIV); return; case Instruction::SDiv: bin(I_SDIV); return;
    case Instruction::URem: bin(I_UREM); return; case Instruction::SRem: bin(I_SREM); return;
    case Instruction::LShr: bin(I_LSHR); return; case Instruction::AShr: bin(I_ASHR); return;
    case Instruction::And: bin(I_AND); return; case Instruction::Or: bin(I_OR); return; case Instruction::Xor: bin(I_XOR); return;
    case Instruction::FAdd: bin(I_FADD); return; case Instruction::FSub: bin(I_FSUB); return; case Instruction::FMul: bin(I_FMUL); return;
    case Instruction::FDiv: bin(I_FDIV); return; case Instruction::FRem: bin(I_FREM); return;
    case Instruction::FNeg: in.op=I_FNEG; in.a=S(I.getOperand(0)); return;
    case Instruction::ICmp: bin(I_ICMP); in.x=cast<ICmpInst>(I).getPredicate(); in.w=widthOf(I.getOperand(0)->getType()); return;
    case Instruction::FCmp: bin(I_FCMP); in.x=cast<FCmpInst>(I).getPredicate(); in.w=widthOf(I.getOperand(0)->getType()); return;
    case Instruction::Select: in.op=I_SELECT; in.a=S(I.getOperand(0)); in.b=S(I.getOperand(1)); in.c=S(I.getOperand(2)); in.x=I.getOperand(0)->getType()->isVectorTy(); return;
    case Instruction::Br: { auto&b=cast<BranchInst>(I); if(b.isUnconditional()){ in.op=I_BR; in.x=edgeOf(I.getParent(),b.getSuccessor(0)); } else { in.op=I_CBR; in.a=S(b.getCondition()); in.b=edgeOf(I.getParent(),b.getSuccessor(0)); in.c=edgeOf(I.getParent(),b.getSuccessor(1)); } return; }
    case Instruction::Switch: { auto&s=cast<SwitchInst>(I); in.op=I_SWITCH; in.a=S(s.getCondition()); in.w=widthOf(s.getCondition()->getType()); in.b=edgeOf(I.getParent(),s.getDefaultDest()); in.x=f.aux.size(); i32 cnt=0; f.aux.push_back(0); i32 at=in.x; std::vector<i64> v; for(auto c:s.cases()){ v.push_back((i64)c.getCaseValue()->getZExtValue()); v.push_back(edgeOf(I.getParent(),c.getCaseSuccessor())); cnt++; } f.aux[at]=cnt; in.x=at; for(i64 q:v) f.aux.push_back(q); return; }
    case Instruction::GetElementPtr: {
      if(T->isVectorTy()) unsup("vector gep");
      auto&G=cast<GetElementPtrInst>(I); in.op=I_GEP; in.a=S(G.getPointerOperand()); i64 off=0; std::vector<i64> v; 
      for(auto gti=gep_type_begin(G);gti!=gep_type_end(G);++gti){ Value*ix=gti.getOperand(); if(StructType*st=gti.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        i64 sc=gti.getSequentialElementStride(*DL); if(auto*ci=dyn_cast<ConstantInt>(ix)){ off+=ci->getSExtValue()*sc; continue; }
        v.push_back(S(ix)); v.push_back(widthOf(ix->getType())); v.push_back(sc); }
      in.x=f.aux.size(); f.aux.push_back(off); in.n=v.size()/3; for(i64 q:v) f.aux.push_back(q); return; }
    case Instruction::Load: case Instruction::Store: {
      bool ld=I.getOpcode()==Instruction::Load; Type*VT=ld?T:I.getOperand(0)->getType();
      in.op=ld?I_LOAD:I_STORE; if(ld) in.a=S(cast<LoadInst>(I).getPointerOperand()); else { in.a=S(cast<StoreInst>(I).getPointerOperand()); in.b=S(I.getOperand(0)); }
      in.y=ld?cast<LoadInst>(I).getAlign().value():cast<StoreInst>(I).getAlign().value();
      std::vector<std::pair<u64,u8>> fs; flatSizes(VT,0,fs); in.n=fs.size(); bool uni=true; for(size_t k=0;k<fs.size();k++) if(fs[k].second!=8||fs[k].first!=8*k) uni=false;
      if(uni){ in.w=64; in.x=-1; in.w2=8*fs.size(); }
      else { in.w=0; in.x=f.aux.size(); u64 tot=0; for(auto&p:fs){ f.aux.push_back(p.first); f.aux.push_back(p.second); tot=std::max<u64>(tot,p.first+p.second);} in.w2=tot; in.c=VT->getScalarType()->isIntegerTy(1)?1:0; }
      if(ld) { in.c|= VT->getScalarType()->isDoubleTy()?2:0; }
      return; }
    case Instruction::Alloca: { auto&A=cast<AllocaInst>(I); in.op=I_ALLOCA; in.a=A.isArrayAllocation()?S(A.getArraySize()):-1; in.x=A.isArrayAllocation()?1:0; in.w2=0; in.y=A.getAlign().value(); in.b=(i32)f.aux.size(); f.aux.push_back(DL->getTypeAllocSize(A.getAllocatedType())); return; }
    case Instruction::Trunc: in.op=I_TRUNC; in.a=S(I.getOperand(0)); in.w2=widthOf(I.getOperand(0)->getType()); return;
    case Instruction::ZExt: in.op=I_ZEXT; in.a=S(I.getOperand(0)); in.w2=widthOf(I.getOperand(0)->getType()); return;
    case Instruction::SExt: in.op=I_SEXT; in.a=S(I.getOperand(0)); in.w2=widthOf(I.getOperand(0)->getType()); return;
    case Instruction::SIToFP: in.op=I_SITOFP; in.a=S(I.getOperand(0)); in.w2=widthOf(I.getOperand(0)->getType()); return;
    case Instruction::UIToFP: in.op=I_UITOFP; in.a=S(I.getOperand(0)); in.w2=widthOf(I.getOperand(0)->getType()); return;
    case Instruction::FPToSI: in.op=I_FPTOSI; in.a=S(I.getOperand(0)); in.w2=widthOf(I.getOperand(0)->getType()); return;
    case Instruction::FPToUI: in.op=I_FPTOUI; in.a=S(I.getOperand(0)); in.w2=widthOf(I.getOperand(0)->getType()); return;
    case Instruction::FPTrunc: in.op=T->getScalarType()->isFloatTy()?I_FPTRUNC:I_COPY; in.a=S(I.getOperand(0)); return;
    case Instruction::FPExt: in.op=I.getOperand(0)->getType()->getScalarType()->isFloatTy()?I_FPEXT:I_COPY; in.a=S(I.getOperand(0)); return;
    case Instruction::PtrToInt: in.op=widthOf(T)==64?I_COPY:I_TRUNC; in.w2=64; in.a=S(I.getOperand(0)); return;
    case Instruction::IntToPtr: in.op=I_COPY; in.a=S(I.getOperand(0)); return;
    case Instruction::AddrSpaceCast: in.op=I_COPY; in.a=S(I.getOperand(0)); return;
    case Instruction::BitCast: { Type*ST=I.getOperand(0)->getType(); in.a=S(I.getOperand(0)); in.w2=widthOf(ST); if(widthOf(T)==in.w2&&lanesOf(ST)==lanesOf(T)) in.op=I_COPY; else { in.op=I_BCGEN; in.x=lanesOf(ST); } return; }
    case Instruction::Freeze: in.op=I_COPY; in.a=S(I.getOperand(0)); return;
    case Instruction::ExtractElement: in.op=I_EXTRACTEL; in.a=S(I.getOperand(0)); in.b=S(I.getOperand(1)); in.x=lanesOf(I.getOperand(0)->getType()); return;
    case Instruction::InsertElement: in.op=I_INSERTEL; in.a=S(I.getOperand(0)); in.b=S(I.getOperand(1)); in.c=S(I.getOperand(2)); return;
    case Instruction::ShuffleVector: { auto&sv=cast<ShuffleVectorInst>(I); in.op=I_SHUFFLE; in.a=S(I.getOperand(0)); in.b=S(I.getOperand(1)); in.c=lanesOf(I.getOperand(0)->getType()); in.x=f.aux.size(); for(int m:sv.getShuffleMask()) f.aux.push_back(m); return; }
    case Instruction::ExtractValue: { in.op=I_EXTRACTV; in.a=S(I.getOperand(0)); int off=0; Type*t=I.getOperand(0)->getType(); for(unsigned ix:cast<ExtractValueInst>(I).indices()){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned k=0;k<ix;k++) off+=lanesOf(st->getElementType(k)); t=st->getElementType(ix);} else { t=cast<ArrayType>(t)->getElementType(); off+=ix*lanesOf(t);} } in.x=off; return; }
    case Instruction::InsertValue: { in.op=I_INSERTV; in.a=S(I.getOperand(0)); in.b=S(I.getOperand(1)); int off=0; Type*t=T; for(unsigned ix:cast<InsertValueInst>(I).indices()){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned k=0;k<ix;k++) off+=lanesOf(st->getElementType(k)); t=st->getElementType(ix);} else { t=cast<ArrayType>(t)->getElementType(); off+=ix*lanesOf(t);} } in.x=off; in.c=lanesOf(I.getOperand(1)->getType()); return; }
    case Instruction::Ret: { auto&r=cast<ReturnInst>(I); if(r.getReturnValue()){ in.op=I_RET; in.a=S(r.getReturnValue()); in.n=lanesOf(r.getReturnValue()->getType()); } else in.op=I_RETVOID; return; }
    case Instruction::Unreachable: in.op=I_UNREACH; return;
    case Instruction::Resume: in.op=I_RESUME; in.a=S(I.getOperand(0)); return;
    case Instruction::LandingPad: { auto&l=cast<LandingPadInst>(I); in.op=I_LPAD; in.w2=l.isCleanup(); in.x=f.aux.size(); f.aux.push_back(0); i32 at=in.x; i32 n=0; for(unsigned k=0;k<l.getNumClauses();k++){ if(!l.isCatch(k)){ f.aux.push_back(-1); n++; continue; } std::vector<u64> v; constLanes(cast<Constant>(l.getClause(k)),v); f.aux.push_back((i64)v[0]); n++; } f.aux[at]=n; return; }
    case Instruction::Fence: in.op=I_NOP; return;
    case Instruction::AtomicCmpXchg: { in.op=I_CMPXCHG; in.a=S(I.getOperand(0)); in.b=S(I.getOperand(1)); in.c=S(I.getOperand(2)); in.w=widthOf(I.getOperand(1)->getType()); return; }
    case Instruction::AtomicRMW: { in.op=I_ATOMICRMW; in.a=S(I.getOperand(0)); in.b=S(I.getOperand(1)); in.w=widthOf(I.getOperand(1)->getType()); in.x=cast<AtomicRMWInst>(I).getOperation(); return; }
    case Instruction::Call: case Instruction::Invoke: {
      auto&C=cast<CallBase>(I);
      if(C.isInlineAsm()){ auto*ia=cast<InlineAsm>(C.getCalledOperand()); std::string s=ia->getAsmString(); 
        in.x=f.aux.size(); f.aux.push_back(C.arg_size()); for(auto&a:C.args()) f.aux.push_back(S(a));
        if(s.find("cpuid")!=std::string::npos) in.op=I_CPUID; else if(s.find("xgetbv")!=std::string::npos) in.op=I_XGETBV; else if(s.empty()) in.op=I_ASMNOP; else unsup("inline asm "+s); return; }
      Function*cf=C.getCalledFunction();
      if(cf&&cf->isIntrinsic()){
        std::string n=cf->getName().str(); 
        auto has=[&](const char*p){ return n.rfind(p,0)==0; };
        if(has("llvm.lifetime")||has("llvm.experimental.noalias")||has("llvm.dbg")||has("llvm.assume")||has("llvm.x86.avx.vzero")||has("llvm.invariant")||has("llvm.donothing")||has("llvm.prefetch")||has("llvm.stackrestore")||has("llvm.x86.sse2.pause")||has("llvm.x86.sse.sfence")||has("llvm.x86.sse2.mfence")||has("llvm.x86.sse2.lfence")||has("llvm.fake.use")||has("llvm.annotation")||has("llvm.var.annotation")) { in.op=I_NOP; return; }
        if(has("llvm.is.constant")){ in.op=I_COPY; in.a=-1-(i32)f.pool.size(); f.pool.push_back(0); return; }
        if(has("llvm.expect")||has("llvm.launder.invariant")||has("llvm.strip.invariant")){ in.op=I_COPY; in.a=S(C.getArgOperand(0)); return; }
        auto a2=[&](IOp o){ in.op=o; in.a=S(C.getArgOperand(0)); in.b=S(C.getArgOperand(1)); };
        if(has("llvm.x86.sse3.addsub.pd")||has("llvm.x86.avx.addsub.pd")){ a2(I_ADDSUB); return; }
        if(has("llvm.x86.sse3.hadd.pd")||has("llvm.x86.avx.hadd.pd")){ a2(I_HADD); return; }
        if(has("llvm.x86.sse3.hsub.pd")||has("llvm.x86.avx.hsub.pd")){ a2(I_HSUB); return; }
        if(has("llvm.fmuladd")||has("llvm.fma.")){ in.op=has("llvm.fma.")?I_FMA:I_FMULADD; in.a=S(C.getArgOperand(0)); in.b=S(C.getArgOperand(1)); in.c=S(C.getArgOperand(2)); return; }
        if(has("llvm.smin")){ a2(I_SMIN); return; } if(has("llvm.smax")){ a2(I_SMAX); return; } if(has("llvm.umin")){ a2(I_UMIN); return; } if(has("llvm.umax")){ a2(I_UMAX); return; }
        if(has("llvm.abs")){ in.op=I_ABS; in.a=S(C.getArgOperand(0)); return; }
      }
      in.op=isa<InvokeInst>(I)?I_INVOKE:I_CALL;
      in.x=f.aux.size(); std::vector<i64> v; int tot=0; for(auto&a:C.args()){ if(a->getType()->isMetadataTy()){ continue; } int n=lanesOf(a->getType()); v.push_back(S(a)); v.push_back(n); tot+=n; }
      f.aux.push_back(v.size()/2); f.aux.push_back(tot); for(i64 q:v) f.aux.push_back(q);
      const Value*callee=C.getCalledOperand()->stripPointerCasts();
      if(auto*ga=dyn_cast<GlobalAlias>(callee)) callee=ga->getAliaseeObject();
      if(auto*F2=dyn_cast<Function>(callee)){ in.a=funcIndex(const_cast<Function*>(F2)); in.y=0; } else { in.a=S(C.getCalledOperand()); in.y=1; }
      if(T->isVoidTy()){ in.n=0; }
      if(in.op==I_INVOKE){ auto&iv=cast<InvokeInst>(I); in.b=edgeOf(I.getParent(),iv.getNormalDest()); in.c=edgeOf(I.getParent(),iv.getUnwindDest()); }
      return; }
    default: { std::string s; raw_string_ostream os(s); I.print(os); unsup("instruction "+s); }
  }
}
