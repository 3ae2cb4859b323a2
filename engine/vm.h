// Symbolic interpreter for LLVM IR (subset produced by clang for this code base).
#pragma once
#include "dag.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3++.h>
#include <map>
#include <set>
#include <functional>
#include <memory>
#include <deque>

struct Violation { std::string kind, msg; };
struct AbstractBranch {};                     // control flow depends on the data in an abstract run
struct PathEnd { std::string why; };          // path abandoned (infeasible or out of budget)

enum ObjKind : u8 { OK_GCONST, OK_GMUT, OK_STACK, OK_HEAP, OK_USER, OK_EXC };
struct Obj { u8*mem; u64 size, base; ObjKind kind; bool alive; u32 align; u32 tag; std::string*name; };

static const u64 STK = 1ull<<61, FNB = 1ull<<60; static const int OSH=36; static const u64 OBASE = 1ull<<20;

enum IOp : uint16_t {
  I_NOP, I_ADD,I_SUB,I_MUL,I_UDIV,I_SDIV,I_UREM,I_SREM,I_SHL,I_LSHR,I_ASHR,I_AND,I_OR,I_XOR,
  I_FADD,I_FSUB,I_FMUL,I_FDIV,I_FREM,I_FNEG, I_ICMP,I_FCMP,I_SELECT,I_BR,I_CBR,I_SWITCH,I_GEP,I_LOAD,I_STORE,I_ALLOCA,
  I_TRUNC,I_ZEXT,I_SEXT,I_SITOFP,I_UITOFP,I_FPTOSI,I_FPTOUI,I_COPY,I_FPTRUNC,I_FPEXT,I_BCGEN,
  I_EXTRACTEL,I_INSERTEL,I_SHUFFLE,I_EXTRACTV,I_INSERTV,I_CALL,I_INVOKE,I_LPAD,I_RESUME,I_UNREACH,I_RET,I_RETVOID,
  I_ADDSUB,I_HADD,I_HSUB,I_FMA,I_FMULADD,I_SMIN,I_SMAX,I_UMIN,I_UMAX,I_ABS,I_CPUID,I_XGETBV,I_ASMNOP,I_CMPXCHG,I_ATOMICRMW,
  I_BLOCKMARK
};
struct Inst { uint16_t op; uint16_t w; uint16_t n; uint16_t w2; i32 d,a,b,c; i32 x; u32 y; const llvm::Instruction* src; };
struct Copy { i32 d,s,n; };
struct Edge { i32 pc; i32 c0; i32 nc; };
struct Func {
  llvm::Function*F=nullptr; bool decoded=false; std::vector<Inst> code; std::vector<u64> pool; std::vector<Edge> edges; std::vector<Copy> copies;
  std::vector<i64> aux; i32 nslots=0; std::vector<i32> argSlot, argLanes; i32 retLanes=0; int maxPhi=0;
  int ext=-1; std::string name; u64 calls=0; u64 icount=0; u32 id=0;
  std::vector<std::vector<u8>> laneSizes;
};

struct VM;
struct AccessHook { virtual ~AccessHook(){}; virtual void access(u64 addr,u32 size,bool write,u32 align,const Inst*in)=0; virtual void callEnter(Func&){}; };

struct VM {
  llvm::LLVMContext ctx; std::unique_ptr<llvm::Module> M; const llvm::DataLayout*DL=nullptr;
  Dag g; z3::context z; std::vector<z3::expr> iexp; bool useSInt=false;
  std::vector<Obj> objs; std::vector<Obj> stk; size_t stkTop=0; std::vector<u8> stkMem; size_t stkMemTop=0;
  std::unordered_map<const llvm::GlobalVariable*,u64> gaddr; std::unordered_map<const llvm::Function*,u32> fidx; std::deque<Func> funcs; 
  std::vector<u64> regStack; size_t regTop=0;
  enum { SY_LOCK, SY_UNLOCK, SY_READ, SY_WRITE }; std::function<void(int,u64)> syncHook; // inter-thread synchronisation (guards, mutexes)
  u64 icount=0, ibudget=~0ull; AccessHook*hook=nullptr;
  std::vector<Func*> callstack;
  std::unordered_map<u64,std::pair<u32,u64>> ishadow; // addr -> (bytes, boxed)
  // exceptions
  bool unwinding=false; u64 excObj=0, excType=0; std::vector<std::pair<u64,u64>> caught; std::map<u64,u64> excTypes;
  std::map<u64,u32> typeIds;
  // heap statistics / fault injection
  u64 nallocs=0; std::function<bool(u64,u64)> allocFails; std::set<u64> liveHeap; 
  struct AllocRec{u64 id; u64 size; z3::expr*sz; u32 align;}; 
  bool junkUninit=true; u64 heapFillVars=0;
  // forking
  std::vector<int> decisions; size_t dpos=0; std::vector<std::vector<int>> worklist; std::vector<z3::expr> pc; z3::solver* fsolver=nullptr; u64 forkQueries=0; double solverTime=0; int maxDecisions=100000;
  struct RealCond { u32 node; int pred; bool val; }; // linear form of node (a-b) compared with 0
  std::vector<RealCond> rpc; std::function<int(u32,int)> decideReal; // returns bitmask of feasible outcomes (1 false,2 true)
  // omp
  int ompMode=0; // 0: one thread, 1: every iteration its own chunk
  int parDepth=0; struct LoopSt; std::function<void(int ev,u64 a,u64 b,u64 c)> ompHook; // ev: 1 region enter,2 exit,3 loop begin,4 iter,5 loop end,6 barrier,7 single begin,8 single end
  u32 curThreadObjMark=0;
  std::set<std::string> usedExternals; std::set<std::string> funcsRun;
  typedef std::function<bool(VM&,const Inst&,const u64*,int,u64*)> Ext; // args are lanes; returns false on unwinding
  std::vector<Ext> exts; std::map<std::string,int> extIdx; std::vector<std::string> extNames;
  std::function<u64(int leaf,int reg)> cpuidHook; std::function<u64(int)> xgetbvHook; 
  std::function<bool(VM&,Func&,const u64*,int,u64*,bool&)> callOverride; // stub functions by name
  std::set<u32> overridden;
  std::function<void(const std::string&)> onUndefPtr;
  std::function<u64(VM&,u64 boxedAddr,u32 sz,int lanesIdx,const Inst&)> symLoad; std::function<void(VM&,u64,u32,u64,const Inst&)> symStore;
  u64 writesToGlobals=0; std::set<std::string> globalsWritten; bool guardHeld=false; int guardDepth=0;

  VM(){ stk.resize(1<<20); stkMem.resize(64<<20); regStack.resize(8<<20); initExts(); objs.resize(1); objs[0]={nullptr,0,0,OK_GCONST,false,1,0,nullptr}; }

  [[noreturn]] void fail(const std::string&k,const std::string&m){ 
    std::string s=m; s+=" [in"; int c=0; for(size_t i=callstack.size();i-->0&&c<4;c++) s+=" "+shortName(callstack[i]->name)+(i?" <-":""); s+="]";
    throw Violation{k,s}; }
  [[noreturn]] void unsup(const std::string&m){ std::string s="unsupported: "+m; if(!callstack.empty()) s+=" in "+shortName(callstack.back()->name); throw EngineError(s); }
  static std::string shortName(const std::string&n){ std::string d=llvm::demangle(n); if(d.size()>140) d=d.substr(0,140)+"..."; return d; }

  void load(const std::string&path){
    auto mb=llvm::MemoryBuffer::getFile(path); if(!mb) throw EngineError("cannot read "+path);
    auto m=llvm::getOwningLazyBitcodeModule(std::move(*mb),ctx); if(!m) throw EngineError("bad bitcode "+path);
    M=std::move(*m); DL=&M->getDataLayout();
    for(auto&F:M->functions()) funcIndex(&F);
  }
  u32 funcIndex(llvm::Function*F){ auto it=fidx.find(F); if(it!=fidx.end()) return it->second; funcs.emplace_back(); Func&f=funcs.back(); f.F=F; f.name=F->getName().str(); f.id=funcs.size()-1; fidx[F]=f.id; return f.id; }
  Func& func(const std::string&n){ auto*F=M->getFunction(n); if(!F) throw EngineError("no function "+n); return funcs[funcIndex(F)]; }

  // ---------- objects
  u64 newObj(u64 size,ObjKind k,u32 align,const std::string&name,bool uninit){
    Obj o; o.size=size; o.kind=k; o.alive=true; o.align=align?align:1; o.tag=0; o.name=new std::string(name);
    u64 id=objs.size(); o.base=(id<<OSH)+OBASE+o.align; // odd multiple of its guaranteed alignment
    if(size>(8ull<<30)) throw EngineError("object too large to materialise");
    o.mem=(u8*)calloc(1,size+16); if(!o.mem) throw EngineError("host out of memory");
    if(uninit){ u64 q=UNINIT64; for(u64 i=0;i+8<=size+8;i+=8) memcpy(o.mem+i,&q,8); }
    objs.push_back(o); return o.base; }
  Obj* objOf(u64 addr){
    if(addr&STK){ u64 id=(addr&~STK)>>OSH; if(id<stkTop) return &stk[id]; return nullptr; }
    u64 id=addr>>OSH; if(id<objs.size()&&id>0) return &objs[id]; return nullptr; }
  void freeObj(u64 addr){ Obj*o=objOf(addr); o->alive=false; ::free(o->mem); o->mem=nullptr; }
  std::string where(u64 addr){
    char b[200]; Obj*o=objOf(addr); if(!o){ snprintf(b,200,"address 0x%llx",(unsigned long long)addr); return b; }
    snprintf(b,200,"%s%s (size %llu) offset %lld",o->alive?"":"freed ",o->name?o->name->c_str():"object",(unsigned long long)o->size,(long long)(addr-o->base)); return b; }
  inline u8* ptr(u64 addr,u64 sz,bool write,const Inst*in=nullptr){
    Obj*o;
    if(addr&STK){ u64 id=(addr&~STK)>>OSH; if(id>=stkTop) fail("memory","access through a dangling or invalid stack pointer"); o=&stk[id]; }
    else { u64 id=addr>>OSH; if(id>=objs.size()||id==0) fail("memory",std::string(write?"write":"read")+" through invalid pointer (null or garbage): "+where(addr)); o=&objs[id]; }
    if(!o->alive) fail("memory",std::string(write?"write":"read")+" of freed memory: "+where(addr));
    u64 off=addr-o->base; if(off>o->size||o->size-off<sz) fail("memory",std::string("out-of-bounds ")+(write?"write":"read")+" of "+std::to_string(sz)+" bytes: "+where(addr));
    if(write){ if(o->kind==OK_GCONST) fail("memory","write to constant memory: "+where(addr)); if(o->kind==OK_GMUT){ noteGlobalWrite(*o,addr);} }
    return o->mem+off; }
  std::function<void(Obj&,u64)> globalWriteHook;
  void noteGlobalWrite(Obj&o,u64 addr){ if(globalWriteHook) globalWriteHook(o,addr); }
  u64 userBuf(u64 size,u32 align,const std::string&name,bool uninit=true){ return newObj(size,OK_USER,align,name,uninit); }
  u64 rd64(u64 a){ u64 v; memcpy(&v,ptr(a,8,false),8); return v; }
  void wr64(u64 a,u64 v){ memcpy(ptr(a,8,true),&v,8); }

  // ---------- globals
  u64 globalAddr(const llvm::GlobalVariable*G){
    auto it=gaddr.find(G); if(it!=gaddr.end()) return it->second;
    llvm::GlobalVariable*g=const_cast<llvm::GlobalVariable*>(G);
    if(!G->hasInitializer()){ // external object, e.g. vtables of libstdc++ type_info
      u64 a=newObj(64,OK_GMUT,16,"extern "+G->getName().str(),false); gaddr[G]=a; return a; }
    u64 sz=DL->getTypeAllocSize(G->getValueType());
    u64 a=newObj(sz,OK_GMUT,std::max<u64>(1,G->getAlign()?G->getAlign()->value():1),"global "+shortName(G->getName().str()),false); gaddr[G]=a;
    u64 id=a>>OSH; initConst(g->getInitializer(),objs[id].mem); // note: may create more objects
    if(G->isConstant()) objs[id].kind=OK_GCONST;
    return a; }
  void initConst(const llvm::Constant*C,u8*dst0){
    // dst pointers stay valid: each object has its own malloc block
    u8*dst=dst0; using namespace llvm;
    if(isa<ConstantAggregateZero>(C)||isa<UndefValue>(C)) return;
    if(auto*CS=dyn_cast<ConstantStruct>(C)){ auto*L=DL->getStructLayout(CS->getType()); for(unsigned i=0;i<CS->getNumOperands();i++) initConst(CS->getOperand(i),dst+L->getElementOffset(i)); return; }
    if(auto*CA=dyn_cast<ConstantArray>(C)){ u64 es=DL->getTypeAllocSize(CA->getType()->getElementType()); for(unsigned i=0;i<CA->getNumOperands();i++) initConst(CA->getOperand(i),dst+i*es); return; }
    if(auto*CD=dyn_cast<ConstantDataSequential>(C)){ StringRef s=CD->getRawDataValues(); memcpy(dst,s.data(),s.size()); return; }
    if(auto*CV=dyn_cast<ConstantVector>(C)){ u64 es=DL->getTypeAllocSize(CV->getType()->getElementType()); for(unsigned i=0;i<CV->getNumOperands();i++) initConst(CV->getOperand(i),dst+i*es); return; }
    std::vector<u64> l; constLanes(C,l); u64 sz=DL->getTypeStoreSize(C->getType()); memcpy(dst,&l[0],std::min<u64>(sz,8)); }

  // ---------- types
  int lanesOf(llvm::Type*T){ using namespace llvm;
    if(T->isVoidTy()) return 0;
    if(auto*V=dyn_cast<FixedVectorType>(T)) return V->getNumElements()*lanesOf(V->getElementType());
    if(auto*S=dyn_cast<StructType>(T)){ int n=0; for(auto*e:S->elements()) n+=lanesOf(e); return n; }
    if(auto*A=dyn_cast<ArrayType>(T)) return A->getNumElements()*lanesOf(A->getElementType());
    if(T->isIntegerTy()&&T->getIntegerBitWidth()>64) unsup("integer wider than 64 bits");
    return 1; }
  int widthOf(llvm::Type*T){ T=T->getScalarType(); if(T->isIntegerTy()) return T->getIntegerBitWidth(); if(T->isFloatTy()) return 32; return 64; }
  void flatSizes(llvm::Type*T,u64 off,std::vector<std::pair<u64,u8>>&o){ using namespace llvm;
    if(auto*V=dyn_cast<FixedVectorType>(T)){ u64 es=DL->getTypeStoreSize(V->getElementType()); for(unsigned i=0;i<V->getNumElements();i++) flatSizes(V->getElementType(),off+i*es,o); return; }
    if(auto*S=dyn_cast<StructType>(T)){ auto*L=DL->getStructLayout(S); for(unsigned i=0;i<S->getNumElements();i++) flatSizes(S->getElementType(i),off+L->getElementOffset(i),o); return; }
    if(auto*A=dyn_cast<ArrayType>(T)){ u64 es=DL->getTypeAllocSize(A->getElementType()); for(unsigned i=0;i<A->getNumElements();i++) flatSizes(A->getElementType(),off+i*es,o); return; }
    u64 s=DL->getTypeStoreSize(T); if(T->isX86_FP80Ty()) s=8; if(s>8) unsup("scalar wider than 64 bits"); o.push_back({off,(u8)s}); }
  static inline u64 mask(u64 v,int w){ return w>=64?v:(v&((1ull<<w)-1)); }
  static inline i64 sx(u64 v,int w){ return w>=64?(i64)v:((i64)(v<<(64-w))>>(64-w)); }

  void constLanes(const llvm::Constant*C,std::vector<u64>&o){ using namespace llvm;
    Type*T=C->getType();
    if(auto*ci=dyn_cast<ConstantInt>(C)){ if(ci->getBitWidth()>64) unsup("wide const"); o.push_back(ci->getZExtValue()); return; }
    if(auto*cf=dyn_cast<ConstantFP>(C)){ if(T->isDoubleTy()||T->isFloatTy()) o.push_back(cf->getValueAPF().bitcastToAPInt().getZExtValue()); else { bool li; APFloat f=cf->getValueAPF(); f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); o.push_back(f.bitcastToAPInt().getZExtValue()); } return; }
    if(isa<ConstantPointerNull>(C)){ o.push_back(0); return; }
    if(isa<UndefValue>(C)){ bool fp=T->getScalarType()->isDoubleTy(); int n=lanesOf(T); for(int i=0;i<n;i++) o.push_back(fp?0:0); return; }
    if(isa<ConstantAggregateZero>(C)){ int n=lanesOf(T); for(int i=0;i<n;i++) o.push_back(0); return; }
    if(auto*cd=dyn_cast<ConstantDataVector>(C)){ for(unsigned i=0;i<cd->getNumElements();i++) constLanes(cd->getElementAsConstant(i),o); return; }
    if(auto*cd=dyn_cast<ConstantDataArray>(C)){ for(unsigned i=0;i<cd->getNumElements();i++) constLanes(cd->getElementAsConstant(i),o); return; }
    if(isa<ConstantVector>(C)||isa<ConstantStruct>(C)||isa<ConstantArray>(C)){ for(auto&op:C->operands()) constLanes(cast<Constant>(op),o); return; }
    if(auto*F=dyn_cast<Function>(C)){ o.push_back(FNB|((u64)funcIndex(const_cast<Function*>(F))<<4)); return; }
    if(auto*G=dyn_cast<GlobalVariable>(C)){ o.push_back(globalAddr(G)); return; }
    if(auto*GA=dyn_cast<GlobalAlias>(C)){ constLanes(GA->getAliasee(),o); return; }
    if(auto*CE=dyn_cast<ConstantExpr>(C)){
      if(CE->getOpcode()==Instruction::GetElementPtr){ APInt off(64,0); auto*G=cast<GEPOperator>(CE); if(!G->accumulateConstantOffset(*DL,off)) unsup("gep constexpr"); std::vector<u64> b; constLanes(cast<Constant>(G->getPointerOperand()),b); o.push_back(b[0]+off.getSExtValue()); return; }
      if(CE->isCast()){ std::vector<u64> b; constLanes(CE->getOperand(0),b); if(CE->getOpcode()==Instruction::Trunc) b[0]=mask(b[0],widthOf(T)); for(u64 v:b) o.push_back(v); return; }
      if(CE->getOpcode()==Instruction::Sub||CE->getOpcode()==Instruction::Add){ std::vector<u64> a,b; constLanes(CE->getOperand(0),a); constLanes(CE->getOperand(1),b); u64 r=CE->getOpcode()==Instruction::Sub?a[0]-b[0]:a[0]+b[0]; o.push_back(mask(r,widthOf(T))); return; }
    }
    std::string s; raw_string_ostream os(s); C->print(os); unsup("constant "+s); }

#include "decode.inc"
#include "exec.inc"
#include "ext.inc"
};
