// ---- external functions, intrinsics, exceptions, OpenMP runtime model (included inside struct VM)
std::vector<u8> ext_is_omp; int ompAct=0; u64 loopCounter=0; int hwThreads=4; u64 nfrees=0; bool inParallel()const{return parDepth>0;}
void addExt(const std::string&n,Ext e,bool omp=false){ extIdx[n]=exts.size(); extNames.push_back(n); ext_is_omp.push_back(omp); exts.push_back([this,n,e](VM&v,const Inst&i,const u64*a,int k,u64*r){ usedExternals.insert(n); return e(v,i,a,k,r); }); }

u64 typeInfo(const char*n){ auto*G=M->getNamedGlobal(n); if(G) return globalAddr(G); static std::map<std::string,u64> extra; auto it=extra.find(n); if(it!=extra.end()) return it->second; return extra[n]=newObj(16,OK_GCONST,16,n,false); }
bool throwStd(const char*ti){ u64 o=newObj(64,OK_EXC,16,"exception",false); excTypes[o]=typeInfo(ti); unwinding=true; excObj=o; excType=excTypes[o]; return false; }
std::function<u64(VM&,u64 szLane,u32 align,int kind)> allocHook; // full override (symbolic sizes)
u64 heapAlloc(u64 szLane,u32 align,int kind){ // returns 0 on injected failure
  u64 n=nallocs++;
  if(allocFails&&allocFails(n,szLane)) return 0;
  if(allocHook) return allocHook(*this,szLane,align,kind);
  if(isSInt(szLane)) unsup("symbolic allocation size");
  if((i64)szLane<0||szLane>(6ull<<30)) fail("alloc","implausible allocation size "+std::to_string((i64)szLane));
  u64 a=newObj(szLane,OK_HEAP,align,"heap block #"+std::to_string(n)+" ("+std::to_string(szLane)+" bytes)",true);
  objs[a>>OSH].tag=kind; liveHeap.insert(a); return a; }
void heapFree(u64 p,int kind){
  if(p==0) return; if(isSInt(p)||p==UNINIT64) fail("memory","free of an uninitialised pointer");
  Obj*o=objOf(p); if(!o||(p&STK)||o->kind!=OK_HEAP) fail("memory","free of a pointer that was not allocated: "+where(p));
  if(!o->alive) fail("memory","double free of "+*o->name); if(o->base!=p) fail("memory","free of an interior pointer: "+where(p));
  if((int)o->tag!=kind) fail("memory","allocation and deallocation functions do not match for "+*o->name);
  nfrees++; liveHeap.erase(p); freeObj(p); if(freeHook) freeHook(p); }
std::function<void(u64)> freeHook;
void copyMem(u64 d,u64 s,u64 n){ if(!n) return; const u8*ps=ptr(s,n,false); u8*pd=ptr(d,n,true); if(hook){ for(u64 o=0;o<n;o+=8){ u32 k=(u32)std::min<u64>(8,n-o); hook->access(s+o,k,false,1,nullptr); hook->access(d+o,k,true,1,nullptr);} }
  if(!ishadow.empty()){ std::vector<std::pair<u64,std::pair<u32,u64>>> mv; for(auto&kv:ishadow) if(kv.first>=s&&kv.first+kv.second.first<=s+n) mv.push_back({kv.first-s+d,kv.second}); shadowClear(d,n); for(auto&x:mv) ishadow[x.first]=x.second; }
  memmove(pd,ps,n); }
void setMem(u64 d,u8 v,u64 n){ if(!n) return; u8*pd=ptr(d,n,true); if(hook) for(u64 o=0;o<n;o+=8) hook->access(d+o,(u32)std::min<u64>(8,n-o),true,1,nullptr); if(!ishadow.empty()) shadowClear(d,n); memset(pd,v,n); }
u64 fun1(const char*nm,double(*fn)(double),u64 a){ if(special(a)) a=fixU(a); if(isSym(a)) return g.fun1(nm,a); if(isSInt(a)) unsup("math on symbolic int"); return asU(fn(asD(a))); }
u64 fun2(const char*nm,double(*fn)(double,double),u64 a,u64 b){ if(special(a)) a=fixU(a); if(special(b)) b=fixU(b); if(isSym(a)||isSym(b)) return g.fun2(nm,a,b); return asU(fn(asD(a),asD(b))); }

bool intrinsic(Func&cf,const Inst&in,const u64*a,int na,u64*r){
  const std::string&n=cf.name; auto has=[&](const char*p){ return n.rfind(p,0)==0; };
  if(has("llvm.memcpy")||has("llvm.memmove")){ if(isSInt(a[2])||isSInt(a[0])||isSInt(a[1])) unsup("symbolic memcpy"); copyMem(a[0],a[1],a[2]); return true; }
  if(has("llvm.memset")){ if(isSInt(a[2])||isSInt(a[0])){ if(symMemset){ symMemset(a[0],(u8)a[1],a[2]); return true; } unsup("symbolic memset"); } setMem(a[0],(u8)a[1],a[2]); return true; }
  struct M1{const char*n;const char*s;double(*f)(double);}; static const M1 m1[]={{"llvm.sqrt","sqrt",::sqrt},{"llvm.sin.","sin",::sin},{"llvm.cos.","cos",::cos},{"llvm.fabs","fabs",::fabs},{"llvm.floor","floor",::floor},{"llvm.ceil","ceil",::ceil},{"llvm.trunc","trunc",::trunc},{"llvm.rint","rint",::rint},{"llvm.nearbyint","rint",::nearbyint},{"llvm.round.","round",::round},{"llvm.exp.","exp",::exp},{"llvm.log.","log",::log},{"llvm.log2","log2",::log2},{"llvm.x86.sse2.sqrt.pd","sqrt",::sqrt},{"llvm.x86.avx.sqrt.pd","sqrt",::sqrt}};
  for(auto&m:m1) if(has(m.n)){ for(int l=0;l<na;l++) r[l]=fun1(m.s,m.f,a[l]); return true; }
  if(has("llvm.copysign")||has("llvm.pow.")||has("llvm.maxnum")||has("llvm.minnum")){ int h=na/2; for(int l=0;l<h;l++) r[l]=has("llvm.pow")?fun2("pow",::pow,a[l],a[l+h]):has("llvm.copysign")?fun2("copysign",::copysign,a[l],a[l+h]):has("llvm.max")?fun2("fmax",::fmax,a[l],a[l+h]):fun2("fmin",::fmin,a[l],a[l+h]); return true; }
  if(has("llvm.eh.typeid.for")){ r[0]=typeId(a[0]); return true; }
  if(has("llvm.trap")||has("llvm.ubsantrap")) fail("ub","trap executed");
  if(has("llvm.stacksave")){ r[0]=0; return true; }
  if(has("llvm.objectsize")){ r[0]=~0ull; return true; }
  if(has("llvm.ctpop")){ r[0]=__builtin_popcountll(a[0]); return true; }
  if(has("llvm.ctlz")){ if(isSInt(a[0])){ z3::expr x=bv(a[0],in.w); z3::expr e=z.bv_val(in.w,in.w); for(int k=0;k<in.w;k++) e=z3::ite(x.extract(k,k)==z.bv_val(1,1),z.bv_val(in.w-1-k,in.w),e); r[0]=boxI(e); return true; } int c=0; for(int k=in.w-1;k>=0&&!((a[0]>>k)&1);k--) c++; r[0]=c; return true; }
  if(has("llvm.cttz")){ if(isSInt(a[0])){ z3::expr x=bv(a[0],in.w); z3::expr e=z.bv_val(in.w,in.w); for(int k=in.w-1;k>=0;k--) e=z3::ite(x.extract(k,k)==z.bv_val(1,1),z.bv_val(k,in.w),e); r[0]=boxI(e); return true; } int c=0; for(int k=0;k<in.w&&!((a[0]>>k)&1);k++) c++; r[0]=c; return true; }
  if(has("llvm.bswap")){ u64 v=a[0],o=0; for(int k=0;k<in.w/8;k++) o=(o<<8)|((v>>(8*k))&255); r[0]=o; return true; }
  if(has("llvm.fshl")||has("llvm.fshr")){ int w=in.w; int s=a[2]%w; bool L=has("llvm.fshl"); if(isSInt(a[0])||isSInt(a[1])) unsup("symbolic fsh"); if(s==0) r[0]=L?a[0]:a[1]; else r[0]=L?mask((a[0]<<s)|(a[1]>>(w-s)),w):mask((a[0]<<(w-s))|(a[1]>>s),w); return true; }
  if(has("llvm.usub.sat")){ if(isSInt(a[0])||isSInt(a[1])){ z3::expr x=bv(a[0],in.w),y=bv(a[1],in.w); r[0]=boxI(z3::ite(z3::uge(x,y),x-y,z.bv_val(0,in.w))); return true; } for(int l=0;l<na/2;l++) r[l]=a[l]>a[l+na/2]?a[l]-a[l+na/2]:0; return true; }
  if(n.find(".with.overflow")!=std::string::npos){ int w=widthOf(cf.F->getFunctionType()->getParamType(0)); if(isSInt(a[0])||isSInt(a[1])){ z3::expr x=bv(a[0],w),y=bv(a[1],w); if(has("llvm.umul")){ r[0]=boxI(x*y); r[1]=boxBool(!z3::bvmul_no_overflow(x,y,false)); } else if(has("llvm.uadd")){ r[0]=boxI(x+y); r[1]=boxBool(!z3::bvadd_no_overflow(x,y,false)); } else if(has("llvm.smul")){ r[0]=boxI(x*y); r[1]=boxBool(!(z3::bvmul_no_overflow(x,y,true)&&z3::bvmul_no_underflow(x,y))); } else if(has("llvm.sadd")){ r[0]=boxI(x+y); r[1]=boxBool(!(z3::bvadd_no_overflow(x,y,true)&&z3::bvadd_no_underflow(x,y))); } else unsup(n); return true; }
    __int128 x,y,v; if(n[5]=='s'){ x=sx(a[0],w); y=sx(a[1],w);} else { x=a[0]; y=a[1]; } if(n.find("add")!=std::string::npos) v=x+y; else if(n.find("sub")!=std::string::npos) v=x-y; else v=x*y; r[0]=mask((u64)v,w); r[1]= n[5]=='s'? ((__int128)sx(r[0],w)!=v):((__int128)r[0]!=v); return true; }
  if(has("llvm.vector.reduce.fadd")){ u64 s=a[0]; for(int l=1;l<na;l++) s=faddS(s,a[l]); r[0]=s; return true; }
  if(has("llvm.vector.reduce.add")){ u64 s=0; for(int l=0;l<na;l++) s+=a[l]; r[0]=mask(s,in.w); return true; }
  if(has("llvm.x86.sse41.dppd")){ u64 im=a[4]; u64 p=asU(0.0); if(im&16) p=fmulS(a[0],a[2]); if(im&32) p=faddS(p,fmulS(a[1],a[3])); r[0]=(im&1)?p:0; r[1]=(im&2)?p:0; return true; }
  unsup("intrinsic "+n); }
std::function<void(u64,u8,u64)> symMemset;

// OpenMP worksharing; returns true normally, may rewind pcx for the next chunk
bool ompCall(int e,Func&f,u64*R,int&pcx,const u64*a,int na,u64*r,LoopSnap&snap){
  const std::string&n=extNames[e]; usedExternals.insert(n);
  auto has=[&](const char*p){ return n.rfind(p,0)==0; };
  auto hk=[&](int ev,u64 x,u64 y,u64 zv){ if(ompHook) ompHook(ev,x,y,zv); };
  if(has("__kmpc_for_static_init")){
    bool w8=has("__kmpc_for_static_init_8"); int w=w8?64:32; u64 pl=a[4],pu=a[5],pst=a[6],plast=a[3]; i64 incr=sx(a[7],w), chunk=sx(a[8],w); i64 sched=sx(a[2],32);
    auto rd=[&](u64 p){ u64 v=0; const u8*q=ptr(p,w/8,false); if(w==32&&!ishadow.empty()){ auto it=ishadow.find(p); if(it!=ishadow.end()) return it->second.second; } memcpy(&v,q,w/8); return v; };
    auto wr=[&](u64 p,i64 v){ u64 x=mask((u64)v,w); storeLane(p,w/8,ptr(p,w/8,true),x); };
    u64 lo=rd(pl),hi=rd(pu);
    { u32 one=1; memcpy(ptr(plast,4,true),&one,4); }
    if(isSInt(lo)||isSInt(hi)){ hk(3,0,0,1); wr(pst,1); snap.active=false; return true; } // symbolic bounds: one chunk with everything
    i64 L=sx(lo,w),H=sx(hi,w); sched&=~((1<<29)|(1<<30)); bool chunked=(sched==33||sched==45);
    u64 id=++loopCounter; hk(3,id,(u64)((incr>0?H-L:L-H)/(incr>0?incr:-incr)+1),(u64)(chunked?chunk:0));
    if(ompMode==0||L>H){ if(chunked&&L<=H){ wr(pst,chunk*incr); wr(pu,L+chunk*incr-incr); } else wr(pst,H-L+1); snap.active=false; if(L<=H) hk(4,0,L,H); return true; }
    snap.active=true; snap.pcAfter=pcx; snap.regs.assign(R,R+f.nslots); snap.cur=L; snap.last=H; snap.step=incr; snap.pl=pl;snap.pu=pu;snap.pst=pst;snap.plast=plast; snap.w=w; snap.loopId=id;
    wr(pl,L); wr(pu,L); wr(pst,(i64)1<<29); hk(4,0,L,L); return true; }
  if(has("__kmpc_for_static_fini")){
    if(snap.active){ i64 nx=snap.cur+snap.step; bool more=snap.step>0?nx<=snap.last:nx>=snap.last; if(more){ snap.cur=nx; memcpy(R,snap.regs.data(),8*snap.regs.size()); int w=snap.w; auto wr=[&](u64 p,i64 v){ u64 x=mask((u64)v,w); memcpy(ptr(p,w/8,true),&x,w/8); }; wr(snap.pl,nx); wr(snap.pu,nx); wr(snap.pst,(i64)1<<29); pcx=snap.pcAfter; hk(4,1,nx,nx); return true; } snap.active=false; }
    hk(5,0,0,0); return true; }
  return exts[e](*this,dummyInst,a,na,r); }
struct Disp{ i64 cur,hi,st; int w; bool done; }; std::vector<Disp> disp;

void initExts(){
  auto E=[&](const char*n,Ext e,bool omp=false){ addExt(n,e,omp); };
  #define EXT [](VM&v,const Inst&in,const u64*a,int na,u64*r)->bool
  // memory
  E("posix_memalign",EXT{ if(isSInt(a[1])) v.unsup("symbolic alignment"); u64 p=v.heapAlloc(a[2],(u32)a[1],1); if(!p){ r[0]=12; return true; } v.wr64(a[0],p); r[0]=0; return true; });
  E("aligned_alloc",EXT{ r[0]=v.heapAlloc(a[1],(u32)a[0],1); return true; });
  E("memalign",EXT{ r[0]=v.heapAlloc(a[1],(u32)a[0],1); return true; });
  E("malloc",EXT{ r[0]=v.heapAlloc(a[0],16,1); return true; });
  E("calloc",EXT{ if(isSInt(a[0])||isSInt(a[1])) v.unsup("symbolic calloc"); u64 p=v.heapAlloc(a[0]*a[1],16,1); if(p) v.setMem(p,0,a[0]*a[1]); r[0]=p; return true; });
  E("realloc",EXT{ if(isSInt(a[1])) v.unsup("symbolic realloc"); u64 p=v.heapAlloc(a[1],16,1); if(p&&a[0]){ Obj*o=v.objOf(a[0]); if(!o||!o->alive) v.fail("memory","realloc of an invalid pointer"); v.copyMem(p,a[0],std::min<u64>(a[1],o->size)); v.heapFree(a[0],1);} r[0]=p; return true; });
  E("free",EXT{ v.heapFree(a[0],1); return true; });
  for(const char*nm:{"_Znwm","_ZnwmSt11align_val_t"}) E(nm,EXT{ u64 p=v.heapAlloc(a[0],na>1?(u32)a[1]:16,2); if(!p) return v.throwStd("_ZTISt9bad_alloc"); r[0]=p; return true; });
  for(const char*nm:{"_Znam","_ZnamSt11align_val_t"}) E(nm,EXT{ u64 p=v.heapAlloc(a[0],na>1?(u32)a[1]:16,3); if(!p) return v.throwStd("_ZTISt9bad_alloc"); r[0]=p; return true; });
  for(const char*nm:{"_ZnwmRKSt9nothrow_t"}) E(nm,EXT{ r[0]=v.heapAlloc(a[0],16,2); return true; });
  for(const char*nm:{"_ZnamRKSt9nothrow_t"}) E(nm,EXT{ r[0]=v.heapAlloc(a[0],16,3); return true; });
  for(const char*nm:{"_ZdlPv","_ZdlPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdlPvRKSt9nothrow_t"}) E(nm,EXT{ v.heapFree(a[0],2); return true; });
  for(const char*nm:{"_ZdaPv","_ZdaPvm","_ZdaPvSt11align_val_t","_ZdaPvmSt11align_val_t","_ZdaPvRKSt9nothrow_t"}) E(nm,EXT{ v.heapFree(a[0],3); return true; });
  E("memcpy",EXT{ v.copyMem(a[0],a[1],a[2]); r[0]=a[0]; return true; }); E("memmove",EXT{ v.copyMem(a[0],a[1],a[2]); r[0]=a[0]; return true; }); E("memset",EXT{ v.setMem(a[0],(u8)a[1],a[2]); r[0]=a[0]; return true; });
  E("memcmp",EXT{ const u8*x=v.ptr(a[0],a[2],false),*y=v.ptr(a[1],a[2],false); int c=memcmp(x,y,a[2]); r[0]=mask((u64)(i64)c,32); return true; });
  E("strlen",EXT{ u64 k=0; while(*v.ptr(a[0]+k,1,false)) k++; r[0]=k; return true; });
  // math
  #define M1(n) E(#n,EXT{ r[0]=v.fun1(#n,::n,a[0]); return true; });
  M1(sin) M1(cos) M1(tan) M1(sqrt) M1(fabs) M1(floor) M1(ceil) M1(exp) M1(log) M1(log2) M1(log10) M1(atan) M1(asin) M1(acos) M1(round) M1(trunc) M1(rint) M1(cbrt) M1(exp2) M1(sinh) M1(cosh) M1(tanh)
  #define M2(n) E(#n,EXT{ r[0]=v.fun2(#n,::n,a[0],a[1]); return true; });
  M2(atan2) M2(pow) M2(hypot) M2(fmod) M2(copysign) M2(fmax) M2(fmin) M2(remainder)
  E("sincos",EXT{ u64 s=v.fun1("sin",::sin,a[0]),c=v.fun1("cos",::cos,a[0]); v.wr64(a[1],s); v.wr64(a[2],c); return true; });
  // long double is represented by double (documented approximation, constants only)
  #define ML(n) E(#n "l",EXT{ if(isSym(a[0])) v.unsup(#n "l"); r[0]=asU((double)::n##l((long double)asD(a[0]))); return true; });
  ML(sin) ML(cos) ML(sqrt) ML(fabs)
  E("ldexp",EXT{ if(isSym(a[0])){ r[0]=v.g.mul(a[0],asU(ldexp(1.0,(int)a[1]))); } else r[0]=asU(ldexp(asD(a[0]),(int)a[1])); return true; });
  E("cexp",EXT{ if(a[0]==0){ r[0]=v.fun1("cos",::cos,a[1]); r[1]=v.fun1("sin",::sin,a[1]); return true; } if(isSym(a[0])||isSym(a[1])) v.unsup("cexp"); double m=exp(asD(a[0])); r[0]=asU(m*cos(asD(a[1]))); r[1]=asU(m*sin(asD(a[1]))); return true; });
  E("cabs",EXT{ r[0]=v.fun2("hypot",::hypot,a[0],a[1]); return true; });
  E("carg",EXT{ r[0]=v.fun2("atan2",::atan2,a[1],a[0]); return true; });
  E("__muldc3",EXT{ r[0]=v.fsubS(v.fmulS(a[0],a[2]),v.fmulS(a[1],a[3])); r[1]=v.faddS(v.fmulS(a[0],a[3]),v.fmulS(a[1],a[2])); return true; });
  // C++ runtime
  E("__cxa_allocate_exception",EXT{ r[0]=v.newObj(isSInt(a[0])?64:std::max<u64>(a[0],16),OK_EXC,16,"exception",false); return true; });
  E("__cxa_free_exception",EXT{ return true; });
  E("__cxa_throw",EXT{ v.excTypes[a[0]]=a[1]; v.unwinding=true; v.excObj=a[0]; v.excType=a[1]; return false; });
  E("__cxa_begin_catch",EXT{ v.caught.push_back({a[0],v.excTypes[a[0]]}); v.unwinding=false; r[0]=a[0]; return true; });
  E("__cxa_end_catch",EXT{ if(!v.caught.empty()) v.caught.pop_back(); return true; });
  E("__cxa_rethrow",EXT{ if(v.caught.empty()) v.fail("terminate","rethrow without a caught exception"); auto c=v.caught.back(); v.unwinding=true; v.excObj=c.first; v.excType=c.second; return false; });
  E("_Unwind_Resume",EXT{ v.unwinding=true; v.excObj=a[0]; return false; });
  for(const char*nm:{"_ZSt9terminatev","abort","__cxa_call_terminate","__cxa_call_unexpected"}) E(nm,EXT{ v.fail("terminate","std::terminate/abort is called"); });
  E("exit",EXT{ v.fail("terminate","exit called"); });
  E("__cxa_pure_virtual",EXT{ v.fail("memory","pure virtual call"); });
  E("__assert_fail",EXT{ v.fail("assert","assertion failure"); });
  E("__gxx_personality_v0",EXT{ return true; });
  E("__cxa_guard_acquire",EXT{ u8 b=*v.ptr(a[0],1,false); if(b){ if(v.syncHook) v.syncHook(SY_READ,a[0]); r[0]=0; return true; } if(v.syncHook) v.syncHook(SY_READ,a[0]); v.guardDepth++; r[0]=1; return true; });
  E("__cxa_guard_release",EXT{ v.guardDepth--; bool s=v.guardDepth>=0; (void)s; v.guardDepth++; *v.ptr(a[0],1,true)=1; v.guardDepth--; if(v.syncHook) v.syncHook(SY_WRITE,a[0]); return true; });
  E("__cxa_guard_abort",EXT{ v.guardDepth--; return true; });
  E("__cxa_atexit",EXT{ r[0]=0; return true; }); E("__cxa_thread_atexit",EXT{ r[0]=0; return true; });
  for(const char*nm:{"_ZNSt8ios_base4InitC1Ev","_ZNSt8ios_base4InitD1Ev","_ZNSt9bad_allocD1Ev","_ZNSt12domain_errorC1EPKc","_ZNSt12domain_errorD1Ev","_ZNSt13runtime_errorC1EPKc","_ZNSt13runtime_errorD1Ev","_ZNSt11logic_errorC1EPKc","_ZNSt11logic_errorD1Ev","_ZNSt16invalid_argumentC1EPKc","_ZNSt16invalid_argumentD1Ev","_ZNSt12length_errorC1EPKc","_ZNSt12length_errorD1Ev","_ZNSt9exceptionD1Ev","_ZNSt9exceptionD2Ev","_ZNSt12domain_errorD2Ev","_ZNSt13runtime_errorD2Ev","_ZNSt12out_of_rangeC1EPKc","_ZNSt12out_of_rangeD1Ev"}) E(nm,EXT{ return true; });
  E("_ZSt17__throw_bad_allocv",EXT{ return v.throwStd("_ZTISt9bad_alloc"); }); E("_ZSt28__throw_bad_array_new_lengthv",EXT{ return v.throwStd("_ZTISt20bad_array_new_length"); });
  E("_ZSt20__throw_length_errorPKc",EXT{ return v.throwStd("_ZTISt12length_error"); }); E("_ZSt24__throw_invalid_argumentPKc",EXT{ return v.throwStd("_ZTISt16invalid_argument"); }); E("_ZSt20__throw_out_of_rangePKc",EXT{ return v.throwStd("_ZTISt12out_of_range"); }); E("_ZSt24__throw_out_of_range_fmtPKcz",EXT{ return v.throwStd("_ZTISt12out_of_range"); }); E("_ZSt19__throw_logic_errorPKc",EXT{ return v.throwStd("_ZTISt11logic_error"); });
  E("_ZNSt6thread20hardware_concurrencyEv",EXT{ r[0]=v.hwThreads; return true; }); E("sysconf",EXT{ r[0]=v.hwThreads; return true; });
  for(const char*nm:{"pthread_mutex_lock","pthread_mutex_trylock"}) E(nm,EXT{ if(v.syncHook) v.syncHook(SY_LOCK,a[0]); v.guardDepth++; r[0]=0; return true; }); E("pthread_mutex_unlock",EXT{ v.guardDepth--; if(v.syncHook) v.syncHook(SY_UNLOCK,a[0]); r[0]=0; return true; });
  for(const char*nm:{"pthread_rwlock_rdlock","pthread_rwlock_wrlock"}) E(nm,EXT{ if(v.syncHook) v.syncHook(SY_LOCK,a[0]); v.guardDepth++; r[0]=0; return true; }); E("pthread_rwlock_unlock",EXT{ v.guardDepth--; if(v.syncHook) v.syncHook(SY_UNLOCK,a[0]); r[0]=0; return true; });
  for(const char*nm:{"printf","puts","putchar","fprintf","fputs","fwrite","fflush"}) E(nm,EXT{ r[0]=0; return true; });
  // OpenMP
  E("__kmpc_fork_call",EXT{ u64 fp=a[2]; Func&mf=v.funcs[(fp&~FNB)>>4]; if(!mf.decoded) v.decode(mf); u64 st0=v.stkTop,sm0=v.stkMemTop; v.parDepth++; Func*cur=v.callstack.empty()?nullptr:v.callstack.back(); (void)cur; u64 gt=v.stackObj(4,4,mf),bt=v.stackObj(4,4,mf); u32 zz=0; memcpy(v.ptr(gt,4,true),&zz,4); memcpy(v.ptr(bt,4,true),&zz,4); std::vector<u64> ar; ar.push_back(gt); ar.push_back(bt); for(int k=3;k<na;k++) ar.push_back(a[k]); if(v.ompHook) v.ompHook(1,mf.id,0,0); u64 rr[8]; bool ok=v.exec(mf,ar.data(),rr); if(v.ompHook) v.ompHook(2,mf.id,0,0); v.parDepth--; while(v.stkTop>st0){ v.stkTop--; v.stk[v.stkTop].alive=false;} v.stkMemTop=sm0; if(!ok) v.fail("terminate","exception leaves a parallel region"); return true; });
  E("__kmpc_global_thread_num",EXT{ r[0]=0; return true; });
  E("__kmpc_push_num_threads",EXT{ return true; });
  E("__kmpc_serialized_parallel",EXT{ return true; }); E("__kmpc_end_serialized_parallel",EXT{ return true; });
  for(const char*nm:{"__kmpc_for_static_init_4","__kmpc_for_static_init_4u","__kmpc_for_static_init_8","__kmpc_for_static_init_8u","__kmpc_for_static_fini"}) E(nm,EXT{ v.unsup("omp loop outside a frame"); },true);
  for(const char*nm:{"__kmpc_dispatch_init_4","__kmpc_dispatch_init_4u","__kmpc_dispatch_init_8","__kmpc_dispatch_init_8u"}) { bool w8=std::string(nm).find("_8")!=std::string::npos; E(nm,[w8](VM&v,const Inst&,const u64*a,int,u64*)->bool{ int w=w8?64:32; Disp d; d.cur=sx(a[3],w); d.hi=sx(a[4],w); d.st=sx(a[5],w); d.w=w; d.done=false; v.disp.push_back(d); u64 id=++v.loopCounter; if(v.ompHook) v.ompHook(3,id,(u64)((d.hi-d.cur)/(d.st?d.st:1)+1),1000000007ull); return true; }); }
  for(const char*nm:{"__kmpc_dispatch_next_4","__kmpc_dispatch_next_4u","__kmpc_dispatch_next_8","__kmpc_dispatch_next_8u"}) E(nm,EXT{ if(v.disp.empty()) v.unsup("dispatch_next"); Disp&d=v.disp.back(); bool more=d.st>0?d.cur<=d.hi:d.cur>=d.hi; if(!more||d.done){ v.disp.pop_back(); if(v.ompHook) v.ompHook(5,0,0,0); r[0]=0; return true; } int w=d.w; auto wr=[&](u64 p,i64 x){ u64 q=mask((u64)x,w); memcpy(v.ptr(p,w/8,true),&q,w/8); }; u32 one=1; memcpy(v.ptr(a[2],4,true),&one,4); wr(a[5],d.st); if(v.ompMode==0){ wr(a[3],d.cur); wr(a[4],d.hi); if(v.ompHook) v.ompHook(4,0,d.cur,d.hi); d.done=true; } else { wr(a[3],d.cur); wr(a[4],d.cur); if(v.ompHook) v.ompHook(4,0,d.cur,d.cur); d.cur+=d.st; } r[0]=1; return true; });
  for(const char*nm:{"__kmpc_dispatch_fini_4","__kmpc_dispatch_fini_4u","__kmpc_dispatch_fini_8","__kmpc_dispatch_fini_8u","__kmpc_dispatch_deinit"}) E(nm,EXT{ return true; });
  E("__kmpc_barrier",EXT{ if(v.ompHook) v.ompHook(6,0,0,0); return true; });
  E("__kmpc_single",EXT{ if(v.ompHook) v.ompHook(7,0,0,0); r[0]=1; return true; }); E("__kmpc_end_single",EXT{ if(v.ompHook) v.ompHook(8,0,0,0); return true; });
  for(const char*nm:{"__kmpc_master","__kmpc_masked"}) E(nm,EXT{ if(v.ompHook) v.ompHook(9,0,0,0); r[0]=1; return true; }); for(const char*nm:{"__kmpc_end_master","__kmpc_end_masked"}) E(nm,EXT{ if(v.ompHook) v.ompHook(10,0,0,0); return true; });
  for(const char*nm:{"__kmpc_critical","__kmpc_critical_with_hint"}) E(nm,EXT{ if(v.ompHook) v.ompHook(11,0,0,0); if(v.syncHook) v.syncHook(SY_LOCK,a[2]); return true; }); E("__kmpc_end_critical",EXT{ if(v.ompHook) v.ompHook(12,0,0,0); if(v.syncHook) v.syncHook(SY_UNLOCK,a[2]); return true; });
  for(const char*nm:{"__kmpc_reduce","__kmpc_reduce_nowait"}) E(nm,EXT{ if(v.ompHook) v.ompHook(11,1,0,0); r[0]=1; return true; }); for(const char*nm:{"__kmpc_end_reduce","__kmpc_end_reduce_nowait"}) E(nm,EXT{ if(v.ompHook) v.ompHook(12,1,0,0); return true; });
  E("__kmpc_flush",EXT{ return true; });
  E("omp_get_max_threads",EXT{ r[0]=v.ompThreads; return true; }); E("omp_get_num_procs",EXT{ r[0]=v.ompThreads; return true; }); E("omp_get_num_threads",EXT{ if(v.parDepth) v.threadDependent=true; r[0]=v.parDepth?1:1; return true; }); E("omp_get_thread_num",EXT{ if(v.parDepth) v.threadDependent=true; r[0]=0; return true; }); E("omp_in_parallel",EXT{ r[0]=v.parDepth>0; return true; }); E("omp_get_level",EXT{ r[0]=v.parDepth; return true; }); E("omp_set_num_threads",EXT{ return true; }); E("omp_get_wtime",EXT{ r[0]=0; return true; }); E("omp_get_dynamic",EXT{ r[0]=0; return true; }); E("omp_get_nested",EXT{ r[0]=0; return true; });
  #undef EXT
}
int ompThreads=4; bool threadDependent=false;
