// Magnitudes (C19): inputs bounded by `top` give results that stay inside the range of their types.
#pragma once
#include "sharejobs.h"

// Every distinct step of the magnitude analysis as a query: operands inside their bounds, result (with its rounding error) outside the claimed bound.
// Bounds are m*2^e; a step is decided once per (mantissas, exponent difference), scaled so that the larger operand bound has exponent 0.
static bool dischargeSteps(Session&S,Stats&st,Finding&f){
  z3::context&z=S.vm.z; Dag&g=S.vm.g; std::map<std::tuple<int,int,int,int,int,int>,bool> memo; const i32 sub=g.lat; auto fl=[&](i32 k){ return g.bkExp(k); };
  z3::solver s(z,"QF_NRA"); z3::expr x=z.real_const("a"),y=z.real_const("b"),one=z.real_val(1),u=z.real_val("1/4503599627370496");   // 2^-52 covers 2^-53 relative; the analysis itself allows 2^-50
  auto pw=[&](int ex)->z3::expr{ ex=std::max(-4200,std::min(4200,ex)); std::string d="1"; auto big=[&](int k){ std::string r="1"; for(int i=0;i<k;i++){ int c=0; for(size_t j=r.size();j-->0;){ int v=(r[j]-'0')*2+c; r[j]='0'+v%10; c=v/10; } if(c) r.insert(r.begin(),'0'+c); } return r; }; return ex>=0?z.real_val(big(ex).c_str()):z.real_val(("1/"+big(-ex)).c_str()); };
  auto man=[&](i32 k){ int j=k-sub*fl(k); return z.real_val((std::to_string(sub+j)+"/"+std::to_string(sub)).c_str()); };
  for(auto&t:g.steps){ st.atoms++; int ea=fl(t.a),eb=fl(t.b),er=fl(t.r),base,be; const u8 o=t.op; bool un=o==N_F32||o==N_SQRT||o==N_NEG||o==N_ABS;
    if(o==N_SQRT) continue;   // sqrt(a) <= bound iff a <= bound^2: decided below
    if(o==N_ADD||o==N_SUB){ base=std::max(ea,eb); be=base; } else if(o==N_MULC||o==N_MUL) { base=0; be=ea+eb; } else if(o==N_DIVC) { base=0; be=ea-eb; } else { base=ea; be=ea; }
    int da=std::max(-64,(o==N_ADD||o==N_SUB)?ea-base:0), db=std::max(-64,(o==N_ADD||o==N_SUB)?eb-base:0), dr=std::max(-80,std::min(80,er-be)); if(un) db=0;
    auto key=std::make_tuple((int)o,(int)(t.a-sub*ea),(int)(un?0:t.b-sub*eb),(int)(t.r-sub*er),da*1000+db,dr); if(memo.count(key)) continue; memo[key]=true;
    s.push(); z3::expr A=man(t.a)*pw(da),B=man(t.b)*pw(db),R=man(t.r)*pw(dr); s.add(x<=A&&x>=-A); z3::expr res=x; u=z.real_val("1/4503599627370496");
    if(o==N_ADD){ s.add(y<=B&&y>=-B); res=x+y; } else if(o==N_SUB){ s.add(y<=B&&y>=-B); res=x-y; } else if(o==N_MULC||o==N_MUL){ s.add(y<=B&&y>=-B); res=x*y; } else if(o==N_DIVC){ s.add(y>=B||y<=-B); } else if(o==N_F32) u=z.real_val("1/16777216");
    z3::expr q=z.real_const("q"); if(o==N_DIVC) s.add(q*y==x); else s.add(q==res); s.add(q*(one+u)>R||-q*(one+u)>R);   // |q|(1+u) > R
    double t0=now(); auto r=s.check(); st.queries++; st.solver+=now()-t0; s.pop();
    if(r==z3::unknown) throw EngineError("solver returned unknown"); if(r==z3::sat){ f.kind="overflow"; f.msg=std::string("magnitude step not valid: ")+Dag::opName(o); return true; } }
  st.coefs+=g.nsteps; return false; }

// bound kind n opt m: all inputs of magnitude up to 1e290
static std::string jobBound(Session&S,JobArgs&a){
  int kind=a.i("kind"),n=a.i("n"),opt=a.i("opt"); bool twin=a.i("twin"); double t0=now(), X=twin?1.7e308:1e290; Stats st; Finding f; VM&vm=S.vm; bool viol=false; f.scale=X; int cur=0;
  auto conc=[&](const std::vector<u64>&out,int m)->bool{ for(size_t i=0;i<out.size();i++) if(isUninit(out[i])||(isSym(out[i])&&(vm.g.taint[symId(out[i])]&1))||(!isSym(out[i])&&!std::isfinite(asD(out[i])))){ f.kind="overflow"; f.out=i; f.msg=std::string(methName[m])+": output element "+std::to_string(i)+" is not a finite value computed from the input"; return true; } st.outputs+=out.size(); return false; };
  try{ S.reset(); u64 i0=vm.icount; st.paths++; st.obligations++; u64 h=S.newHandle(); if(S.create(h,kind,n,opt)) throw Violation{"api","factory fails"};
    vm.g.lat=a.i("sub",8); vm.g.bk.clear(); vm.g.bkNode.clear(); vm.g.steps.clear(); vm.g.stepMemo.clear(); vm.g.bkMax=-(1<<27); vm.g.nsteps=0; vm.g.bounds=true;
    for(int m:a.list("m")) if(hasMeth(kind,m)&&!viol){ cur=m; size_t nd=Session::inDoubles(kind,m,n); std::vector<u64> in(nd,vm.g.bounded(vm.g.bucketUp(X))); if(kind==K_REAL&&isInvM(m)&&n){ in[1]=asU(0.0); if(n>=2) in[n+1]=asU(0.0); }
      auto out=S.transform(h,kind,m,n,in); viol=conc(out,m); }
    if(!viol) viol=dischargeSteps(S,st,f);
    vm.g.bounds=false; st.instr+=vm.icount-i0; }
  catch(BoundExceeded&e){ viol=true; f.kind="overflow"; f.msg=e.what(); }
  catch(NonFinite&e){ viol=true; f.kind="overflow"; f.msg=e.what(); }
  catch(AbstractBranch&){ // control flow depends on the data: exact terms, interval bounds per path
    vm.g.bounds=false; if(n>1024) throw EngineError("control flow depends on the data"); st.merged++; Decider D(S,st); D.X=X;
    viol=explorePaths(S,st,D,64,[&]()->bool{ try{ u64 h=S.newHandle(); if(S.create(h,kind,n,opt)) throw Violation{"api","factory fails"};
      for(int m:a.list("m")) if(hasMeth(kind,m)){ cur=m; auto in=S.freshInput(kind,m,n); auto out=S.transform(h,kind,m,n,in); if(conc(out,m)) return true; Lin L(vm.g,out); if(L.nonlinear||L.junk){ f.kind="overflow"; f.msg="the result is not a linear function of the data"; return true; }
        std::vector<double> B,E; L.bounds(X,B,E); for(size_t i=0;i<L.n();i++) if(!std::isfinite(B[i])||(L.op[i]==N_F32&&B[i]>3e38)){ f.kind="overflow"; f.msg=std::string(Dag::opName(L.op[i]))+" may leave the range of its type"; return true; } }
      } catch(NonFinite&e){ f.kind="overflow"; f.msg=e.what(); return true; } return false; },f); }
  catch(Violation&e){ vm.g.bounds=false; f.kind=e.kind; f.msg=e.msg; viol=true; }
  catch(...){ vm.g.bounds=false; throw; }
  vm.g.bounds=false; if(viol&&f.kind=="overflow"){ f.ctx={"m="+std::to_string(cur)}; f.msg=std::string(methName[cur])+": "+f.msg; }
  return report(S,st,viol,f,t0); }
