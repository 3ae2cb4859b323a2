// complex_t operators: exact real-arithmetic identity (NRA with defined roots, transcendental functions uninterpreted)
// and a magnitude/rounding condition, both decided by the solver.
#pragma once
#include "jobs.h"

struct RealEnc { // DAG nodes -> z3 reals; also magnitude expressions and rounding counts
  Session&S; z3::context&z; z3::expr_vector defs; std::map<u32,z3::expr> e,m; std::map<u32,double> k; std::vector<z3::expr> var,avar; z3::expr_vector illc; // illc: conditions under which a denominator is badly conditioned
  std::vector<u32> denoms;
  RealEnc(Session&s):S(s),z(s.vm.z),defs(s.vm.z),illc(s.vm.z){}
  z3::expr X(int j){ while((int)var.size()<=j){ z3::expr v=z.real_const(("x"+std::to_string(var.size())).c_str()); var.push_back(v); avar.push_back(z3::ite(v>=0,v,-v)); } return var[j]; }
  z3::expr ab(const z3::expr&v){ return z3::ite(v>=0,v,-v); }
  int nfresh=0; z3::expr fresh(const char*p){ return z.real_const((std::string(p)+std::to_string(nfresh++)).c_str()); }
  z3::expr root(const z3::expr&a){ z3::expr r=fresh("root"); defs.push_back(r>=0); defs.push_back(r*r==a); return r; }
  void val(u32 n){ if(e.count(n)) return; Dag&g=S.vm.g; using z3::expr;
    auto put=[&](const expr&a,const expr&b,double kk){ e.emplace(n,a); m.emplace(n,b); k[n]=kk; };
    auto E=[&](u32 i)->const expr&{ val(i); return e.at(i); }; auto M=[&](u32 i)->const expr&{ val(i); return m.at(i); };
    switch(g.op[n]){
      case N_CONST: { expr c=rat(z,g.cval(n)); put(c,ab(c).simplify(),0); break; }
      case N_VAR: { int j=g.A[n]; expr x=X(j); put(x,avar[j],0); break; }
      case N_ADD: case N_SUB: { u32 a=g.A[n],b=g.B[n]; expr x=E(a),y=E(b); put(g.op[n]==N_ADD?x+y:x-y,M(a)+M(b),std::max(k[a],k[b])+1); break; }
      case N_NEG: { u32 a=g.A[n]; put(-E(a),M(a),k[a]); break; }
      case N_F32: { u32 a=g.A[n]; E(a); put(e.at(a),m.at(a),k[a]+536870912.0); break; }
      case N_MULC: { u32 a=g.A[n]; expr c=rat(z,g.cval(g.B[n])); put(E(a)*c,M(a)*ab(c),k[a]+1); break; }
      case N_DIVC: { u32 a=g.A[n]; expr c=rat(z,g.cval(g.B[n])); put(E(a)/c,M(a)/ab(c),k[a]+1); break; }
      case N_MUL: { u32 a=g.A[n],b=g.B[n]; expr x=E(a),y=E(b); put(x*y,M(a)*M(b),k[a]+k[b]+1); break; }
      case N_DIV: { u32 a=g.A[n],b=g.B[n]; expr x=E(a),y=E(b); expr q=fresh("quot"); defs.push_back(y!=0); defs.push_back(q*y==x); expr mq=fresh("mquot"); defs.push_back(mq*ab(y)==M(a)); put(q,mq,k[a]+4*k[b]+1); if(k[b]>0) illc.push_back(M(b)>4*ab(y)); break; }
      case N_SQRT: { u32 a=g.A[n]; expr x=E(a); expr r=root(x); put(r,r,k[a]*2+1); if(k[a]>0) illc.push_back(M(a)>4*ab(x)); break; }
      case N_ABS: { u32 a=g.A[n]; put(ab(E(a)),M(a),k[a]); break; }
      case N_FUN1: { auto&f=g.funArgs[g.A[n]]; expr r=fun(g.funNames[f.f],{E(f.x)}); put(r,ab(r),8+k[f.x]); if(k[f.x]>0) illc.push_back(z.bool_val(true)); break; }
      case N_FUN2: { auto&f=g.funArgs[g.A[n]]; std::string nm=g.funNames[f.f]; expr x=E(f.x),y=E(f.y); if(nm=="hypot"){ expr r=root(x*x+y*y); put(r,r,4+k[f.x]+k[f.y]); } else { expr r=fun(nm,{x,y}); put(r,ab(r),8+k[f.x]+k[f.y]); if(k[f.x]>0||k[f.y]>0) illc.push_back(z.bool_val(true)); } break; }
      default: throw EngineError("arithmetic node not supported");
    } }
  z3::expr fun(const std::string&nm,std::vector<z3::expr> a){ z3::sort R=z.real_sort(); if(a.size()==1){ z3::func_decl f=z.function(nm.c_str(),R,R); return f(a[0]); } z3::func_decl f=z.function(nm.c_str(),R,R,R); return f(a[0],a[1]); }
};

// cplx f=<entry>
static std::string jobCplx(Session&S,JobArgs&a){
  std::string f=a.s("f"); bool twin=a.i("twin"); double t0=now(); Stats st; Finding fd; bool viol=false; z3::context&z=S.vm.z;
  const std::string op=f.substr(0,f.find('_',2)); 
  std::vector<std::vector<int>> work{{}}; int np=0;
  while(!work.empty()&&!viol){
    auto dec=work.back(); work.pop_back(); if(++np>64) throw EngineError("too many paths");
    S.reset(); S.vm.decisions=dec; S.vm.dpos=0; S.vm.worklist.clear(); u64 i0=S.vm.icount;
    RealEnc R(S); size_t synced=0; std::vector<u64> in; for(int i=0;i<4;i++) in.push_back(S.var());
    for(int i=0;i<4;i++) R.X(i);
    z3::expr_vector path(z);
    auto sync=[&]{ for(;synced<S.vm.rpc.size();synced++){ auto&r=S.vm.rpc[synced]; R.val(r.node); z3::expr b=Decider::predE(r.pred,R.e.at(r.node)); path.push_back(r.val?b:!b); } };
    auto solve=[&](z3::expr q,z3::model*mm)->z3::check_result{ double ts=now(); z3::solver s(z); z3::params p(z); p.set("timeout",60000u); s.set(p); for(unsigned i=0;i<R.defs.size();i++) s.add(R.defs[i]); for(unsigned i=0;i<path.size();i++) s.add(path[i]); s.add(q); auto r=s.check(); st.queries++; st.atoms++; st.solver+=now()-ts; if(r==z3::sat&&mm) *mm=s.get_model(); return r; };
    S.vm.decideReal=[&](u32 n,int pred)->int{ sync(); R.val(n); z3::expr b=Decider::predE(pred,R.e.at(n)); int m=0; if(solve(!b,nullptr)!=z3::unsat) m|=1; if(solve(b,nullptr)!=z3::unsat) m|=2; return m; };
    u64 A=S.buf(2,"operand a"),B=S.buf(2,"operand b"),O=S.buf(3,"result"); for(int i=0;i<2;i++){ S.put(A,i,in[i]); S.put(B,i,in[2+i]); }
    u64 o[3];
    try{ S.call(f.c_str(),{A,B,O}); for(int i=0;i<3;i++) o[i]=S.get(O,i); }
    catch(PathEnd&e){ S.vm.decideReal=nullptr; if(e.why!="infeasible") throw; continue; }
    catch(Violation&e){ fd.kind=e.kind; fd.msg=e.msg; viol=true; break; }
    catch(...){ S.vm.decideReal=nullptr; throw; }
    S.vm.decideReal=nullptr; sync(); st.paths++; st.instr+=S.vm.icount-i0; for(auto&w:S.vm.worklist) work.push_back(w);
    z3::expr a0=R.X(0),a1=R.X(1),b0=R.X(2),b1=R.X(3); auto ab=[&](const z3::expr&v){ return z3::ite(v>=0,v,-v); };
    z3::expr zero=z.real_val(0); z3::expr r0=zero,r1=zero,mag=ab(a0)+ab(a1); int nout=2; z3::expr pre=z.bool_val(true);
    z3::expr na=ab(a0)+ab(a1), nb=ab(b0)+ab(b1);
    auto quot=[&](const z3::expr&n,const z3::expr&d)->z3::expr{ z3::expr q=R.fresh("rq"); R.defs.push_back(q*d==n); return q; };
    std::string o2=op; if(f.size()>4&&f.substr(f.size()-4)=="_ret") o2=f.substr(0,f.size()-4); else if(f.find("self")!=std::string::npos||f.find("_re",3)!=std::string::npos||f.find("_im",3)!=std::string::npos) o2=f; 
    if(f=="c_re"||f=="c_im") o2=f;
    if(o2=="c_default"){ mag=zero; } else if(o2=="c_real"){ r0=a0; }
    else if(o2=="c_pair"||o2=="c_copy"||o2=="c_assign"||o2=="c_fromstd"||o2=="c_tostd"){ r0=a0; r1=a1; }
    else if(o2=="c_re") r0=a0; else if(o2=="c_im") r0=a1;
    else if(o2=="c_add"||o2=="c_addeq"){ r0=a0+b0; r1=a1+b1; mag=na+nb; } else if(o2=="c_sub"||o2=="c_subeq"){ r0=a0-b0; r1=a1-b1; mag=na+nb; }
    else if(o2=="c_mul"||o2=="c_muleq"){ r0=a0*b0-a1*b1; r1=a0*b1+a1*b0; mag=na*nb; }
    else if(o2=="c_smul"||o2=="c_mulr"||o2=="c_mulreq"){ r0=a0*b0; r1=a1*b0; mag=na*ab(b0); }
    else if(o2=="c_divr"||o2=="c_divreq"){ pre=b0!=0; R.defs.push_back(pre); r0=quot(a0,b0); r1=quot(a1,b0); mag=quot(na,ab(b0)); }
    else if(o2=="c_div"||o2=="c_div_self"){ z3::expr d=b0*b0+b1*b1; R.defs.push_back(d!=0); r0=quot(a0*b0+a1*b1,d); r1=quot(a1*b0-a0*b1,d); mag=quot(na*nb,d); }
    else if(o2=="c_div_aself"){ z3::expr d=a0*a0+a1*a1; R.defs.push_back(d!=0); r0=quot(b0*a0+b1*a1,d); r1=quot(b1*a0-b0*a1,d); mag=quot(na*nb,d); }
    else if(o2=="c_addeq_self"){ r0=2*a0; r1=2*a1; } else if(o2=="c_subeq_self"){ } 
    else if(o2=="c_muleq_self"||o2=="c_mul_self"){ r0=a0*a0-a1*a1; r1=2*a0*a1; mag=na*na; }
    else if(o2=="c_mulreq_re"){ r0=a0*a0; r1=a1*a0; mag=na*na; } else if(o2=="c_mulreq_im"){ r0=a0*a1; r1=a1*a1; mag=na*na; }
    else if(o2=="c_divreq_re"){ R.defs.push_back(a0!=0); r0=z.real_val(1); r1=quot(a1,a0); mag=quot(na,ab(a0)); } else if(o2=="c_divreq_im"){ R.defs.push_back(a1!=0); r0=quot(a0,a1); r1=z.real_val(1); mag=quot(na,ab(a1)); }
    else if(o2=="c_conj"){ r0=a0; r1=-a1; } else if(o2=="c_neg"){ r0=-a0; r1=-a1; } else if(o2=="c_jx"){ r0=-a1; r1=a0; } else if(o2=="c_mjx"){ r0=a1; r1=-a0; }
    else if(o2=="c_norm"){ r0=a0*a0+a1*a1; mag=na*na; } else if(o2=="c_abs"){ r0=R.root(a0*a0+a1*a1); }
    else if(o2=="c_arg"){ r0=R.fun("atan2",{a1,a0}); mag=ab(r0); }
    else if(o2=="c_polar"){ z3::expr c=R.fun("cos",{a1}),s=R.fun("sin",{a1}); r0=a0*c; r1=a0*s; mag=ab(a0)*(ab(c)+ab(s)); }
    else if(o2=="c_expj"){ r0=R.fun("cos",{a0}); r1=R.fun("sin",{a0}); mag=ab(r0)+ab(r1); }
    else throw EngineError("no reference for "+f);
    z3::expr ref[2]={r0,r1};
    for(int i=0;i<nout&&!viol;i++){
      u64 v=o[i]; if(isUninit(v)||(isSym(v)&&(S.vm.g.taint[symId(v)]&1))){ fd.kind="uninit"; fd.msg="result component "+std::to_string(i)+" is not computed from the operands"; viol=true; break; }
      z3::expr got=z.real_val(0), gm=z.real_val(0); double kk=0; if(isSym(v)){ R.val(symId(v)); got=R.e.at(symId(v)); gm=R.m.at(symId(v)); kk=R.k[symId(v)]; } else { got=rat(z,asD(v)); }
      st.outputs++; z3::model mm(z); z3::expr want=ref[i]; if(twin&&i==0) want=want+z.real_val(1)/1000;
      auto bounded=[&](z3::expr q){ for(auto&x:R.var){ z3::expr ax=ab(x); q=q&&ax<=1000&&(x==0||ax>=z.real_val(1)/1000); } return q; };
      auto r=solve(got!=want,&mm); if(r==z3::unknown) throw EngineError("solver returned unknown for "+f);
      if(r==z3::sat){ // prefer a witness of ordinary size with a clear deviation
        z3::model m2(z); z3::expr far=(got-want>z.real_val(1)/100)||(want-got>z.real_val(1)/100); if(solve(bounded(far),&m2)==z3::sat) mm=m2;
        fd.kind="arith"; fd.msg=f+": result component "+std::to_string(i)+" is not the mathematical value"; fd.out=i; for(int j=0;j<4;j++) fd.x.push_back({j,modelD(mm,R.X(j))}); viol=true; break; }
      if(kk>0&&isSym(v)){ 
        if(kk>64){ fd.kind="rounding"; fd.out=i; fd.msg=f+": result component is computed with reduced precision"; for(int j=0;j<4;j++) fd.x.push_back({j,0.1*(j+1)}); viol=true; break; }
        z3::expr ill=z.bool_val(false); for(unsigned j=0;j<R.illc.size();j++) ill=ill||R.illc[j];
        r=solve(bounded(gm>8*mag||ill),&mm); if(r==z3::unknown){ // magnitude condition undecided: count as not covered
          throw EngineError("solver returned unknown for the magnitude condition of "+f); }
        if(r==z3::sat){ fd.kind="rounding"; fd.out=i; fd.msg=f+": an intermediate value is much larger than the result scale (cancellation)"; for(int j=0;j<4;j++) fd.x.push_back({j,modelD(mm,R.X(j))}); viol=true; break; } }
    }
    if(!viol&&f.size()>4&&f.substr(f.size()-4)=="_ret"&&!(o[2]==asU(1.0))){ fd.kind="arith"; fd.out=2; fd.msg=f+": the compound assignment does not return the assigned object"; for(int j=0;j<4;j++) fd.x.push_back({j,1.0+j}); viol=true; }
  }
  S.vm.decideReal=nullptr; fd.ctx={"f="+f}; return report(S,st,viol,fd,t0); }
