// Integer polynomials, path conditions over them, and the solver queries that decide them.
#pragma once
#include <z3++.h>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <algorithm>
#include <stdexcept>
#include <cstdint>
#include <chrono>

typedef __int128 i128; typedef int64_t i64; typedef uint64_t u64; typedef uint32_t u32;
struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
[[noreturn]] __attribute__((noinline)) static void unsup(const std::string&m){ throw Unsupported(m); }
static inline double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static inline std::string s128(i128 v){ if(v==0) return "0"; bool n=v<0; std::string r; while(v!=0){ int d=(int)(v%10); if(d<0) d=-d; r.insert(r.begin(),'0'+d); v/=10; } return n?"-"+r:r; }

typedef std::vector<int> Mono;   // sorted variable ids
struct Poly { std::map<Mono,i128> t;
  Poly(){} Poly(i128 c){ if(c!=0) t[Mono()]=c; }
  static Poly var(int v){ Poly p; p.t[Mono{v}]=1; return p; }
  bool isConst()const{ return t.empty()||(t.size()==1&&t.begin()->first.empty()); }
  i128 c()const{ auto it=t.find(Mono()); return it==t.end()?0:it->second; }
  void add(const Mono&m,i128 k){ i128&x=t[m]; x+=k; if(x==0) t.erase(m); if(x>((i128)1<<100)||x<-((i128)1<<100)) unsup("coefficient too large"); }
  Poly operator+(const Poly&o)const{ Poly r=*this; for(auto&k:o.t) r.add(k.first,k.second); return r; }
  Poly operator-(const Poly&o)const{ Poly r=*this; for(auto&k:o.t) r.add(k.first,-k.second); return r; }
  Poly operator-()const{ Poly r; for(auto&k:t) r.t[k.first]=-k.second; return r; }
  static Mono mm(const Mono&a,const Mono&b){ Mono r(a.size()+b.size()); std::merge(a.begin(),a.end(),b.begin(),b.end(),r.begin()); return r; }
  Poly operator*(const Poly&o)const{ Poly r; if(t.size()*o.t.size()>400) unsup("polynomial too large"); for(auto&x:t) for(auto&y:o.t){ if(x.first.size()+y.first.size()>8) unsup("degree too large"); i128 k; if(__builtin_mul_overflow(x.second,y.second,&k)) unsup("coefficient too large"); r.add(mm(x.first,y.first),k); } return r; }
  bool operator==(const Poly&o)const{ return t==o.t; } bool operator<(const Poly&o)const{ return t<o.t; }
  int degree()const{ int d=0; for(auto&k:t) d=std::max(d,(int)k.first.size()); return d; }
  std::string str()const{ std::string s; for(auto&k:t){ s+=(s.empty()?"":"+")+s128(k.second); for(int v:k.first) s+="*v"+std::to_string(v); } return s.empty()?"0":s; }
};
static bool mulOk(const Poly&a,const Poly&b,Poly&r){ i128 ma=0,mb=0; for(auto&k:a.t) ma=std::max(ma,k.second<0?-k.second:k.second); for(auto&k:b.t) mb=std::max(mb,k.second<0?-k.second:k.second); if(a.t.size()*b.t.size()>64||(long double)ma*(long double)mb>1e24L) return false; r=a*b; return true; }
enum Rel { GE, EQ, NE };   // p >= 0, p == 0, p != 0
struct Atom { Poly p; Rel r; bool operator<(const Atom&o)const{ return std::tie(r,p)<std::tie(o.r,o.p); } bool operator==(const Atom&o)const{ return r==o.r&&p==o.p; } };
static Atom negate(const Atom&a){ if(a.r==GE) return {-a.p-Poly(1),GE}; return {a.p,a.r==EQ?NE:EQ}; }
static i128 gcd128(i128 a,i128 b){ if(a<0)a=-a; if(b<0)b=-b; while(b){ i128 q=a%b; a=b; b=q; } return a; }
static i128 fdiv(i128 a,i128 b){ i128 q=a/b; if(a%b!=0&&(a<0)!=(b<0)) q--; return q; }
static Atom tighten(Atom a){ i128 g=0; for(auto&k:a.p.t) if(!k.first.empty()) g=gcd128(g,k.second); if(g>1){ i128 c=a.p.c(); if(a.r==GE){ Poly q; for(auto&k:a.p.t) if(!k.first.empty()) q.t[k.first]=k.second/g; q=q+Poly(fdiv(c,g)); a.p=q; } else if(c%g==0){ Poly q; for(auto&k:a.p.t) q.t[k.first]=k.second/g; a.p=q; } } return a; }

struct VarInfo { i128 lo,hi; std::string name; };
static const i128 INF=(i128)1<<96;

struct World {  // variables, shared by all paths
  std::vector<VarInfo> v; z3::context z; double tl[4]={0,0,0,0}; u64 nl[4]={0,0,0,0},un[4]={0,0,0,0}; u64 queries=0, obligations=0, proved=0; double solver=0; std::map<std::string,int> cache; double deadline=1e300; int wantModel=-1;
  int fresh(const std::string&n,i128 lo=-INF,i128 hi=INF){ v.push_back({lo,hi,n}); return (int)v.size()-1; }
};

struct Path {  // path condition
  World*w=nullptr; std::vector<Atom> pc; std::map<int,Poly> sub; bool dead=false;
  struct Shl{ Poly amount; int var; }; std::vector<Shl> shls;
  std::map<std::pair<Poly,Poly>,std::pair<int,int>> divs;
  Poly norm(const Poly&p)const{ bool any=false; for(auto&k:p.t) for(int x:k.first) if(sub.count(x)) any=true; if(!any) return p; Poly r; for(auto&k:p.t){ Poly m(k.second); for(int x:k.first){ auto it=sub.find(x); m=m*(it==sub.end()?Poly::var(x):it->second); } r=r+m; } return norm(r); }
  // interval of a polynomial from the variables' ranges
  std::pair<i128,i128> range(const Poly&p)const{ i128 lo=0,hi=0; bool li=false,hi_=false; for(auto&k:p.t){ i128 a=1,b=1; bool ai=false,bi=false; for(int x:k.first){ i128 l=w->v[x].lo,h=w->v[x].hi; if(l<0||ai){ ai=bi=true; break; } if(h>=INF||bi) bi=true; else { if(__builtin_mul_overflow(b,h,&b)||b>INF) bi=true; } if(__builtin_mul_overflow(a,l,&a)||a>INF) ai=bi=true; } 
      if(ai&&bi&&!k.first.empty()){ bool nonneg=true; for(int x:k.first) if(w->v[x].lo<0) nonneg=false; if(nonneg){ a=0; ai=false; } if(k.first.size()==1){ int x=k.first[0]; a=w->v[x].lo; b=w->v[x].hi; ai=a<=-INF; bi=b>=INF; } }
      i128 c=k.second; if(c>0){ if(ai) li=true; else lo+=c*a; if(bi) hi_=true; else hi+=c*b; } else { if(bi) li=true; else lo+=c*b; if(ai) hi_=true; else hi+=c*a; } }
    return {li?-INF:lo,hi_?INF:hi}; }
  int quick(const Atom&a)const{ auto r=range(a.p); if(a.r==GE){ if(r.first>=0) return 1; if(r.second<0) return 0; } else if(a.p.isConst()){ bool z=a.p.c()==0; return (a.r==EQ)==z; } else if(r.first>0||r.second<0) return a.r==NE; else { i128 g=0; for(auto&k:a.p.t) if(!k.first.empty()) g=gcd128(g,k.second); if(g>1&&a.p.c()%g!=0) return a.r==NE; } return -1; }
  void assume(Atom a){ if(dead) return; a.p=norm(a.p); a=tighten(a); int q=quick(a); if(q==1&&a.r!=NE) return; if(q==0){ dead=true; return; }
    if(a.r==EQ){ // v = polynomial without v, coefficient 1
      int best=-1; bool bestHard=false; for(auto&k:a.p.t) if(k.first.size()==1&&(k.second==1||k.second==-1)){ int x=k.first[0]; bool other=false; for(auto&m:a.p.t) if(&m.first!=&k.first&&std::find(m.first.begin(),m.first.end(),x)!=m.first.end()) other=true; if(other) continue; if(a.p.t.size()<=2||best<0){ if(best<0||x>best) best=x; } }
      (void)bestHard;
      if(best>=0&&a.p.t.size()<=2){ i128 c=a.p.t[Mono{best}]; Poly r=a.p; r.t.erase(Mono{best}); if(c==1) r=-r; VarInfo vi=w->v[best]; sub[best]=r; renorm(); if(vi.lo>-INF) assume({r-Poly(vi.lo),GE}); if(vi.hi<INF) assume({Poly(vi.hi)-r,GE}); for(size_t i=0;i<shls.size();i++){ Poly am=norm(shls[i].amount); if(am.isConst()&&!sub.count(shls[i].var)&&am.c()>=0&&am.c()<62){ assume({Poly::var(shls[i].var)-Poly((i128)1<<(int)am.c()),EQ}); } } return; } }
    for(auto&x:pc) if(x==a) return; pc.push_back(a); }
  void renorm(){ std::vector<Atom> old; old.swap(pc); for(auto&a:old){ Atom b=a; b.p=norm(b.p); if(b.p==a.p) pc.push_back(a); else assume(b); } }
  // 1: unsatisfiable, 0: satisfiable (model filled), -1: unknown.  level 1 linear, 2 with products, 3 nonlinear
  struct Prob { std::vector<Atom> a; std::set<int> vars; };
  Prob gather(const std::vector<Atom>&goal)const{ Prob P; std::set<int> vs; for(auto&g:goal) for(auto&k:g.p.t) for(int x:k.first) vs.insert(x); std::vector<char> used(pc.size(),0); bool ch=true; while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!used[i]){ bool hit=false; for(auto&k:pc[i].p.t) for(int x:k.first) if(vs.count(x)) hit=true; if(hit){ used[i]=1; ch=true; for(auto&k:pc[i].p.t) for(int x:k.first) vs.insert(x); } } }
    P.a=goal; for(size_t i=0;i<pc.size();i++) if(used[i]) P.a.push_back(pc[i]); P.vars=vs; return P; }
  int solve(std::vector<Atom> goal,int maxLevel,std::map<int,i128>*model=nullptr,unsigned nlTimeout=2500)const{
    if(dead) return 1; for(auto&g:goal){ g.p=norm(g.p); g=tighten(g); int q=quick(g); if(q==0) return 1; }
    if(now()>w->deadline) unsup("time limit");
    Prob P=gather(goal); std::string key; if(!model){ key=std::to_string(maxLevel)+"|"; std::vector<std::string> ks; for(auto&a:P.a) ks.push_back(a.p.str()+"#"+std::to_string(a.r)); std::sort(ks.begin(),ks.end()); for(auto&k:ks) key+=k+";"; auto it=w->cache.find(key); if(it!=w->cache.end()) return it->second; }
    int r=-1; double t0=now();
    auto st=[&](int i,auto f){ double t=now(); int q=f(); w->tl[i]+=now()-t; w->nl[i]++; if(q==1) w->un[i]++; return q; };
    if(maxLevel>=1) r=st(0,[&]{ return linear(P,goal.size(),false,false,model); }); if(r!=1&&maxLevel>=2){ int q=st(1,[&]{ return linear(P,goal.size(),true,false,nullptr); }); if(q==1) r=1; } if(r!=1&&maxLevel>=2){ int q=st(2,[&]{ return linear(P,goal.size(),true,true,nullptr); }); if(q==1) r=1; }
    if(r!=1&&maxLevel>=3) r=st(3,[&]{ return nonlinear(P,model,nlTimeout); });
    w->solver+=now()-t0; if(!model) w->cache[key]=r; return r; }
  z3::expr mvar(const Mono&m,bool ints)const{ std::string n="m"; for(int x:m) n+="_"+std::to_string(x); return ints?w->z.int_const(n.c_str()):w->z.real_const(n.c_str()); }
  z3::expr lin(const Poly&p,bool ints)const{ auto&z=w->z; auto num=[&](i128 c){ std::string s=s128(c); return ints?z.int_val(s.c_str()):z.real_val(s.c_str()); }; z3::expr e=num(p.c()); for(auto&k:p.t) if(!k.first.empty()) e=e+num(k.second)*mvar(k.first,ints); return e; }
  int linear(const Prob&P,size_t ngoal,bool products,bool ints,std::map<int,i128>*)const{
    auto&z=w->z; z3::solver s(z,z3::solver::simple()); if(ints){ z3::params pr(z); pr.set("rlimit",4000000u); s.set(pr); } std::set<Mono> monos; std::vector<Atom> all=P.a; std::vector<Poly> ge; 
    for(auto&a:P.a){ if(a.r==GE) ge.push_back(a.p); }
    for(int x:P.vars){ if(w->v[x].lo>-INF) ge.push_back(Poly::var(x)-Poly(w->v[x].lo)); if(w->v[x].hi<INF) ge.push_back(Poly(w->v[x].hi)-Poly::var(x)); }
    if(products){ std::set<Mono> big; for(auto&a:P.a) for(auto&k:a.p.t) if(k.first.size()>=2) big.insert(k.first);
      std::set<Mono> mult; for(auto&b:big){ size_t n=b.size(); for(u32 mask=1;mask<(1u<<n);mask++){ if(mask==(1u<<n)-1) continue; Mono m; for(size_t i=0;i<n;i++) if(mask>>i&1) m.push_back(b[i]); bool ok=true; for(int x:m) if(w->v[x].lo<0) ok=false; if(ok) mult.insert(m); } }
      std::vector<Poly> extra; std::set<Poly> seen(ge.begin(),ge.end()); size_t nb=ge.size();
      auto useful=[&](const Poly&p,int maxNew){ int nw=0,old=0; for(auto&k:p.t) if(k.first.size()>=2){ if(big.count(k.first)) old++; else nw++; } return old>0&&nw<=maxNew; };
      for(int newm=0;newm<=2&&extra.size()<600;newm++) for(size_t i=0;i<nb&&extra.size()<1200;i++) for(auto&m:mult){ if(ge[i].degree()+(int)m.size()>6) continue; Poly mp; mp.t[m]=1; Poly q; if(!mulOk(ge[i],mp,q)) continue; if(useful(q,newm)&&seen.insert(q).second) extra.push_back(q); }
      for(size_t i=0;i<nb&&extra.size()<1500;i++) for(size_t j=i;j<nb&&extra.size()<1500;j++){ if(ge[i].degree()+ge[j].degree()>4) continue; Poly q; if(!mulOk(ge[i],ge[j],q)) continue; if(useful(q,1)&&seen.insert(q).second) extra.push_back(q); }
      for(auto&a:P.a) if(a.r==EQ) for(auto&m:mult){ if(a.p.degree()+(int)m.size()>5) continue; Poly mp; mp.t[m]=1; Poly q; if(!mulOk(a.p,mp,q)) continue; if(useful(q,1)) s.add(lin(q,ints)==(ints?z.int_val(0):z.real_val(0))); }
      for(auto&q:extra){ s.add(lin(q,ints)>=(ints?z.int_val(0):z.real_val(0))); for(auto&k:q.t) if(k.first.size()>=2) monos.insert(k.first); } }
    for(auto&g:ge){ s.add(lin(g,ints)>=(ints?z.int_val(0):z.real_val(0))); for(auto&k:g.t) if(k.first.size()>=2) monos.insert(k.first); }
    for(auto&a:P.a){ z3::expr zero=ints?z.int_val(0):z.real_val(0); if(a.r==EQ) s.add(lin(a.p,ints)==zero); else if(a.r==NE&&(ints||true)) s.add(lin(a.p,ints)!=zero); for(auto&k:a.p.t) if(k.first.size()>=2) monos.insert(k.first); }
    for(auto&m:monos){ i128 lo=1; bool ok=true; for(int x:m){ if(w->v[x].lo<0) ok=false; else lo=std::min((i128)1<<60,lo*w->v[x].lo); } if(ok) s.add(mvar(m,ints)>=(ints?z.int_val(s128(lo).c_str()):z.real_val(s128(lo).c_str()))); }
    w->queries++; auto r=s.check(); return r==z3::unsat?1:r==z3::sat?0:-1; }
  int nonlinear(const Prob&P,std::map<int,i128>*model,unsigned to)const{
    auto&z=w->z; z3::solver s(z,z3::solver::simple()); z3::params pr(z); pr.set("rlimit",to*2000u); s.set(pr); auto var=[&](int x){ return z.int_const(("v"+std::to_string(x)).c_str()); };
    auto ex=[&](const Poly&p){ z3::expr e=z.int_val(s128(p.c()).c_str()); for(auto&k:p.t) if(!k.first.empty()){ z3::expr t=z.int_val(s128(k.second).c_str()); for(int x:k.first) t=t*var(x); e=e+t; } return e; };
    for(auto&a:P.a){ if(a.r==GE) s.add(ex(a.p)>=0); else if(a.r==EQ) s.add(ex(a.p)==0); else s.add(ex(a.p)!=0); }
    for(int x:P.vars){ if(w->v[x].lo>-INF) s.add(var(x)>=z.int_val(s128(w->v[x].lo).c_str())); if(w->v[x].hi<INF) s.add(var(x)<=z.int_val(s128(w->v[x].hi).c_str())); }
    w->queries++; auto r=s.check(); if(r==z3::sat&&model){ z3::model m=s.get_model(); for(int x:P.vars){ z3::expr e=m.eval(var(x),true); std::string t; if(e.is_numeral(t)){ i128 q=0; bool n=false; for(char c:t) if(c=='-') n=true; else if(c>='0'&&c<='9') q=q*10+(c-'0'); (*model)[x]=n?-q:q; } } } return r==z3::unsat?1:r==z3::sat?0:-1; }
  bool feasible(const Atom&a)const{ return solve({a},1)!=1; }
  bool proves(const Atom&g,int level=2)const{ Atom n=negate(g); return solve({n},level)==1; }
};
