// Job runner: reads one job per line, answers one JSON line per job.
#include "linear.h"
#include "jobs.h"
#include "forks.h"
#include "arith.h"
#include "memjobs.h"
#include "sharejobs.h"
#include "boundjobs.h"
#include <iostream>
static std::string runJob(Session&S,const std::string&line){
  JobArgs a(line); if(a.a.empty()) throw EngineError("empty job"); const std::string&c=a.a[0];
  typedef std::string (*J)(Session&,JobArgs&);
  static const std::map<std::string,J> jobs={{"lin",jobLin},{"trip",jobTrip},{"alias",jobAlias},{"backs",jobBacks},{"cpu",jobCpu},{"cplx",jobCplx},{"fault",jobFault},{"mem",jobMem},{"align",jobAlign},{"hist",jobHist},{"race",jobRace},{"share",jobShare},{"bound",jobBound}};
  auto it=jobs.find(c); if(it==jobs.end()) throw EngineError("unknown job "+c);
  S.vm.g.absorb=false; S.vm.g.bounds=false; S.vm.ompMode=0; S.vm.hook=nullptr; S.vm.ompHook=nullptr; S.vm.syncHook=nullptr; S.vm.freeHook=nullptr; S.vm.allocFails=nullptr;
  return it->second(S,a); }

int main(int argc,char**argv){
  if(argc<2) return 2;
  std::unique_ptr<Session> S;
  std::string line;
  while(std::getline(std::cin,line)){
    if(line.empty()) continue;
    std::string ans;
    try{ if(!S) S.reset(new Session(argv[1])); ans=runJob(*S,line); }
    catch(EngineError&e){ Json j; j.str("status","error"); j.str("msg",e.what()); ans=j.done(); }
    catch(Violation&v){ Json j; j.str("status","violation"); j.str("kind",v.kind); j.str("msg",v.msg); ans=j.done(); }
    catch(NonFinite&e){ Json j; j.str("status","violation"); j.str("kind","slack"); j.str("msg",e.what()); ans=j.done(); }
    catch(PathEnd&p){ Json j; j.str("status","error"); j.str("msg","path ended: "+p.why); ans=j.done(); }
    catch(z3::exception&e){ Json j; j.str("status","error"); j.str("msg",std::string("z3: ")+e.msg()); ans=j.done(); }
    catch(std::bad_alloc&){ Json j; j.str("status","error"); j.str("msg","out of memory"); ans=j.done(); }
    catch(std::exception&e){ Json j; j.str("status","error"); j.str("msg",e.what()); ans=j.done(); }
    std::cout<<ans<<std::endl;
    if(S&&(S->vm.objs.size()>2000000)) S.reset();
    if(S){ // give memory back between jobs
      S->vm.g.clear(); std::vector<u8>().swap(S->vm.g.op); std::vector<u32>().swap(S->vm.g.A); std::vector<u32>().swap(S->vm.g.B); std::vector<u8>().swap(S->vm.g.taint); S->vm.g.clear(); }
  }
}
