// Bounded exhaustive explorer ("stateless model checking" of real code).
//
// A scenario is a function that drives the real code and asks mc::choose(n) whenever the
// environment, the operation alphabet or the scheduler may decide. The explorer runs the scenario
// once per distinct sequence of answers (depth-first, replaying the prefix), so that every behaviour
// within the scenario's bounds is executed. The oracle is inside the scenario: mc::fail().
// A child process explores, the parent watches it: crashes and hangs become violations too.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <sys/resource.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>

namespace mc {

struct Prune {};                                  // abandon this execution (not a behaviour)
struct Violation { std::string key,msg; };

struct Scenario { std::string name; void (*body)(); int shards_quick,shards_thorough; };
inline std::vector<Scenario> & scenarios () { static std::vector<Scenario> v; return v; }
struct Reg { Reg (const char *n,void (*b)(),int sq=1,int st=8) { scenarios().push_back({n,b,sq,st}); } };
#define MC_SCENARIO(name,...) static void name(); static mc::Reg mc_reg_##name(#name,name,##__VA_ARGS__); static void name()

const int MAXCH = 4000;
// shared with the watching parent, so that it knows where a crash or hang happened
struct Shared { volatile int nchoice; volatile int choice[MAXCH]; volatile long executions; volatile int finished; };

struct State {
  Shared *sh = 0;
  std::vector<int> choice, width;  // current path
  size_t pos = 0;                  // next choice point of this execution
  int dev_bound = 1<<30, dev_used = 0;
  std::vector<int> devcost;        // cost of path element if !=0
  bool replaying = false, logging = false, verifying = false;
  bool thorough = false;
  int shard = 0, nshards = 1;
  long executions = 0, pruned = 0; 
  unsigned long long ops = 0;
  std::unordered_set<uint64_t> states, outcomes, visited;
  std::vector<std::string> log;
  std::vector<std::vector<std::string>> samples;
  std::map<std::string,long> counters;
  std::map<std::string,std::string> known;       // key -> description
  std::map<std::string,long> known_hit;
  long max_exec = 0;               // 0: no cap
  bool capped = false;
  double t0 = 0, time_cap = 0;
};
inline State & S () { static State *s = new State; return *s; }

inline double now () { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
inline bool thorough () { return S().thorough; }
inline bool logging () { return S().logging; }
#define MCLOG(expr) do { if( mc::logging() ) { std::ostringstream mc_os_; mc_os_ << expr; mc::S().log.push_back(mc_os_.str()); \
   if( mc::S().replaying ) std::cerr<<"  | "<<mc_os_.str()<<std::endl; } } while(0)

inline uint64_t hash (const void *p,size_t n,uint64_t h=1469598103934665603ULL)
{ const unsigned char *c=(const unsigned char*)p; for(size_t i=0;i<n;i++){h^=c[i];h*=1099511628211ULL;} return h; }
inline uint64_t hash (const std::string &s,uint64_t h=1469598103934665603ULL) { return hash(s.data(),s.size(),h); }

// the core: pick one of n alternatives; all of them are explored
inline int choose_cost (int n,bool deviation)
{
  State &s = S();
  if( n<=1 ) return 0;
  if( deviation && s.dev_used>=s.dev_bound ) return 0;
  size_t i = s.pos++;
  if( i<s.choice.size() )
  {
    if( s.replaying ) { if( i>=s.width.size() ) { s.width.resize(i+1,n); } s.width[i]=n; }
    else if( s.width[i]!=n ) { fprintf(stderr,"MC-INTERNAL: nondeterministic scenario: width %d!=%d at choice %d\n",s.width[i],n,(int)i); fflush(stderr); _exit(77); }
    if( s.choice[i]>=n ) { fprintf(stderr,"MC-INTERNAL: replayed choice out of range\n"); _exit(77); }
  }
  else
  { s.choice.push_back(0); s.width.push_back(n); }
  int c = s.choice[i];
  if( s.sh && i<(size_t)MAXCH ) { s.sh->choice[i]=c; s.sh->nchoice=i+1; }
  if( deviation && c ) s.dev_used++;
  // sharding on the first three choices
  if( s.nshards>1 && !s.replaying && i==2 )
  {
    uint64_t h = 0;
    for( int k=0;k<3;k++ ) h = h*s.width[k]+s.choice[k];
    if( int(h%s.nshards)!=s.shard ) throw Prune();
  }
  return c;
}
inline int choose (int n) { return choose_cost(n,false); }
inline int choose_dev (int n) { return choose_cost(n,true); }  // 0 is the default answer, others cost 1 deviation
inline bool flip () { return choose(2)!=0; }

inline void op (int n=1) { S().ops += n; }
inline void state (uint64_t h) { S().states.insert(h); }
inline void state (const std::string &s) { S().states.insert(hash(s)); }
inline void outcome (const std::string &s) { S().outcomes.insert(hash(s)); }
inline void count (const std::string &name,long n=1) { S().counters[name]+=n; }
// true if this state was reached before on another path, which was or will be continued there in the same way
// (never while replaying the prefix of a path, nor where sharding still decides)
inline bool revisit (const std::string &key)
{
  State &s = S();
  if( s.replaying || s.verifying || s.pos<s.choice.size() || (s.nshards>1 && s.pos<3) ) return false;
  return !s.visited.insert(hash(key)).second;
}

inline void (*&fail_hook ()) (const Violation &) { static void (*f)(const Violation &) = 0; return f; }
inline void fail (const std::string &key,const std::string &msg)
{
  State &s = S();
  auto it = s.known.find(key);
  if( it != s.known.end() ) { s.known_hit[key]++; return; }
  if( fail_hook() ) fail_hook()(Violation{key,msg});
  throw Violation{key,msg};
}
#define MC_CHECK(cond,key,msg) do { if( !(cond) ) { std::ostringstream mc_os_; mc_os_ << msg; mc::fail(key,mc_os_.str()); } } while(0)

inline std::string jstr (const std::string &s)
{
  std::string o="\"";
  for( unsigned char c : s )
    if( c=='"' || c=='\\' ) { o+='\\'; o+=c; }
    else if( c<32 || c>126 ) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; }
    else o+=c;
  return o+"\"";
}
template<class V> std::string jvec (const V &v) { std::string o="["; for(size_t i=0;i<v.size();i++){ if(i)o+=","; o+=std::to_string(v[i]); } return o+"]"; }

inline void begin_execution () 
{ State &s=S(); s.pos=0; s.dev_used=0; s.log.clear(); if(s.sh) s.sh->nchoice=0; }

inline std::string (*&exc_text ()) (const std::exception &) { static std::string (*f)(const std::exception &) = 0; return f; }
// runs one execution on the current prefix; true if it ended normally
inline bool run_one (void (*body)(),Violation &v,bool &violated)
{
  State &s=S(); violated=false; bool done=true;
  begin_execution();
  try { body(); }
  catch( Prune & ) { done=false; s.pruned++; }
  catch( Violation &x ) { v=x; violated=true; }
  catch( std::exception &x ) { v=Violation{"unexpected-exception",std::string("unexpected exception: ")+(exc_text()?exc_text()(x):std::string(x.what()))}; 
     auto it=s.known.find(v.key); violated = it==s.known.end(); if( !violated ) s.known_hit[v.key]++; }
  return done;
}

inline int report (const std::string &scen,const std::vector<int> &ch,const Violation &v,const std::vector<std::string> &log,const std::string &out)
{
  std::ofstream f(out);
  f<<"{\"scenario\":"<<jstr(scen)<<",\"thorough\":"<<(S().thorough?1:0)<<",\"choices\":"<<jvec(ch)<<",\"key\":"<<jstr(v.key)<<",\"message\":"<<jstr(v.msg)<<",\"log\":[";
  for(size_t i=0;i<log.size();i++) f<<(i?",":"")<<jstr(log[i]);
  f<<"]}\n";
  return 1;
}

// exit codes of the exploring child: 0 ok, 1 violation (report written), 77 internal error
inline int explore (const Scenario &sc,const std::string &out,const std::string &viol)
{
  State &s=S(); s.t0=now();
  long next_sample=1;
  while( true )
  {
    s.choice.resize(s.choice.size());
    s.logging = s.executions+1>=next_sample && s.samples.size()<4;
    Violation v; bool violated;
    bool done = run_one(sc.body,v,violated);
    if( done && s.nshards>1 && s.shard && s.pos<3 ) ; // short executions are counted by shard 0 only
    else if( done ) { s.executions++; if(s.sh) s.sh->executions=s.executions; }
    if( violated )
    {
      // replay before report: the same choices must violate again, with the log on
      std::vector<int> ch(s.choice.begin(),s.choice.begin()+std::min(s.pos,s.choice.size()));
      s.choice=ch; s.logging=true; 
      Violation v2; bool again; State keep;
      int ns=s.nshards; s.nshards=1; s.verifying=true;
      run_one(sc.body,v2,again);
      s.nshards=ns;
      if( !again ) { fprintf(stderr,"MC-INTERNAL: violation did not replay: %s\n",v.msg.c_str()); 
                     v.msg += " [NOT REPRODUCED ON REPLAY]"; v2=v; v2.key="unreproduced"; report(sc.name,ch,v2,s.log,viol); return 78; }
      report(sc.name,ch,v2,s.log,viol);
      return 1;
    }
    if( s.logging && done ) { s.samples.push_back(s.log); next_sample = s.samples.size()==1?50:next_sample*40; }
    // an execution shorter than the shard depth belongs to shard 0 only (it is re-run, harmlessly, by others)
    s.choice.resize(std::min(s.choice.size(),s.pos)); s.width.resize(s.choice.size());
    while( !s.choice.empty() && s.choice.back()+1>=s.width.back() ) { s.choice.pop_back(); s.width.pop_back(); }
    if( s.choice.empty() ) break;
    s.choice.back()++;
    if( s.max_exec && s.executions>=s.max_exec ) { s.capped=true; break; }
    if( s.time_cap>0 && (s.executions&63)==0 && now()-s.t0>s.time_cap ) { s.capped=true; break; }
  }
  std::ofstream f(out);
  f<<"{\"scenario\":"<<jstr(sc.name)<<",\"shard\":"<<s.shard<<",\"executions\":"<<s.executions<<",\"pruned\":"<<s.pruned<<",\"ops\":"<<s.ops
   <<",\"states\":"<<s.states.size()<<",\"outcomes\":"<<s.outcomes.size()<<",\"capped\":"<<(s.capped?"true":"false")<<",\"wall\":"<<(now()-s.t0);
  f<<",\"counters\":{"; { bool c=false; for(auto &k:s.counters){ f<<(c?",":"")<<jstr(k.first)<<":"<<k.second; c=true; } } f<<"}";
  f<<",\"known\":{"; { bool c=false; for(auto &k:s.known_hit){ f<<(c?",":"")<<jstr(k.first)<<":"<<k.second; c=true; } } f<<"}";
  f<<",\"samples\":["; for(size_t i=0;i<s.samples.size();i++){ f<<(i?",":"")<<"["; for(size_t j=0;j<s.samples[i].size()&&j<60;j++) f<<(j?",":"")<<jstr(s.samples[i][j]); f<<"]"; } f<<"]}\n";
  f.close();
  std::ofstream h(out+".hash",std::ios::binary);
  for( uint64_t x : s.states ) h.write((char*)&x,8);
  std::ofstream h2(out+".ohash",std::ios::binary);
  for( uint64_t x : s.outcomes ) h2.write((char*)&x,8);
  return 0;
}

inline std::vector<int> shared_path () { State &s=S(); std::vector<int> ch; for(int i=0;i<s.sh->nchoice&&i<MAXCH;i++) ch.push_back((int)s.sh->choice[i]); return ch; }

// hook run in the child before exploring (library initialisation)
inline void (*&child_init ()) () { static void (*f)()=0; return f; }

inline int wait_child (pid_t pid,double hang_s,std::string &how,bool wholerun)
{
  State &s=S(); long last=-1; int lastn=-1; double t=now();
  while( true )
  {
    int st; pid_t r=waitpid(pid,&st,WNOHANG);
    if( r==pid )
    {
      if( WIFSIGNALED(st) ) { how=std::string("killed by signal ")+strsignal(WTERMSIG(st)); return WTERMSIG(st)==SIGKILL ? -3 : -1; }
      return WEXITSTATUS(st);
    }
    long e=s.sh->executions; int n=s.sh->nchoice;
    if( wholerun && (e!=last || n!=lastn) ) { last=e; lastn=n; t=now(); }
    if( now()-t>hang_s ) { kill(pid,SIGKILL); waitpid(pid,&st,0); how="did not terminate (hang)"; return -2; }
    usleep(wholerun?5000:1000);
  }
}

inline int main_ (int argc,char **argv)
{
  State &s=S();
  { struct rlimit rl; rl.rlim_cur=rl.rlim_max=4ul<<30; setrlimit(RLIMIT_AS,&rl); }   // runaway allocations end this process, not its neighbours
  std::string scen,out="/dev/null",viol="/dev/null",knownf,replay; double hang=60;
  for( int i=1;i<argc;i++ )
  {
    std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if( a=="--list" ) { for(auto &c:scenarios()) printf("%s %d %d\n",c.name.c_str(),c.shards_quick,c.shards_thorough); return 0; }
    else if( a=="--run" ) scen=nx(); else if( a=="--tier" ) s.thorough = nx()=="thorough";
    else if( a=="--shard" ) { s.shard=atoi(argv[++i]); s.nshards=atoi(argv[++i]); }
    else if( a=="--out" ) out=nx(); else if( a=="--viol" ) viol=nx(); else if( a=="--known" ) knownf=nx();
    else if( a=="--replay" ) replay=nx(); else if( a=="--hang" ) hang=atof(argv[++i]);
    else if( a=="--max" ) s.max_exec=atol(argv[++i]); else if( a=="--time" ) s.time_cap=atof(argv[++i]);
    else { fprintf(stderr,"bad arg %s\n",a.c_str()); return 2; }
  }
  // no address space randomisation: addresses must not decide behaviour between replays
  int pers = personality(0xffffffff);
  // nor the free lists of the library's pool allocator
  setenv("GLIBCXX_FORCE_NEW","1",1);
  if( pers!=-1 && !(pers&ADDR_NO_RANDOMIZE) && !getenv("MC_REEXEC") )
  { setenv("MC_REEXEC","1",1); personality(pers|ADDR_NO_RANDOMIZE); execv("/proc/self/exe",argv); }
  if( !knownf.empty() ) { std::ifstream f(knownf); std::string l; while( std::getline(f,l) ) if(!l.empty()) s.known[l]=l; }
  s.sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  memset((void*)s.sh,0,sizeof(Shared));
  std::vector<int> rch;
  if( !replay.empty() )
  {
    std::ifstream f(replay); std::stringstream b; b<<f.rdbuf(); std::string t=b.str();
    size_t p=t.find("\"scenario\":\""); if(p==std::string::npos) return 2; p+=12; scen=t.substr(p,t.find('"',p)-p);
    p=t.find("\"thorough\":"); s.thorough = p!=std::string::npos && t[p+11]=='1';
    p=t.find("\"choices\":["); if(p==std::string::npos) return 2; p+=11; std::stringstream cs(t.substr(p,t.find(']',p)-p)); std::string x;
    while( std::getline(cs,x,',') ) if(!x.empty()) rch.push_back(atoi(x.c_str()));
  }
  const Scenario *sc=0; for(auto &c:scenarios()) if(c.name==scen) sc=&c;
  if( !sc ) { fprintf(stderr,"no scenario %s\n",scen.c_str()); return 2; }
  auto replay_in_child=[&](const std::vector<int> &ch,const std::string &vout,std::string &how)->int {
    fflush(0); pid_t pid=fork();
    if( !pid ) { 
      if( child_init() ) child_init()();
      s.choice=ch; s.width.clear(); s.replaying=true; s.logging=true; s.nshards=1; Violation v; bool vi; 
      std::ofstream *lf=0; (void)lf;
      // what an execution leaves behind in the process (caches, pools) may matter: if the first run shows nothing, run once more
      for(int k=0;k<2;k++) { if( k ) std::cerr<<"  | -- once more in the same process"<<std::endl; s.choice=ch; s.width.clear(); run_one(sc->body,v,vi); if( vi ) break; }
      if( vi ) { report(sc->name,ch,v,s.log,vout); std::cerr<<"violation: ["<<v.key<<"] "<<v.msg<<std::endl; fflush(0); _exit(1); }
      fflush(0); _exit(0); }
    return wait_child(pid,hang,how,false);
  };
  if( !replay.empty() )
  {
    std::string how; int rc=replay_in_child(rch,viol,how);
    printf("replay of %s: %s\n",scen.c_str(),rc==0?"no violation":rc==1?"VIOLATED":how.c_str()); return rc==0?0:1;
  }
  for( int attempt=0; attempt<2; attempt++ )
  {
    fflush(0); memset((void*)s.sh,0,sizeof(Shared));
    pid_t pid=fork();
    if( !pid ) { if( child_init() ) child_init()(); int rc=explore(*sc,out,viol); fflush(0); _exit(rc); }
    std::string how; int rc=wait_child(pid,hang,how,true);
    if( rc==0 || rc==1 ) return rc;
    if( rc==-3 ) { fprintf(stderr,"explorer was killed (memory?)\n"); return 2; }
    std::vector<int> ch=shared_path();
    long nex=s.sh->executions;
    if( rc==-1 || rc==-2 )
    {
      std::string how2; int r2=replay_in_child(ch,viol,how2);
      if( r2==-1 || r2==-2 ) { report(sc->name,ch,Violation{rc==-1?"crash":"hang","process "+how2},{},viol); return 1; }
      if( r2==1 ) return 1;
      if( attempt==1 ) { report(sc->name,ch,Violation{"crash","process "+how+" (twice, after "+std::to_string(nex)+" executions; not by this path alone)"},{},viol); return 1; }
      fprintf(stderr,"explorer %s after %ld executions, path alone does not reproduce it; exploring again\n",how.c_str(),nex);
      continue;
    }
    if( rc==78 && attempt==0 ) continue;   // violation that did not replay: try the run once more
    if( rc==78 ) { fprintf(stderr,"violation does not replay in isolation (twice)\n"); return 1; }
    if( attempt==0 ) { fprintf(stderr,"explorer exit %d, retrying\n",rc); continue; }
    report(sc->name,ch,Violation{"abnormal-exit","process exited with code "+std::to_string(rc)+(rc==77?": behaviour is not a function of inputs and schedule":"")},{},viol);
    return 1;
  }
  return 3;
}
} // namespace mc
#define MC_MAIN() int main (int argc,char **argv) { return mc::main_(argc,argv); }
#endif
