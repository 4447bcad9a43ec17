// Controlled scheduler: runs multithreaded code deterministically, one thread at a time, and lets the
// explorer (mc.h) choose the next thread at every synchronisation operation.
// Threads are coroutines; the pthread, time and sleep functions are interposed from the executable, so the
// unmodified libraries run under it. Object files compiled with -fsanitize=thread (without the runtime)
// additionally yield at, and report, their memory accesses.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include "mc.h"
#include <ucontext.h>
#include <pthread.h>
#include <dlfcn.h>
#include <link.h>
#include <string.h>
#include <errno.h>
#include <cxxabi.h>
#include <sys/time.h>
#include <sys/select.h>
#include <algorithm>
#include <deque>
#include <signal.h>

namespace sched {

enum St { READY, MUTEX, COND, JOIN, SLEEP, DONE, SELECT };
struct Fiber
{
  int id; ucontext_t ctx; char *stack=0; St st=READY; void *waiton=0; bool timed=false,timedout=false; double deadline=0;
  void *(*fn)(void*)=0; void *arg=0; void *ret=0; bool detached=false,joined=false; char eh[16]; std::map<unsigned,void*> tls;
  const char *at=""; long seq=0; long nblock=0; long lastrun=-1;
  unsigned long sigmask=0,sigpend=0; std::function<bool()> ready;
};
struct Mtx { int owner=-1, count=0; };

struct Opt
{
  int preemptions=2;            // preemption bound (deviations)
  bool timeouts_any=false;      // a timed wait may expire although other threads could run (costs one deviation)
  bool spurious=false;          // condition waits may return without a signal (costs one deviation)
  bool fail_deadlock=true;
  bool mem_points=false;        // yield at instrumented memory accesses
  bool free_block=true;         // all choices explored when a thread blocks
  long max_steps=20000;
  double t0=0;                  // added to the initial time
};
struct Sched
{
  bool active=false, masked=false; Opt opt;
  std::vector<Fiber*> f; Fiber *cur=0; ucontext_t base;
  std::map<void*,Mtx> mtx; double now=0; long steps=0, seq=0;
  int outcome=0;                // 0 running, 1 main returned, 2 violation, 3 prune, 4 deadlock, 5 step limit
  mc::Violation viol; std::string dead; 
  std::vector<char*> pool; std::function<void()> body;
  void (*onkill)(pthread_t,int)=0; std::map<unsigned,void(*)(void*)> keydtor;
  std::string trace; bool tracing=false; pthread_t mainid; long switches=0;
  std::map<void*,std::string> names;
  std::map<int,struct sigaction> handlers; unsigned long procpend=0; Fiber *spinner=0; long spun=0, spins=0; std::function<int(int)> fdready;   // fdready(fd): 1 readable, 2 writable, 4 exception
};
inline Sched & S () { static Sched *s=new Sched; return *s; }
const size_t STACK=512*1024;
const double T0=1.0e9;

template<class F> F real (const char *n) { void *p=0; if( !strncmp(n,"pthread_cond",12) ) p=dlvsym(RTLD_NEXT,n,"GLIBC_2.3.2"); if(!p) p=dlsym(RTLD_NEXT,n); return (F)p; }
#define SCHED_REAL(name) static auto r = sched::real<decltype(&::name)>(#name)

inline char * getstack () { Sched &s=S(); if( !s.pool.empty() ) { char *p=s.pool.back(); s.pool.pop_back(); return p; } 
  return (char*)mmap(0,STACK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); }
inline void leave (int outcome) { Sched &s=S(); s.outcome=outcome; setcontext(&s.base); abort(); }
inline void violation (const std::string &key,const std::string &msg) 
{ auto &k=mc::S().known; auto it=k.find(key); if( it!=k.end() ) { mc::S().known_hit[key]++; leave(3); }
  S().viol=mc::Violation{key,msg}; leave(2); }
inline int pick (int n,bool dev)
{
  if( n<=1 ) return 0;
  int c=0; bool pr=false;
  try { c = mc::choose_cost(n,dev); } catch( mc::Prune & ) { pr=true; }
  if( pr ) leave(3);
  return c;
}
inline void swto (Fiber *t)
{
  Sched &s=S(); Fiber *from=s.cur; if( t==from ) return;
  from->lastrun=s.switches++;
  memcpy(from->eh,abi::__cxa_get_globals(),16); memcpy(abi::__cxa_get_globals(),t->eh,16);
  s.cur=t; if( mc::logging() ) MCLOG("  -> thread "<<t->id<<" ("<<t->at<<")");
  swapcontext(&from->ctx,&t->ctx);
}
inline bool enabled (Fiber *t)
{
  if( t->st==READY ) return true;
  if( t->st==MUTEX ) { auto &m=S().mtx[t->waiton]; return m.owner==-1; }
  if( t->st==SELECT ) return ((t->sigpend|S().procpend)&~t->sigmask) || (t->ready && t->ready());
  if( t->st==JOIN ) return ((Fiber*)t->waiton)->st==DONE;
  return false;
}
inline void fire (Fiber *t) { Sched &s=S(); if( s.now<t->deadline ) s.now=t->deadline; t->timedout=true; t->st=READY; t->timed=false; }
inline void watch () { Sched &s=S(); if( ++s.steps>s.opt.max_steps ) leave(5); }
// a scheduling point of a thread that could go on
inline void point (const char *at)
{
  Sched &s=S(); if( !s.active || s.masked ) return;
  watch(); s.cur->at=at;
  Fiber *alt[64]; int n=0,nt=0; alt[n++]=s.cur;
  for( auto t:s.f ) if( t!=s.cur && enabled(t) && n<60 ) alt[n++]=t;
  nt=n;
  if( s.opt.timeouts_any ) for( auto t:s.f ) if( t!=s.cur && (t->st==COND||t->st==SLEEP||t->st==SELECT) && t->timed && n<60 ) alt[n++]=t;
  if( s.opt.spurious ) for( auto t:s.f ) if( t!=s.cur && t->st==COND && n<60 ) alt[n++]=t;
  if( n==1 ) return;
  int c=pick(n,true); if( !c ) return;
  if( c>=nt ) { if( alt[c]->st==COND && !alt[c]->timed ) alt[c]->st=READY; else fire(alt[c]); }
  swto(alt[c]);
}
inline std::string describe ()
{
  std::ostringstream o; Sched &s=S(); static const char *n[]={"ready","waits for mutex","waits for condition","joins","sleeps","done","selects"};
  for( auto t:s.f ) { o<<"thread "<<t->id<<" "<<n[t->st]; if( t->st==MUTEX||t->st==COND ) { auto i=s.names.find(t->waiton); if( i!=s.names.end() ) o<<" "<<i->second; if( t->st==MUTEX ) o<<" held by "<<s.mtx[t->waiton].owner; } o<<" ["<<t->at<<"]; "; }
  return o.str();
}
// the running thread cannot go on
inline void block ()
{
  Sched &s=S();
  while( true )
  {
    watch();
    Fiber *alt[64]; int n=0; 
    for( auto t:s.f ) if( enabled(t) && n<60 ) alt[n++]=t;
    int nt=n;
    if( n && s.opt.timeouts_any ) for( auto t:s.f ) if( (t->st==COND||t->st==SLEEP||t->st==SELECT) && t->timed && n<60 ) alt[n++]=t;
    if( !n )
    {
      Fiber *e=0; for( auto t:s.f ) if( (t->st==COND||t->st==SLEEP||t->st==SELECT) && t->timed && (!e || t->deadline<e->deadline) ) e=t;
      if( !e ) { s.dead=describe(); leave(4); }
      fire(e); continue;
    }
    // taking a timeout instead of an enabled thread is a deviation
    int c;
    if( n>nt && mc::S().dev_used<mc::S().dev_bound ) { c = pick(1+(n-nt),true); if( c ) { fire(alt[nt+c-1]); swto(alt[nt+c-1]); return; } }
    c = s.opt.free_block ? pick(nt,false) : pick(nt,true);
    swto(alt[c]); return;
  }
}
inline void mlock (void *m,int kind)
{
  Sched &s=S(); Fiber *me=s.cur; point("lock");
  while( true )
  {
    Mtx &x=s.mtx[m];
    if( x.owner==-1 ) { x.owner=me->id; x.count=1; me->st=READY; me->waiton=0; return; }
    if( x.owner==me->id && kind==1 ) { x.count++; me->st=READY; return; }
    me->st=MUTEX; me->waiton=m; me->nblock++; block();
  }
}
inline int munlock (void *m,bool yield=true)
{
  Sched &s=S(); Mtx &x=s.mtx[m];
  if( x.owner!=s.cur->id ) { if( x.owner==-1 && x.count==0 ) return 0; violation("unlock","thread "+std::to_string(s.cur->id)+" unlocks a mutex held by thread "+std::to_string(x.owner)); }
  if( --x.count==0 ) x.owner=-1;
  if( yield ) point("unlock");
  return 0;
}
inline int cwait (void *c,void *m,int kind,bool timed,double deadline)
{
  Sched &s=S(); Fiber *me=s.cur; point("wait");
  Mtx &x=s.mtx[m]; 
  if( x.owner!=me->id ) violation("wait-unlocked","condition wait without holding the mutex");
  if( timed && deadline<=s.now ) { munlock(m,false); mlock(m,kind); return ETIMEDOUT; }
  if( --x.count==0 ) x.owner=-1; 
  me->st=COND; me->waiton=c; me->timed=timed; me->deadline=deadline; me->timedout=false; me->seq=++s.seq;
  block();
  bool to=me->timedout; me->timedout=false; me->timed=false; me->waiton=0;
  bool mask=s.masked; s.masked=true; mlock(m,kind); s.masked=mask;
  return to ? ETIMEDOUT : 0;
}
inline int csignal (void *c,bool all)
{
  Sched &s=S(); point(all?"broadcast":"signal");
  std::vector<Fiber*> w; for( auto t:s.f ) if( t->st==COND && t->waiton==c ) w.push_back(t);
  if( w.empty() ) return 0;
  if( all ) for( auto t:w ) { t->st=READY; t->timed=false; }
  else { Fiber *t=w[pick(w.size(),false)]; t->st=READY; t->timed=false; }
  return 0;
}
inline void entry ()
{
  Sched &s=S(); Fiber *me=s.cur;
  try { if( me->id==0 ) s.body(); else me->ret=me->fn(me->arg); }
  catch( mc::Violation &v ) { s.viol=v; leave(2); }
  catch( mc::Prune & ) { leave(3); }
  catch( std::exception &x ) { std::string t=mc::exc_text()?mc::exc_text()(x):std::string(x.what()); violation("unexpected-exception","thread "+std::to_string(me->id)+": unexpected exception: "+t); }
  if( me->id==0 ) leave(1);
  for( int k=0;k<4;k++ ) { auto m=me->tls; me->tls.clear(); for( auto &x:m ) { auto d=s.keydtor.find(x.first); if( x.second && d!=s.keydtor.end() && d->second ) d->second(x.second); } if( me->tls.empty() ) break; }
  me->st=DONE; me->at="done"; block(); abort();
}
// ---- signals and select
inline unsigned long sigbits (const sigset_t *m) { unsigned long r=0; for(int i=1;i<64;i++) if( sigismember(m,i)==1 ) r|=1ul<<i; return r; }
inline void handle (int sig) { Sched &s=S(); auto i=s.handlers.find(sig); if( i==s.handlers.end() ) return; bool m=s.masked; s.masked=true; if( i->second.sa_flags&SA_SIGINFO ) i->second.sa_sigaction(sig,0,0); else if( i->second.sa_handler!=SIG_IGN && i->second.sa_handler!=SIG_DFL ) i->second.sa_handler(sig); s.masked=m; }
inline bool handle_pending (Fiber *t) { bool any=false; { auto p=S().procpend&~t->sigmask; t->sigpend|=p; S().procpend&=~p; } for(int i=1;i<64;i++) if( (t->sigpend&~t->sigmask)>>i&1 ) { t->sigpend&=~(1ul<<i); any=true; handle(i); } return any; }
inline void kill_fiber (Fiber *t,int sig) { if( t->st==DONE ) return; if( (t->sigmask>>sig&1) || t->st==SELECT ) t->sigpend|=1ul<<sig; else handle(sig); }
// a signal sent to the process: any thread that does not block it may get it; false if there is none
inline bool raise_ (int sig) { Sched &s=S(); point("raise"); std::vector<Fiber*> w; for(auto t:s.f) if( t->st!=DONE && !(t->sigmask>>sig&1) ) w.push_back(t); 
  if( w.empty() ) { s.procpend|=1ul<<sig; return true; } kill_fiber(w[pick(w.size(),false)],sig); return true; }
inline int fdscan (int n,fd_set *r,fd_set *w,fd_set *x,bool store)
{
  Sched &s=S(); int c=0; 
  for(int i=0;i<n;i++) { int q=s.fdready?s.fdready(i):0; auto one=[&](fd_set *f,int bit){ if( !f || !FD_ISSET(i,f) ) return; if( q&bit ) c++; else if( store ) FD_CLR(i,f); }; one(r,1); one(w,2); one(x,4); }
  return c;
}
inline int select_ (int n,fd_set *r,fd_set *w,fd_set *x,double to,const sigset_t *mask)
{
  Sched &s=S(); Fiber *me=s.cur; point("select"); unsigned long old=me->sigmask; if( mask ) me->sigmask=sigbits(mask);
  int c=0; bool intr=handle_pending(me); auto &spinner=s.spinner; auto &spun=s.spun; if( spinner!=me ) { spinner=me; spun=s.switches; s.spins=0; }
  if( !intr && !(c=fdscan(n,r,w,x,false)) && to!=0 )
  {
    me->st=SELECT; me->timed=to>0; me->deadline=s.now+to; me->timedout=false; me->at="select"; me->ready=[=]{ return fdscan(n,r,w,x,false)>0; };
    block(); me->st=READY; me->timed=false; me->timedout=false; me->ready=nullptr; intr=handle_pending(me);
  }
  else if( c || to==0 )
  {
    // polling in a loop: from the second round on, every thread that can run gets its turn before the next
    if( s.spins++>0 )
    {
      bool any=false; Fiber *t=0; for(auto q:s.f) if( q!=me && enabled(q) ) { any=true; if( q->lastrun<spun && (!t || q->lastrun<t->lastrun) ) t=q; }
      if( t ) { watch(); swto(t); }
      else if( any ) { spun=s.switches; s.spins=1; }
      else { Fiber *e=0; for(auto t:s.f) if( t!=me && (t->st==COND||t->st==SLEEP||t->st==SELECT) && t->timed && (!e || t->deadline<e->deadline) ) e=t; if( e ) { fire(e); swto(e); } }
    }
    handle_pending(me);
  }
  me->sigmask=old; handle_pending(me);
  if( intr ) { errno=EINTR; return -1; }
  return fdscan(n,r,w,x,true);
}
inline Fiber * spawn (void *(*fn)(void*),void *arg)
{
  Sched &s=S(); Fiber *t=new Fiber; if( s.cur && !s.f.empty() ) t->sigmask=s.cur->sigmask; t->id=s.f.size(); t->fn=fn; t->arg=arg; t->stack=getstack(); memset(t->eh,0,16); t->at="start";
  getcontext(&t->ctx); t->ctx.uc_stack.ss_sp=t->stack; t->ctx.uc_stack.ss_size=STACK; t->ctx.uc_link=0; makecontext(&t->ctx,(void(*)())entry,0);
  s.f.push_back(t); return t;
}
// runs body as the main thread; returns when it returns. Throws Violation/Prune as the scenario would.
inline void run (const Opt &o,std::function<void()> body)
{
  Sched &s=S(); s.opt=o; s.body=body; s.mtx.clear(); s.now=T0+o.t0; s.steps=0; s.seq=0; s.outcome=0; s.switches=0; s.names.clear(); s.handlers.clear(); s.fdready=nullptr; s.procpend=0; s.spinner=0; s.spun=0; s.spins=0; s.cur=0;
  mc::S().dev_bound=o.preemptions; mc::S().dev_used=0; s.mainid=pthread_self();
  for( auto t:s.f ) { s.pool.push_back(t->stack); delete t; } s.f.clear();
  Fiber *m=spawn(0,0); s.cur=m; 
  volatile bool back=false; static char eh0[16]; memcpy(eh0,abi::__cxa_get_globals(),16);
  mc::fail_hook() = [](const mc::Violation &v){ Sched &s=S(); if( !s.active ) return; s.viol=v; leave(2); };
  getcontext(&s.base);
  if( !back ) { back=true; s.active=true; s.masked=false; memset(abi::__cxa_get_globals(),0,16); setcontext(&m->ctx); }
  s.active=false; memcpy(abi::__cxa_get_globals(),eh0,16);
  mc::op(s.steps); mc::count("thread switches",s.switches);
  mc::S().dev_bound=1<<30;
  std::string d=s.dead; 
  if( s.outcome==2 ) throw s.viol;
  if( s.outcome==3 ) throw mc::Prune();
  if( s.outcome==4 && o.fail_deadlock ) mc::fail("deadlock","all threads are blocked: "+d);
  if( s.outcome==5 ) mc::fail("livelock","no end after "+std::to_string(o.max_steps)+" steps: "+describe());
}
inline bool deadlocked () { return S().outcome==4; }
inline int self () { return S().cur ? S().cur->id : 0; }
inline double now () { return S().now; }
// runs code without any scheduling point
struct Masked { bool m; Masked () { m=S().masked; S().masked=true; } ~Masked () { S().masked=m; } };
inline bool on () { return S().active; }
inline pthread_t idof (Fiber *f) { return f->id==0 ? S().mainid : (pthread_t)(0x10000+f->id); }
inline Fiber * fiberof (pthread_t t) { Sched &s=S(); if( t==s.mainid ) return s.f[0]; size_t i=(size_t)t-0x10000; return i<s.f.size()?s.f[i]:0; }
} // namespace sched

// the pool allocator inside libstdc++ locks mutexes of its own depending on what happened in earlier executions: those are no scheduling points
namespace sched {
inline bool fromlib (void *pc)
{
  static uintptr_t lo=0,hi=0; static bool init=false;
  if( !init ) { init=true; dl_iterate_phdr([](struct dl_phdr_info *i,size_t,void*)->int { 
      if( !i->dlpi_name || !strstr(i->dlpi_name,"libstdc++") ) return 0;
      for(int k=0;k<i->dlpi_phnum;k++) if( i->dlpi_phdr[k].p_type==PT_LOAD && (i->dlpi_phdr[k].p_flags&PF_X) ) { lo=i->dlpi_addr+i->dlpi_phdr[k].p_vaddr; hi=lo+i->dlpi_phdr[k].p_memsz; } return 1; },0); }
  return (uintptr_t)pc>=lo && (uintptr_t)pc<hi;
}
}
#define SCHED_ON() (sched::on() && !sched::fromlib(__builtin_return_address(0)))
extern "C" {
int pthread_mutex_lock (pthread_mutex_t *m) { if( SCHED_ON() ) { sched::mlock(m,m->__data.__kind&3); return 0; } SCHED_REAL(pthread_mutex_lock); return r(m); }
int pthread_mutex_unlock (pthread_mutex_t *m) { if( SCHED_ON() ) return sched::munlock(m); SCHED_REAL(pthread_mutex_unlock); return r(m); }
int pthread_mutex_trylock (pthread_mutex_t *m) 
{ 
  if( sched::on() ) { auto &s=sched::S(); sched::point("trylock"); auto &x=s.mtx[m]; if( x.owner==-1 ) { x.owner=s.cur->id; x.count=1; return 0; } if( x.owner==s.cur->id && (m->__data.__kind&3)==1 ) { x.count++; return 0; } return EBUSY; }
  SCHED_REAL(pthread_mutex_trylock); return r(m); 
}
int pthread_mutex_destroy (pthread_mutex_t *m) 
{ if( sched::on() ) { auto &s=sched::S(); auto i=s.mtx.find(m); if( i!=s.mtx.end() ) { if( i->second.owner!=-1 && i->second.owner!=s.cur->id ) sched::violation("mutex-destroyed","thread "+std::to_string(s.cur->id)+" destroys a mutex held by thread "+std::to_string(i->second.owner)); 
    for( auto t:s.f ) if( t->st==sched::MUTEX && t->waiton==m ) sched::violation("mutex-destroyed","thread "+std::to_string(s.cur->id)+" destroys a mutex another thread waits for"); s.mtx.erase(i); } return 0; }
  SCHED_REAL(pthread_mutex_destroy); return r(m); }
int pthread_cond_wait (pthread_cond_t *c,pthread_mutex_t *m) { if( sched::on() ) return sched::cwait(c,m,m->__data.__kind&3,false,0); SCHED_REAL(pthread_cond_wait); return r(c,m); }
int pthread_cond_timedwait (pthread_cond_t *c,pthread_mutex_t *m,const struct timespec *ts) 
{ if( sched::on() ) { if( ts->tv_nsec<0 || ts->tv_nsec>=1000000000 ) return EINVAL; return sched::cwait(c,m,m->__data.__kind&3,true,ts->tv_sec+ts->tv_nsec*1e-9); } SCHED_REAL(pthread_cond_timedwait); return r(c,m,ts); }
int pthread_cond_signal (pthread_cond_t *c) { if( sched::on() ) return sched::csignal(c,false); SCHED_REAL(pthread_cond_signal); return r(c); }
int pthread_cond_broadcast (pthread_cond_t *c) { if( sched::on() ) return sched::csignal(c,true); SCHED_REAL(pthread_cond_broadcast); return r(c); }
int pthread_cond_destroy (pthread_cond_t *c) { if( sched::on() ) { auto &s=sched::S(); for( auto t:s.f ) if( t->st==sched::COND && t->waiton==c ) sched::violation("cond-destroyed","condition destroyed while thread "+std::to_string(t->id)+" waits on it"); return 0; } SCHED_REAL(pthread_cond_destroy); return r(c); }
int pthread_create (pthread_t *t,const pthread_attr_t *a,void *(*fn)(void*),void *arg) 
{ if( sched::on() ) { sched::Fiber *f=sched::spawn(fn,arg); int ds=0; if( a ) { pthread_attr_getdetachstate(a,&ds); f->detached = ds==PTHREAD_CREATE_DETACHED; } *t=sched::idof(f); sched::point("create"); return 0; } SCHED_REAL(pthread_create); return r(t,a,fn,arg); }
int pthread_join (pthread_t t,void **ret) 
{ if( sched::on() ) { auto &s=sched::S(); auto *f=sched::fiberof(t); sched::point("join"); if( !f ) return ESRCH; if( f->detached || f->joined ) return EINVAL; s.cur->at="join"; 
    while( f->st!=sched::DONE ) { s.cur->st=sched::JOIN; s.cur->waiton=f; sched::block(); } s.cur->st=sched::READY; s.cur->waiton=0; f->joined=true; if( ret ) *ret=f->ret; return 0; } if( (size_t)t>=0x10000 && (size_t)t<0x20000 ) return ESRCH; SCHED_REAL(pthread_join); return r(t,ret); }
int pthread_detach (pthread_t t) { if( sched::on() ) { auto *f=sched::fiberof(t); if( f ) f->detached=true; return 0; } SCHED_REAL(pthread_detach); return r(t); }
pthread_t pthread_self (void) noexcept { if( sched::on() ) return sched::idof(sched::S().cur); SCHED_REAL(pthread_self); return r(); }
int pthread_kill (pthread_t t,int sig) noexcept { if( sched::on() ) { auto &s=sched::S(); if( s.onkill ) s.onkill(t,sig); sched::point("kill"); auto *f=sched::fiberof(t); if( !f ) return ESRCH; sched::kill_fiber(f,sig); return 0; } if( (size_t)t>=0x10000 && (size_t)t<0x20000 ) return ESRCH; SCHED_REAL(pthread_kill); return r(t,sig); }
int pthread_sigmask (int how,const sigset_t *set,sigset_t *old) noexcept { if( sched::on() ) { auto *f=sched::S().cur; unsigned long o=f->sigmask; if( old ) { sigemptyset(old); for(int i=1;i<64;i++) if( o>>i&1 ) sigaddset(old,i); } 
    if( set ) { unsigned long b=sched::sigbits(set); f->sigmask = how==SIG_BLOCK?o|b:how==SIG_UNBLOCK?o&~b:b; sched::handle_pending(f); } return 0; } SCHED_REAL(pthread_sigmask); return r(how,set,old); }
int sigaction (int sig,const struct sigaction *sa,struct sigaction *old) noexcept { if( sched::on() ) { auto &h=sched::S().handlers; if( old ) { memset(old,0,sizeof(*old)); if( h.count(sig) ) *old=h[sig]; } if( sa ) h[sig]=*sa; return 0; } SCHED_REAL(sigaction); return r(sig,sa,old); }
int select (int n,fd_set *r_,fd_set *w,fd_set *x,struct timeval *tv) { if( sched::on() ) return sched::select_(n,r_,w,x,tv?tv->tv_sec+tv->tv_usec*1e-6:-1,0); SCHED_REAL(select); return r(n,r_,w,x,tv); }
int pselect (int n,fd_set *r_,fd_set *w,fd_set *x,const struct timespec *tv,const sigset_t *m) { if( sched::on() ) return sched::select_(n,r_,w,x,tv?tv->tv_sec+tv->tv_nsec*1e-9:-1,m); SCHED_REAL(pselect); return r(n,r_,w,x,tv,m); }
int pthread_cancel (pthread_t t) { if( sched::on() ) return 0; SCHED_REAL(pthread_cancel); return r(t); }
void * pthread_getspecific (pthread_key_t k) noexcept { if( sched::on() && sched::S().cur->id ) { auto &m=sched::S().cur->tls; auto i=m.find(k); return i==m.end()?0:i->second; } SCHED_REAL(pthread_getspecific); return r(k); }
int pthread_setspecific (pthread_key_t k,const void *v) noexcept { if( sched::on() && sched::S().cur->id ) { sched::S().cur->tls[k]=(void*)v; return 0; } SCHED_REAL(pthread_setspecific); return r(k,v); }
int pthread_key_create (pthread_key_t *k,void (*d)(void*)) noexcept { SCHED_REAL(pthread_key_create); int x=r(k,d); if( !x ) { sched::S().keydtor[*k]=d; for( auto f:sched::S().f ) f->tls.erase(*k); } return x; }
int gettimeofday (struct timeval *tv,void *tz) noexcept { if( sched::on() ) { double t=sched::now(); tv->tv_sec=(time_t)t; tv->tv_usec=(long)((t-tv->tv_sec)*1e6+0.5); if( tv->tv_usec>=1000000 ) { tv->tv_sec++; tv->tv_usec-=1000000; } return 0; } SCHED_REAL(gettimeofday); return r(tv,tz); }
int clock_gettime (clockid_t c,struct timespec *tv) noexcept { if( sched::on() ) { double t=sched::now(); tv->tv_sec=(time_t)t; tv->tv_nsec=(long)((t-tv->tv_sec)*1e9); return 0; } SCHED_REAL(clock_gettime); return r(c,tv); }
static inline void sched_sleep (double dt) { auto &s=sched::S(); s.cur->st=sched::SLEEP; s.cur->at="sleep"; s.cur->timed=true; s.cur->deadline=s.now+dt; sched::block(); s.cur->timedout=false; }
int nanosleep (const struct timespec *a,struct timespec *b) { if( sched::on() ) { sched_sleep(a->tv_sec+a->tv_nsec*1e-9); return 0; } SCHED_REAL(nanosleep); return r(a,b); }
int usleep (useconds_t u) { if( sched::on() ) { sched_sleep(u*1e-6); return 0; } SCHED_REAL(usleep); return r(u); }
unsigned sleep (unsigned u) { if( sched::on() ) { sched_sleep(u); return 0; } SCHED_REAL(sleep); return r(u); }
int sched_yield (void) noexcept { if( sched::on() ) { sched::point("yield"); return 0; } SCHED_REAL(sched_yield); return r(); }
}

// ---- memory accesses of objects compiled with -fsanitize=thread
namespace sched {
inline void access (void *p,bool write)
{
  Sched &s=S(); if( !s.active || s.masked || !s.opt.mem_points ) return;
  if( (char*)p>=s.cur->stack && (char*)p<s.cur->stack+STACK ) return;   // own stack
  point(write?"write":"read");
}
}
#define SCHED_TSAN_RUNTIME() extern "C" { \
 void __tsan_init () {} void __tsan_func_entry (void*) {} void __tsan_func_exit () {} \
 void __tsan_vptr_update (void**,void*) {} void __tsan_vptr_read (void**) {} \
 void __tsan_read1 (void*p) { sched::access(p,false); } void __tsan_read2 (void*p) { sched::access(p,false); } void __tsan_read4 (void*p) { sched::access(p,false); } void __tsan_read8 (void*p) { sched::access(p,false); } void __tsan_read16 (void*p) { sched::access(p,false); } \
 void __tsan_write1 (void*p) { sched::access(p,true); } void __tsan_write2 (void*p) { sched::access(p,true); } void __tsan_write4 (void*p) { sched::access(p,true); } void __tsan_write8 (void*p) { sched::access(p,true); } void __tsan_write16 (void*p) { sched::access(p,true); } \
 void __tsan_unaligned_read2 (void*p) {} void __tsan_unaligned_read4 (void*p) {} void __tsan_unaligned_read8 (void*p) {} void __tsan_unaligned_write2 (void*p) {} void __tsan_unaligned_write4 (void*p) {} void __tsan_unaligned_write8 (void*p) {} \
 void __tsan_read_range (void*p,unsigned long) { sched::access(p,false); } void __tsan_write_range (void*p,unsigned long) { sched::access(p,true); } \
 unsigned char __tsan_atomic8_load (const volatile unsigned char *p,int) { return *p; } unsigned __tsan_atomic32_load (const volatile unsigned *p,int) { return *p; } unsigned long __tsan_atomic64_load (const volatile unsigned long *p,int) { return *p; } \
 unsigned __tsan_atomic32_fetch_add (volatile unsigned *p,unsigned v,int) { return __atomic_fetch_add(p,v,5); } unsigned __tsan_atomic32_fetch_sub (volatile unsigned *p,unsigned v,int) { return __atomic_fetch_sub(p,v,5); } }
#endif
