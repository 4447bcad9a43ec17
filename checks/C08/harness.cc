// C08: mutexes, conditions, reader-writer locks and threads under every schedule.
#include "mc.h"
#include "mcsched.h"
#include <TimBase/Thread/Mutex.h>
#include <TimBase/Thread/Condition.h>
#include <TimBase/Thread/SmartLock.h>
#include <TimBase/Thread/Thread.h>
#include <TimBase/Thread/Key.h>
#include <memory>
namespace LT=LOFAR::Thread; using std::string; using std::vector;
SCHED_TSAN_RUNTIME()
struct Job { std::function<void()> f; };
static void * runjob (void *p) { ((Job*)p)->f(); return p; }
// runs the bodies in threads of their own and joins them
static void threads (const vector<std::function<void()>> &b)
{
  vector<Job> j(b.size()); vector<LT::ThrID> t;
  for(size_t i=0;i<b.size();i++) j[i].f=b[i];
  for(size_t i=0;i<b.size();i++) t.push_back(LT::create(runjob,&j[i]));
  for(size_t i=0;i<b.size();i++) { void *r=0; int rc=t[i].join(r); MC_CHECK(rc==0 && r==&j[i],"join","join of thread "<<i<<" returns "<<rc<<", value "<<r<<" expected "<<&j[i]); }
}

// ---------------------------------------------------------------- mutexes and lock objects
// each thread owns two lock objects; there are two mutexes, B is only waited for while A is not wanted later
enum { LOCKA,LOCKB,TRYA,TRYB,REA,REB,RETRYA,RETRYB,REL,COPY,COPYREL,ASSIGN,ASSIGN0,CTOR,CTORTRY,RAWA,RAWUA,RAWTRYA,RWU,NMOP };
static const char *MN[]={"lock(A)","lock(B)","lock(A,TRY)","lock(B,TRY)","relock(A)","relock(B)","relock(A,TRY)","relock(B,TRY)","release","copy","copy.release","assign","assign empty","Lock(A)","Lock(A,TRY)","A.lock","A.unlock","A.trylock","release_without_unlock"};
struct MState { int l=-1,c=-1; int raw=0; int nheld[2]={0,0}; };   // what the lock object and its copy hold
struct MRun
{
  LT::Mutex m[2]; int held[2][4]={{0}}; int from[4]={-1,-1,-1,-1},to[4]={0};    // model: who holds what; who is relocking
  void got (int t,int x) { for(int o=0;o<4;o++) MC_CHECK(o==t || !held[x][o],"exclusion","thread "<<t<<" has mutex "<<x<<" while thread "<<o<<" holds it"); 
    // a relock lets go of the old mutex only when it has the new one
    for(int o=0;o<4;o++) if( o!=t && from[o]==x && tid[o]>=0 ) MC_CHECK(owner(to[o])==tid[o],"relock","thread "<<t<<" has mutex "<<x<<", which thread "<<o<<" gave up before it has mutex "<<to[o]);
    held[x][t]++; }
  int tid[4]={-1,-1,-1,-1};
  int owner (int x) { for(auto &p:sched::S().mtx) if( (char*)p.first>=(char*)&m[x] && (char*)p.first<(char*)(&m[x]+1) && p.second.count ) return p.second.owner; return -1; }
  void lost (int t,int x) { held[x][t]--; }
};
// is the operation allowed in this state, by the locking order and by the interface? (static, before running)
static bool mvalid (const MState &s,int op)
{
  auto holdsB=[&]{ return s.l==1||s.c==1; }; auto holdsA=[&]{ return s.l==0||s.c==0||s.raw>0; };
  switch(op)
  {
    // lock() releases first
    case LOCKA: return !(s.c==1) || s.c==0 || s.raw;
    case LOCKB: case TRYA: case TRYB: case RETRYA: case RETRYB: return true;
    case REA: return !holdsB() || holdsA();       // would wait for A with B
    case REB: return true;
    case REL: return s.l>=0;
    case COPY: return s.c<0 && s.l>=0; case COPYREL: return s.c>=0;
    case ASSIGN: return s.c>=0; case ASSIGN0: return s.l>=0;
    case CTOR: return !holdsB()||holdsA(); case CTORTRY: return true;
    case RAWA: return !holdsB()||holdsA(); case RAWUA: return s.raw>0; case RAWTRYA: return true;
    case RWU: return s.l==0;
  }
  return true;
}
// the most that may be held after it (a try may fail at run time)
static void mapply (MState &s,int op)
{
  switch(op)
  { case LOCKA: case TRYA: case REA: case RETRYA: s.l=0; break; case LOCKB: case TRYB: case REB: case RETRYB: s.l=1; break;
    case REL: case ASSIGN0: s.l=-1; break; case COPY: s.c=s.l; break; case COPYREL: s.c=-1; break; case ASSIGN: s.l=s.c; break;
    case RAWA: case RAWTRYA: s.raw++; break; case RAWUA: s.raw--; break; case RWU: s.l=-1; s.raw++; break; }
}
static void mthread (MRun &R,int t,const vector<int> &prog)
{
  typedef LT::Mutex::Lock Lk;
  Lk l; std::unique_ptr<Lk> c; int ml=-1,mc_=-1,raw=0;     // model of this thread, with tries resolved
  auto me=[&]{ return sched::S().cur; }; R.tid[t]=me()->id;
  auto truth=[&](const char *op){
    int cnt[2]={0,0}; if( ml>=0 ) cnt[ml]++; if( mc_>=0 ) cnt[mc_]++; cnt[0]+=raw;
    MC_CHECK(l.locked()==(ml>=0) && bool(l)==(ml>=0) && !l==(ml<0),"locked","after "<<op<<" the lock object says locked="<<l.locked()<<", expected "<<(ml>=0));
    if( c ) MC_CHECK(c->locked()==(mc_>=0),"locked","after "<<op<<" the copy says locked="<<c->locked());
    for(int x=0;x<2;x++) 
    { MC_CHECK(R.held[x][t]==cnt[x],"internal","model"); 
      auto i=sched::S().mtx.begin(); (void)i; int real=0; for(auto &p:sched::S().mtx) if( (char*)p.first>=(char*)&R.m[x] && (char*)p.first<(char*)(&R.m[x]+1) && p.second.owner==me()->id ) real=p.second.count;
      MC_CHECK(real==cnt[x],"held","after "<<op<<" thread "<<t<<" holds mutex "<<char('A'+x)<<" "<<real<<" times, expected "<<cnt[x]); }
  };
  auto acquire=[&](int &slot,int x,bool ok){ if( ok ) { R.got(t,x); slot=x; } else slot=-1; };
  for(int op:prog)
  {
    mc::op(); long nb=me()->nblock; bool istry=false;
    // operations that became impossible because a try failed are skipped
    MState s; s.l=ml; s.c=mc_; s.raw=raw; if( !mvalid(s,op) ) continue;
    int old=ml;
    auto drop=[&](int x){ if( x>=0 ) R.lost(t,x); };
    switch(op)
    {
      case LOCKA: case LOCKB: drop(ml); ml=-1; l.lock(R.m[op-LOCKA]); acquire(ml,op-LOCKA,true); break;
      case TRYA: case TRYB: istry=true; drop(ml); ml=-1; l.lock(R.m[op-TRYA],LT::Mutex::TRY); acquire(ml,op-TRYA,l.locked()); break;
      // relock holds both for a while, and lets go of the old one in the end
      case REA: case REB: drop(old); ml=-1; if( old>=0 ) { R.from[t]=old; R.to[t]=op-REA; } l.relock(R.m[op-REA]); R.from[t]=-1; acquire(ml,op-REA,true); break;
      case RETRYA: case RETRYB: istry=true; drop(old); ml=-1; l.relock(R.m[op-RETRYA],LT::Mutex::TRY); acquire(ml,op-RETRYA,l.locked()); break;
      case REL: drop(ml); ml=-1; l.release(); break;
      case COPY: c.reset(new Lk(l)); acquire(mc_,ml,true); break;
      case COPYREL: drop(mc_); mc_=-1; c.reset(); break;
      case ASSIGN: drop(old); ml=-1; l=*c; acquire(ml,mc_,true); break;
      case ASSIGN0: { drop(ml); ml=-1; Lk e; l=e; break; }
      case CTOR: { Lk n(R.m[0]); R.got(t,0); MC_CHECK(n.locked(),"locked","a constructed lock is not locked"); R.lost(t,0); break; }
      case CTORTRY: { istry=true; Lk n(R.m[0],LT::Mutex::TRY); if( n.locked() ) { R.got(t,0); R.lost(t,0); } else { bool own=R.held[0][t]>0; MC_CHECK(!own,"try","a try-lock of a mutex held by the same thread failed"); } break; }
      case RAWA: { int rc=R.m[0].lock(); MC_CHECK(rc==0,"raw","lock() returns "<<rc); R.got(t,0); raw++; break; }
      case RAWUA: { R.lost(t,0); raw--; int rc=R.m[0].unlock(); MC_CHECK(rc==0,"raw","unlock() returns "<<rc); break; }
      case RAWTRYA: { istry=true; int rc=R.m[0].trylock(); if( rc==0 ) { R.got(t,0); raw++; } break; }
      case RWU: ml=-1; l.release_without_unlock(); raw++; break;
    }
    if( istry ) 
    { MC_CHECK(me()->nblock==nb,"try","thread "<<t<<" was blocked in "<<MN[op]); }
    mc::outcome(string(MN[op])+(l.locked()?"+":"-")+std::to_string(ml));
    truth(MN[op]);
  }
  while( raw ) { R.lost(t,0); raw--; R.m[0].unlock(); }
  if( ml>=0 ) R.lost(t,ml); if( mc_>=0 ) R.lost(t,mc_);
}
static void mprogs (int len,vector<vector<int>> &out,vector<int> pre,MState s)
{
  if( !pre.empty() ) out.push_back(pre);
  if( (int)pre.size()==len ) return;
  for(int op=0;op<NMOP;op++) if( mvalid(s,op) ) { MState n=s; mapply(n,op); auto p=pre; p.push_back(op); mprogs(len,out,p,n); }
}
static string pstr (const vector<int> &p) { string s; for(int o:p) s+=string(s.empty()?"":"; ")+MN[o]; return s; }
static void mutexes (const vector<const vector<vector<int>>*> &ps,int preempt)
{
  vector<vector<int>> prog; string d; int last=-1;
  for(size_t t=0;t<ps.size();t++) { int k=mc::choose(ps[t]->size()); if( t && ps[t]==ps[t-1] && k<last ) throw mc::Prune(); last=k; prog.push_back((*ps[t])[k]); d+=" T"+std::to_string(t)+": "+pstr(prog.back()); }
  MCLOG(d); mc::state(d);
  sched::Opt o; o.preemptions=preempt; std::unique_ptr<MRun> R(new MRun);
  try
  { sched::run(o,[&]{
      vector<std::function<void()>> b; for(size_t t=0;t<prog.size();t++) b.push_back([&R,&prog,t]{ mthread(*R,t,prog[t]); });
      threads(b);
      // everything is free again
      for(int x=0;x<2;x++) { int rc=R->m[x].trylock(); MC_CHECK(rc==0,"released","mutex "<<char('A'+x)<<" is still locked at the end"); for(auto &p:sched::S().mtx) if( (char*)p.first>=(char*)&R->m[x] && (char*)p.first<(char*)(&R->m[x]+1) ) MC_CHECK(p.second.count==1,"released","mutex "<<char('A'+x)<<" is still held at the end"); R->m[x].unlock(); }
    }); }
  catch( mc::Violation &v ) { v.msg+=" in"+d; throw; }
}
MC_SCENARIO(mutex1,1,1)      // one thread: every history of lock objects
{ static vector<vector<int>> p; if( p.empty() ) mprogs(mc::thorough()?5:4,p,{},MState()); mutexes({&p},0); }
MC_SCENARIO(mutex2,8,16)
{ static vector<vector<int>> p; if( p.empty() ) mprogs(2,p,{},MState()); mutexes({&p,&p},mc::thorough()?2:1); }
MC_SCENARIO(mutex3,8,16)
{ static vector<vector<int>> p; if( p.empty() ) mprogs(1,p,{},MState()); static vector<vector<int>> h={{LOCKA,REL},{LOCKA,COPY,REL,COPYREL},{LOCKB,REL}}; mutexes({&h,&p,&p},2); }
MC_SCENARIO(mutex2long,8,16)
{ static vector<vector<int>> p; if( p.empty() ) mprogs(3,p,{},MState()); static vector<vector<int>> h={{LOCKA},{LOCKB},{LOCKA,REB},{RAWA,RAWUA},{LOCKB,REL}}; mutexes({&h,&p},mc::thorough()?2:1); }

// ---------------------------------------------------------------- reader-writer locks
enum { RL,RU,WL,WU,UP,DOWN, OR,OW,OUP,ODOWN,OCOPY,OASSIGN0,OREL,OREW,ORER,ONESTR,ONESTW,OASSIGN,OUPG, NSOP };
static const char *SN[]={"rlock","runlock","wlock","wunlock","wlock_upgrade","rlock_downgrade","Lock(r)","Lock(w)","relock(true)","relock(false)","copy","assign empty","release","relock(L,w)","relock(L,r)","Read","Write","assign","WriteUpgrade"};
struct SState { int r=0,w=0; int o=0; };    // held reads and writes in all, and by the lock object (0 none 1 read 2 write)
static bool svalid (const SState &s,int op)
{
  switch(op)
  {
    case RL: return s.r+s.w<3; case RU: return s.r-(s.o==1)>0; case WL: return (s.w || !s.r) && s.r+s.w<3; case WU: return s.w-(s.o==2)>0;
    case UP: return s.w ? s.r-(s.o==1)==0 && s.r+s.w<3 : s.r==1 && s.o!=1; case DOWN: return s.w-(s.o==2)>0;
    case OR: case OW: return s.o==0 && s.r+s.w==0; 
    case OUP: return s.o==1 && s.r==1 && !s.w; case ODOWN: return s.o==2;
    case OCOPY: return s.o; case OASSIGN0: case OREL: return s.o; case OREW: return s.o!=1 && (s.w||!s.r) && s.r+s.w<3; case ORER: return s.r+s.w<3;
    case ONESTR: return true; case ONESTW: return s.w || !s.r; case OASSIGN: return s.o; case OUPG: return s.r==1 && !s.o && !s.w;
  }
  return false;
}
static void sapply (SState &s,int op)
{
  switch(op)
  {
    case RL: s.r++; break; case RU: s.r--; break; case WL: s.w++; break; case WU: s.w--; break;
    case UP: if( !s.w ) s.r--; s.w++; break; case DOWN: s.w--; s.r++; break;
    case OR: s.o=1; s.r++; break; case OW: s.o=2; s.w++; break; case OUP: s.o=2; s.r--; s.w++; break; case ODOWN: s.o=1; s.w--; s.r++; break;
    case OASSIGN0: case OREL: if( s.o==1 ) s.r--; else s.w--; s.o=0; break;
    case OREW: if( s.o==2 ) s.w--; s.w++; s.o=2; break; case ORER: if( s.o==1 ) s.r--; if( s.o==2 ) s.w--; s.r++; s.o=1; break;
    case OUPG: s.r--; break;
  }
}
struct SRun
{
  LT::SmartLock L; SState st[4];
  // the invariant, from the point of view of a thread that has just got something
  void check (int t,const char *op)
  { for(int o=0;o<4;o++) if( o!=t ) { MC_CHECK(!(st[t].w && (st[o].r||st[o].w)),"exclusion","thread "<<t<<" is writer after "<<op<<" while thread "<<o<<" holds "<<st[o].r<<" read and "<<st[o].w<<" write locks");
      MC_CHECK(!(st[t].r && st[o].w),"exclusion","thread "<<t<<" is reader after "<<op<<" while thread "<<o<<" is writer"); } }
};
static void sthread (SRun &R,int t,const vector<int> &prog)
{
  typedef LT::SmartLock SL; SState &s=R.st[t]; std::unique_ptr<SL::Lock> a;
  for(int op:prog)
  {
    mc::op(); int rc=0; SState n=s; sapply(n,op);
    // what is given up counts as given up before the call, what is obtained counts after it
    SState d=n; d.r=std::min(s.r,n.r); d.w=std::min(s.w,n.w); if( op==DOWN || op==ODOWN ) d=s; if( (op==OREW||op==ORER||op==OASSIGN) ) d.r=std::min(d.r,s.r-(s.o==1)),d.w=std::min(d.w,s.w-(s.o==2)); if( d.r<0 ) d.r=0;
    if( op==DOWN || op==ODOWN ) { d=s; d.w--; d.r++; }        // never without a lock in between
    s=d;
    switch(op)
    {
      case RL: rc=R.L.rlock(); break; case RU: rc=R.L.runlock(); break; case WL: rc=R.L.wlock(); break; case WU: rc=R.L.wunlock(); break;
      case UP: rc=R.L.wlock_upgrade(); break; case DOWN: rc=R.L.rlock_downgrade(); break;
      case OR: case OW: a.reset(new SL::Lock(R.L,op==OW)); break; case OUP: rc=a->relock(true); break; case ODOWN: rc=a->relock(false); break;
      case OCOPY: { SL::Lock b(*a); MC_CHECK(b.locked(),"locked","a copied lock is not locked"); rc=b.release(); break; }
      case OASSIGN: { SL::Lock b; b=*a; break; }
      case OASSIGN0: { SL::Lock e; *a=e; MC_CHECK(!a->locked(),"locked","an assigned empty lock is locked"); a.reset(); break; }
      case OREL: rc=a->release(); MC_CHECK(!a->locked(),"locked","a released lock is locked"); a.reset(); break;
      case OREW: case ORER: if( !a ) a.reset(new SL::Lock); rc=a->relock(R.L,op==OREW); break;
      case ONESTR: { SL::Read r(R.L); SState k=s; s.r++; R.check(t,SN[op]); s=k; break; }
      case ONESTW: { SL::Write w(R.L); SState k=s; s.w++; R.check(t,SN[op]); s=k; break; }
      case OUPG: { SL::WriteUpgrade w(R.L); SState k=s; s.w++; R.check(t,SN[op]); s=k; break; }
    }
    s=n; 
    MC_CHECK(rc==0,"rc",SN[op]<<" returns "<<rc); if( a ) MC_CHECK(a->locked(),"locked","the lock object is not locked after "<<SN[op]);
    R.check(t,SN[op]);
  }
  // let go of everything, writes last
  if( a ) { int o=s.o; if( o==1 ) s.r--; else s.w--; s.o=0; a.reset(); }
  while( s.r ) { s.r--; int rc=R.L.runlock(); MC_CHECK(rc==0,"rc","runlock returns "<<rc<<" though a read lock is held"); }
  while( s.w ) { s.w--; int rc=R.L.wunlock(); MC_CHECK(rc==0,"rc","wunlock returns "<<rc<<" though a write lock is held"); }
}
static void sprogs (int len,const vector<int> &ops,vector<vector<int>> &out,vector<int> pre,SState s,bool full)
{
  if( !pre.empty() && (!full || (int)pre.size()==len) ) out.push_back(pre);
  if( (int)pre.size()==len ) return;
  for(int op:ops) if( svalid(s,op) ) { SState n=s; sapply(n,op); auto p=pre; p.push_back(op); sprogs(len,ops,out,p,n,full); }
}
static bool upgrades (const vector<int> &p) { for(int o:p) if( o==UP||o==OUP||o==OUPG ) return true; return false; }
static string sstr (const vector<int> &p) { string s; for(int o:p) s+=string(s.empty()?"":"; ")+SN[o]; return s; }
static void smart (const vector<const vector<vector<int>>*> &ps,int preempt,bool mem)
{
  vector<vector<int>> prog; string d; int last=-1,up=0;
  for(size_t t=0;t<ps.size();t++) { int k=mc::choose(ps[t]->size()); if( t && ps[t]==ps[t-1] && k<last ) throw mc::Prune(); last=k; prog.push_back((*ps[t])[k]); up+=upgrades(prog.back()); d+=" T"+std::to_string(t)+": "+sstr(prog.back()); }
  if( up>1 ) throw mc::Prune();          // two threads upgrading at once wait for each other, by definition
  MCLOG(d); mc::state(d);
  sched::Opt o; o.preemptions=preempt; o.mem_points=mem; o.spurious=false; std::unique_ptr<SRun> R(new SRun);
  try
  { sched::run(o,[&]{
      vector<std::function<void()>> b; for(size_t t=0;t<prog.size();t++) b.push_back([&R,&prog,t]{ sthread(*R,t,prog[t]); });
      threads(b);
      int rc=R->L.runlock(); MC_CHECK(rc!=0,"released","a read lock is left over at the end"); rc=R->L.wunlock(); MC_CHECK(rc!=0,"released","a write lock is left over at the end");
      R->L.wlock(); R->L.wunlock(); R->L.rlock(); R->L.runlock();
    }); }
  catch( mc::Violation &v ) { v.msg+=" in"+d; throw; }
}
static const vector<int> RAW={RL,RU,WL,WU,UP,DOWN}, OBJ={OR,OW,OUP,ODOWN,OCOPY,OASSIGN0,OREL,OREW,ORER,ONESTR,ONESTW,OASSIGN,RL,OUPG};
MC_SCENARIO(smart1,1,1)
{ static vector<vector<int>> p,q; if( p.empty() ) { sprogs(mc::thorough()?6:5,RAW,p,{},SState(),false); sprogs(4,OBJ,q,{},SState(),false); p.insert(p.end(),q.begin(),q.end()); } smart({&p},0,false); }
MC_SCENARIO(smart2,8,16)
{ static vector<vector<int>> p; if( p.empty() ) sprogs(mc::thorough()?4:3,RAW,p,{},SState(),true); smart({&p,&p},2,false); }
MC_SCENARIO(smart2mem,8,16)
{ static vector<vector<int>> p; if( p.empty() ) sprogs(2,RAW,p,{},SState(),true); smart({&p,&p},mc::thorough()?3:2,true); }
MC_SCENARIO(smart2obj,8,16)
{ static vector<vector<int>> p,q; if( p.empty() ) { sprogs(mc::thorough()?3:2,OBJ,p,{},SState(),true); sprogs(2,OBJ,q,{},SState(),true); } smart({&p,&q},2,false); }
MC_SCENARIO(smart3,8,16)
{ static vector<vector<int>> p; if( p.empty() ) sprogs(mc::thorough()?3:2,RAW,p,{},SState(),true); smart({&p,&p,&p},1,false); }

// ---------------------------------------------------------------- conditions
static const double TS[]={0,1e-9,1e-3,0.25,0.5,0.75,0.999999,0.9999999,1,1.25,1.5,1.999,2,3.75,10,100};
static const int TSS[][2]={{0,0},{0,1},{0,1000},{0,500000000},{0,999999999},{1,0},{1,1},{1,500000000},{2,999999999},{0,700000000},{100,0}};
static const double FR[]={0,0.1,0.25,0.3,0.5,0.75,0.999,0.999999};
MC_SCENARIO(timeouts,1,1)     // a wait that nobody ends
{
  bool dbl=mc::flip(); int k=mc::choose(dbl?16:11), f=mc::choose(8); double d=dbl?TS[k]:TSS[k][0]+TSS[k][1]*1e-9;
  sched::Opt o; o.preemptions=0; o.t0=FR[f]; string c="wait("+std::to_string(d)+"s) at "+std::to_string(FR[f]); MCLOG(c); mc::state(c);
  sched::run(o,[&]{ LT::Condition cond; LT::Mutex::Lock l(cond); double t=sched::now(); mc::op(); int rc=dbl?cond.wait(d):cond.wait(TSS[k][0],TSS[k][1]); double e=sched::now()-t;
    MC_CHECK(rc==ETIMEDOUT,"timeout",c<<" returns "<<rc); MC_CHECK(e>=d-2e-6,"timeout",c<<" returned "<<d-e<<" s too early"); MC_CHECK(e<=d+2e-6,"timeout",c<<" returned "<<e-d<<" s too late"); });
}
// waiters (untimed or timed) and signallers, with a shared predicate
MC_SCENARIO(conditions,8,16)
{
  int nw=1+mc::choose(2), ns=1+mc::choose(2); vector<int> wt(nw),sg(ns),sd(ns); 
  // waiter kinds: 0 untimed loop, 1 timed 0.5 loop until flag or timeout, 2 timed sec/ns variant 1.7
  for(int &w:wt) w=mc::choose(3); 
  // signaller: 0 signal under lock, 1 broadcast under lock, 2 broadcast after unlock, 3 signal after unlock ; delay 0, 0.25, 1
  for(int i=0;i<ns;i++) { sg[i]=mc::choose(4); sd[i]=mc::choose(3); if( i && ( sg[i]<sg[i-1] || (sg[i]==sg[i-1]&&sd[i]<sd[i-1]) ) ) throw mc::Prune(); }
  for(int i=1;i<nw;i++) if( wt[i]<wt[i-1] ) throw mc::Prune();
  static const double DEL[]={0,0.25,1}, TO[]={0,0.5,1.7};
  string d="waiters"; for(int w:wt) d+=" "+std::to_string(w); d+=" signallers"; for(int i=0;i<ns;i++) d+=" "+std::to_string(sg[i])+"/"+std::to_string(sd[i]);
  MCLOG(d); mc::state(d);
  // every token wakes one waiter; all waiters together need nw tokens; the last signaller gives the rest and broadcasts
  sched::Opt o; o.preemptions=mc::thorough()?2:nw+ns<4?2:1; o.t0=0.75; o.timeouts_any=false;
  try { sched::run(o,[&]{
    LT::Condition cond; int tokens=0,taken=0,timedout=0,inside=0,done=0; double given=-1;
    vector<std::function<void()>> b;
    for(int i=0;i<nw;i++) b.push_back([&,i]{
      LT::Mutex::Lock l(cond); MC_CHECK(!inside,"exclusion","two threads inside"); inside=1; double t0=sched::now(),dl=t0+TO[wt[i]]; bool to=false;
      while( !tokens && !to ) { inside=0; int rc = wt[i]==0 ? cond.wait() : wt[i]==1 ? cond.wait(std::max(0.,dl-sched::now())) : cond.wait(1,700000000); MC_CHECK(!inside,"exclusion","a wait returned while another thread is inside the mutex"); inside=1; 
        MC_CHECK(rc==0||(wt[i]&&rc==ETIMEDOUT),"wait-rc","wait returns "<<rc); if( rc==ETIMEDOUT ) { to=true; MC_CHECK(sched::now()>=dl-2e-6,"timeout","timed out "<<dl-sched::now()<<" s early"); if( wt[i]==1 ) MC_CHECK(sched::now()<=std::max(dl,t0)+2e-6+1,"timeout","late"); } }
      if( tokens ) { tokens--; taken++; } else timedout++; inside=0; 
    });
    for(int i=0;i<ns;i++) b.push_back([&,i]{
      if( sd[i] ) usleep(useconds_t(DEL[sd[i]]*1e6));
      bool last=++done==ns; 
      LT::Mutex::Lock l(cond); MC_CHECK(!inside,"exclusion","two threads inside"); inside=1; tokens+= last ? nw : 1; given=sched::now(); inside=0;
      bool all = last || sg[i]==1 || sg[i]==2; 
      if( sg[i]>=2 ) l.release();
      int rc = all ? cond.broadcast() : cond.signal(); MC_CHECK(rc==0,"signal","signal returns "<<rc);
    });
    threads(b);
    mc::outcome(std::to_string(taken)+"/"+std::to_string(timedout));
  }); }
  catch( mc::Violation &v ) { v.msg+=" in "+d; throw; }
}
// signal wakes at least one, broadcast all, of those that wait (they wait without a predicate)
MC_SCENARIO(wakeups,4,8)
{
  int nw=1+mc::choose(3); bool all=mc::flip(); int nsig=1+mc::choose(nw); string d=std::to_string(nw)+" waiters, "+std::to_string(nsig)+(all?" broadcasts":" signals"); mc::state(d); MCLOG(d);
  sched::Opt o; o.preemptions=mc::thorough()?2:nw<3?2:1;
  try { sched::run(o,[&]{
    LT::Condition cond; int waiting=0,woken=0; vector<std::function<void()>> b;
    for(int i=0;i<nw;i++) b.push_back([&]{ LT::Mutex::Lock l(cond); waiting++; int rc=cond.wait(5.); MC_CHECK(rc==0||rc==ETIMEDOUT,"wait-rc","wait returns "<<rc); if( !rc ) woken++; });
    b.push_back([&]{ int need=0; 
      usleep(1000000); for(int k=0;k<(all?1:nsig);k++) { LT::Mutex::Lock l(cond); if( k==0 ) need=all?waiting:std::min(nsig,waiting); all ? cond.broadcast() : cond.signal(); }
      usleep(1000000); LT::Mutex::Lock l(cond); MC_CHECK(woken==need,"wakeup",woken<<" threads were woken, "<<need<<" expected, "<<waiting<<" waiting"); });
    threads(b); }); }
  catch( mc::Violation &v ) { v.msg+=" in "+d; throw; }
}
// ---------------------------------------------------------------- threads
static LT::Key *thekey=0;
MC_SCENARIO(create,1,1)
{
  int n=1+mc::choose(3); bool nested=mc::flip(); mc::state(std::to_string(n)+(nested?"n":""));
  sched::Opt o; o.preemptions=mc::thorough()?2:n<3&&!nested?2:1;
  sched::run(o,[&]{
    LT::Key key; int ran=0; vector<pthread_t> ids; LT::Mutex m;
    vector<std::function<void()>> b;
    for(int i=0;i<n;i++) b.push_back([&,i]{ 
      MC_CHECK(key.get()==0,"key","the key has a value in a new thread"); key=(void*)(long)(i+1); 
      { LT::Mutex::Lock l(m); ran++; for(auto x:ids) MC_CHECK(!(LT::ThrID(x)==LT::self()),"self","two threads have the same id"); ids.push_back(LT::self()); }
      if( nested ) { Job j; int v=0; j.f=[&]{ v=7; MC_CHECK(key.get()==0,"key","the key has a value in a new thread"); }; LT::ThrID t=LT::create(runjob,&j); void *r=0; t.join(r); MC_CHECK(v==7 && r==&j,"join","join of a nested thread"); }
      MC_CHECK(key.get()==(void*)(long)(i+1),"key","the key has another thread's value"); });
    threads(b); MC_CHECK(ran==n,"create",ran<<" of "<<n<<" threads ran");
  });
}
MC_MAIN()
