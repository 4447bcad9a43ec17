// C07: process queues (order, exactly once, holding) and events (timeouts, inputs, signals), polled and threaded.
#include <OCTOPUSSY/Dispatcher.h>
#include <OCTOPUSSY/WorkProcess.h>
#include <OCTOPUSSY/Message.h>
#include <DMI/Record.h>
#include "mcsched.h"
#include <memory>
#include <map>
namespace Debug { extern std::multimap<std::string,Context*> *contexts __attribute__((weak)); }
static void dropContexts () { if( &Debug::contexts && Debug::contexts ) for(auto i=Debug::contexts->begin();i!=Debug::contexts->end();) if( i->second ) ++i; else i=Debug::contexts->erase(i); }
using namespace DMI; using namespace Octopussy; using std::string; using std::vector;
struct Dropper { ~Dropper () { dropContexts(); } };
#define STR(x) ([&]{ std::ostringstream o_; o_<<x; return o_.str(); }())

// ---------------------------------------------------------------- the queue of a polled process
struct Item { int n,pri; };
struct QModel
{
  vector<Item> q; bool blocked=false;
  void enq (int n,int pri) { size_t i=0; while( i<q.size() && q[i].pri>=pri ) i++; if( !i ) blocked=false; q.insert(q.begin()+i,Item{n,pri}); }
  int find (int n) const { for(size_t i=0;i<q.size();i++) if( q[i].n==n ) return i; return -1; }
  string str () const { string s; for(auto &i:q) s+=" "+string(1,char('A'+i.n))+"/"+std::to_string(i.pri); return s+(blocked?" (held)":""); }
};
struct QWorld;
struct QWP : public WorkProcess
{
  QWorld &W; int self; QModel m; int depth=0; bool gone=false;
  QWP (QWorld &w,int i) : WorkProcess(AtomicID("X")),W(w),self(i) {}
  using WPInterface::setAutoCatch;
  virtual int receive (Message::Ref &mref);
};
static HIID idof (int n) { return HIID(string(1,char('A'+n))+(n%2?".Y":".X")); }
struct QWorld
{
  Dropper dr; Dispatcher dsp; QWP *w[2]; WPRef keep[2]; int next=0, offers=0; vector<int> pri; bool autoc; string d; int maxoffers;
  QWorld () : dsp(AtomicID(3),AtomicID(1)) { for(int i=0;i<2;i++) { w[i]=new QWP(*this,i); keep[i]=WPRef(w[i],DMI::ANONWR); WPRef r(keep[i]); dsp.attach(r); } }
  Message::Ref mk (int p) { int n=next++; pri.push_back(p); DMI::Record *r=new DMI::Record; (*r)[HIID("A")]=n*11+3; Message::Ref m(new Message(idof(n),r,0,p)); return m; }
  void to (int who,int p,QWP *from) { Message::Ref m=mk(p); w[who]->m.enq(next-1,p); from->send(m,w[who]->address()); }
  void both (int p) { Message::Ref m=mk(p); for(int i=0;i<2;i++) if( !w[i]->gone ) w[i]->m.enq(next-1,p); w[1]->send(m,MsgAddress(AtomicID("X"),AidAny,AtomicID(3),AtomicID(1))); }
};
int QWP::receive (Message::Ref &mref)
{
  mc::op(); MC_CHECK(mref.valid(),"offer",W.d<<": process "<<self<<" is offered no message"); const Message &msg=*mref; int n=toupper(msg.id()[0].toString()[0])-'A';
  W.d+=STR(" offer("<<self<<","<<char('A'+n)<<")"); MCLOG(W.d<<"  queue:"<<m.str());
  MC_CHECK(!gone,"detached",W.d<<": offered to a detached process");
  MC_CHECK(depth==0,"nested",W.d<<": offered while an earlier message is being received");
  MC_CHECK(!m.q.empty() && m.q[0].n==n,"order",W.d<<": the queue is"<<m.str()<<", but message "<<char('A'+n)<<" is offered");
  MC_CHECK(!m.blocked,"held",W.d<<": the queue is"<<m.str()<<"; the message was declined and nothing changed, but it is offered again");
  MC_CHECK(msg.priority()==W.pri[n] && msg.state()==0 && msg.payload().valid() && (*msg.payload()).objectType()==TpDMIRecord,"content",W.d<<": message has priority "<<msg.priority()<<" and state "<<msg.state());
  { const DMI::Record &r=static_cast<const DMI::Record&>(*msg.payload()); MC_CHECK(r[HIID("A")].as<int>()==n*11+3,"content",W.d<<": the payload has changed"); }
  int pri=W.pri[n]; auto drop=[&]{ int i=m.find(n); if( i>=0 ) m.q.erase(m.q.begin()+i); };
  int nth=W.offers++; int pol=0; if( nth<W.maxoffers ) pol = nth<2 && self==0 ? mc::choose(W.autoc?18:17) : self==0 ? mc::choose(3) : 0; 
  static const char *names[]={"accept","hold","requeue","xfer","detach","modify","forward","send-high,hold","send-low,accept","send-same,requeue","dequeue-all","yield","modify,hold","dequeue-2nd,hold","detachMyself","search","dequeue-none,hold","throw"};
  W.d+=string("=")+names[pol]; MCLOG("   "<<names[pol]); depth++; int res=Message::ACCEPT; bool changed=false;
  struct Out { int &d; ~Out () { d--; } } out{depth};
  switch( pol )
  {
    case 0: break;
    case 1: res=Message::HOLD; break;
    case 2: res=Message::REQUEUE; break;
    case 3: { Message::Ref k; k.xfer(mref); k().setState(7); break; }
    case 4: mref.detach(); break;
    case 5: mref().setState(7); mref().setPriority(1); break;
    case 6: { W.w[1]->m.enq(n,pri); send(mref,W.w[1]->address()); break; }
    case 7: W.to(0,pri+1,this); res=Message::HOLD; changed=true; break;
    case 8: W.to(0,pri-1,this); break;
    case 9: W.to(0,pri,this); res=Message::REQUEUE; break;
    case 10: dequeue(HIID(AidWildcard)); m.q.clear(); break;
    case 11: W.dsp.yield(); break;
    case 12: mref().setState(9); res=Message::HOLD; break;
    case 13: if( m.q.size()>1 ) { Message::Ref r; dequeue(1,&r); MC_CHECK(r.valid() && r->id()==idof(m.q[1].n),"dequeue",W.d<<": dequeued another message than the second"); m.q.erase(m.q.begin()+1); } res=Message::HOLD; break;
    case 14: detachMyself(); gone=true; m.q.clear(); break;
    case 15: for(int k=0;k<W.next;k++) for(size_t p=0;p<m.q.size();p++) { Message::Ref r; int i=searchQueue(idof(k),p,&r), e=-1; for(size_t j=p;j<m.q.size() && e<0;j++) if( m.q[j].n==k ) e=j; MC_CHECK(i==e && r.valid()==(e>=0),"search",W.d<<": searchQueue("<<char('A'+k)<<","<<p<<")="<<i<<", the queue is"<<m.str()); } break;
    case 16: dequeue(HIID("Z")); res=Message::HOLD; break;
    case 17: drop(); if( !m.q.empty() ) m.blocked=false; throw std::runtime_error("planned");
  }
  if( gone ) return res;
  if( res==Message::ACCEPT ) { drop(); if( !m.q.empty() ) m.blocked=false; }
  else if( res==Message::HOLD ) { if( !changed ) m.blocked=true; }
  else { drop(); m.enq(n,pri); m.blocked = m.q[0].n==n; }
  return res;
}
MC_SCENARIO(queue,8,16)
{
  QWorld W; W.autoc=mc::flip(); W.maxoffers=mc::thorough()?5:4; int depth=mc::thorough()?6:5;
  sched::Opt o; o.preemptions=0; o.max_steps=100000;
  sched::run(o,[&]{
    for(auto *p:W.w) if( W.autoc ) p->setAutoCatch(true); W.dsp.start(); W.dsp.poll(); for(auto *p:W.w) p->queue().clear(); W.dsp.poll();
    static const int P[]={Message::PRI_LOW,Message::PRI_NORMAL,Message::PRI_HIGH};
    for(int k=0;k<depth;k++)
    {
      int op = k==depth-1 ? 4 : mc::choose(k>1?6:5);
      if( op<3 ) { if( W.w[0]->gone ) break; W.d+=STR(" send("<<char('A'+W.next)<<","<<P[op]<<")"); W.to(0,P[op],W.w[1]); }
      else if( op==5 )
      {
        if( W.w[0]->gone ) break; W.d+=" dequeue(?.X)"; MCLOG(W.d); QModel &m=W.w[0]->m; bool head=!m.q.empty() && m.q[0].n%2==0; for(size_t i=0;i<m.q.size();) if( m.q[i].n%2==0 ) m.q.erase(m.q.begin()+i); else i++; if( head ) m.blocked=false;
        W.w[0]->dequeue(HIID("?.X")); W.to(1,Message::PRI_NORMAL,W.w[1]);   // the message to the other process makes the dispatcher poll
      }
      else if( op==3 ) { W.d+=STR(" to-both("<<char('A'+W.next)<<")"); W.both(Message::PRI_NORMAL); }
      else 
      { 
        W.d+=" poll"; MCLOG(W.d); W.dsp.poll(); 
        for(auto *p:W.w) if( !p->gone ) { MC_CHECK(p->m.q.empty() || p->m.blocked,"lost",W.d<<": after polling process "<<p->self<<" was not offered its messages, its queue should be"<<p->m.str());
          vector<int> q; for(auto &e:p->queue()) q.push_back(toupper(e.mref->id()[0].toString()[0])-'A'); vector<int> x; for(auto &e:p->m.q) x.push_back(e.n); MC_CHECK(q==x,"queue",W.d<<": process "<<p->self<<" has "<<q.size()<<" messages queued, expected"<<p->m.str()); }
      }
    }
    mc::state(W.d); W.dsp.stop();
  });
}
// ---------------------------------------------------------------- events of a polled process
struct Ev { double t; string what; };
struct EWP : public WorkProcess
{
  vector<Ev> log; std::function<int(const HIID&)> onto; std::function<int(int,int)> oninput; std::function<int(int)> onsig; std::function<void()> onstart; std::function<int(Message::Ref&)> onmsg;
  bool mt; EWP (bool m) : WorkProcess(AtomicID("X")),mt(m) {}
  using WPInterface::dsp;
  virtual bool start () { if( mt ) createWorker(); if( onstart ) onstart(); return false; }
  virtual int receive (Message::Ref &m) { return onmsg?onmsg(m):Message::ACCEPT; }
  virtual int timeout (const HIID &id) { mc::op(); log.push_back({sched::now()-sched::T0,id.toString()}); MCLOG("  timeout "<<id.toString()<<" at "<<log.back().t); return onto?onto(id):Message::ACCEPT; }
  virtual int input (int fd,int flags) { mc::op(); MCLOG("  input "<<fd<<","<<flags); return oninput?oninput(fd,flags):Message::ACCEPT; }
  virtual int signal (int s) { mc::op(); MCLOG("  signal "<<s); return onsig?onsig(s):Message::ACCEPT; }
};
struct EWorld { Dropper dr; Dispatcher dsp; EWP *w; WPRef keep; EWorld (bool mt=false) : dsp(AtomicID(3),AtomicID(1)) { w=new EWP(mt); keep=WPRef(w,DMI::ANONWR); WPRef r(keep); dsp.attach(r); } };
static pthread_t thread (std::function<void()> f) { pthread_t t; pthread_create(&t,0,[](void *p)->void*{ auto *f=(std::function<void()>*)p; (*f)(); delete f; return 0; },new std::function<void()>(f)); return t; }
// timeouts A and B with periods; what happens at A's n-th firing
MC_SCENARIO(timeouts,8,16)
{
  // period of A, of B, flags, action at a firing of A, by whom they are started
  static const double P[]={1,2,1.5}; double pa=P[mc::choose(3)], pb=P[mc::choose(3)]; int fa=mc::flip()?EV_ONESHOT:0, fb=mc::flip()?EV_ONESHOT:0; int act=mc::choose(7), nth=mc::choose(2); bool early=mc::flip(), bfirst=mc::flip(), mt=!early && mc::flip(); 
  static const char *acts[]={"nothing","cancel A","remove A","remove B","remove all","add C","remove and add A"};
  string d=STR("A every "<<pa<<(fa?" once":"")<<", B every "<<pb<<(fb?" once":"")<<", "<<acts[act]<<" at firing "<<nth<<" of A"<<(early?", started in start()":"")<<(bfirst?", B registered last":"")<<(mt?", threaded":"")); MCLOG(d); mc::state(d);
  EWorld W(mt); sched::Opt o; o.preemptions=mc::thorough()&&!mt?2:1; o.max_steps=100000;
  sched::run(o,[&]{
    EWP &w=*W.w; int na=0; auto begin=[&]{ if( bfirst ) w.addTimeout(Timestamp(pa),HIID("A"),fa); w.addTimeout(Timestamp(pb),HIID("B"),fb); if( !bfirst ) w.addTimeout(Timestamp(pa),HIID("A"),fa); w.addTimeout(Timestamp(6.25),HIID("Z"),EV_ONESHOT); };
    struct R { double from,period; bool on,once; }; std::map<string,R> reg; reg["A"]={0,pa,true,fa!=0}; reg["B"]={0,pb,true,fb!=0}; reg["Z"]={0,6.25,true,true}; 
    w.onto=[&](const HIID &id)->int {
      string s=id.toString(); for(auto &c:s) c=toupper(c); double t=sched::now()-sched::T0; MC_CHECK(reg.count(s) && reg[s].on,"removed",d<<": timeout "<<s<<" was delivered at "<<t<<" after it was removed"); R &r=reg[s];
      MC_CHECK(t>=r.from+r.period-1e-4,"early",d<<": timeout "<<s<<" delivered at "<<t<<", due at "<<r.from+r.period); MC_CHECK(t<=r.from+r.period+1e-3,"late",d<<": timeout "<<s<<" delivered at "<<t<<", due at "<<r.from+r.period); 
      r.from=t; if( r.once ) r.on=false;
      if( s=="Z" ) { W.dsp.stopPolling(); return Message::ACCEPT; }
      if( s=="A" && na++==nth ) switch( act )
      {
        case 1: reg["A"].on=false; return Message::CANCEL;
        case 2: reg["A"].on=false; MC_CHECK(w.removeTimeout(id)==!fa,"result",d<<": removeTimeout(A) result"); break;
        case 3: { bool was=reg["B"].on; reg["B"].on=false; bool res=w.removeTimeout(HIID("B")); if( !fb || !was ) MC_CHECK(res==was,"result",d<<": removeTimeout(B) result "<<res); break; }
        case 4: reg["A"].on=reg["B"].on=false; w.removeTimeout(HIID("A")); w.removeTimeout(HIID("B")); break;
        case 5: w.addTimeout(Timestamp(0.75),HIID("C"),0); reg["C"]={t,0.75,true,false}; break;
        case 6: w.removeTimeout(HIID("A")); w.addTimeout(Timestamp(0.5),HIID("A"),fa); reg["A"]={t,0.5,true,fa!=0}; break;
      }
      return Message::ACCEPT; };
    if( early ) w.onstart=begin; 
    W.dsp.start(); if( !early ) begin(); W.dsp.pollLoop();
    for(auto &r:reg) if( r.second.on ) MC_CHECK(r.second.from+r.second.period>6.25-1e-3,"missing",d<<": timeout "<<r.first<<" was due at "<<r.second.from+r.second.period<<", but was not delivered by 6.25");
    W.dsp.stop();
  });
}
// inputs: two descriptors that become ready, are read or not, removed in part or whole
MC_SCENARIO(inputs,8,16)
{
  int f5=mc::choose(3), f6=mc::choose(2), act=mc::choose(9), order=mc::choose(4), A=act?5+mc::choose(2):5, B=11-A; bool mt=mc::flip(); static const int F[]={EV_FDREAD,EV_FDREAD|EV_FDWRITE,EV_FDREAD|EV_ONESHOT};
  static const char *acts[]={"nothing","cancel","remove it for read","remove it","remove all","remove the other","add write to it","remove it and add it again","remove the other for read"};
  string d=STR("5:"<<std::hex<<F[f5]<<" 6:"<<F[f6]<<std::dec<<", "<<acts[act]<<" at the first input of "<<A<<", ready order "<<order<<(mt?", threaded":"")); MCLOG(d); mc::state(d);
  EWorld W(mt); sched::Opt o; o.preemptions=mc::thorough()?(mt?1:2):mt&&order!=3?0:1; o.max_steps=100000;
  sched::run(o,[&]{
    EWP &w=*W.w; std::map<int,int> ready,reg,once,served,ever; int n5=0; sched::S().fdready=[&](int fd){ return ready.count(fd)?ready[fd]:0; };
    auto add=[&](int fd,int fl) { w.addInput(fd,fl); reg[fd]|=fl&EV_FDALL; once[fd]=fl&EV_ONESHOT; };
    auto remove=[&](int fd,int fl) { if( fd<0 ) { reg.clear(); } else reg[fd]&=~fl; w.removeInput(fd,fl); };
    w.oninput=[&](int fd,int flags)->int {
      MC_CHECK(flags && !(flags&~reg[fd]),"removed",d<<": input("<<fd<<","<<std::hex<<flags<<") was delivered while "<<reg[fd]<<" is registered");
      served[fd]|=flags; MC_CHECK(!((flags&EV_FDREAD?1:0)&~ever[fd]) && !((flags&EV_FDWRITE?2:0)&~ever[fd]),"spurious",d<<": input("<<fd<<","<<std::hex<<flags<<") was reported, but the descriptor has never been ready for that"); if( flags&EV_FDREAD ) ready[fd]&=~1; if( flags&EV_FDWRITE ) ready[fd]&=~2; if( once[fd] ) reg[fd]=0;
      if( fd==A && n5++==0 ) switch( act )
      {
        case 1: reg[A]&=~flags; return Message::CANCEL;
        case 2: remove(A,EV_FDREAD); break;
        case 3: remove(A,EV_FDALL); break;
        case 4: remove(-1,EV_FDALL); break;
        case 5: remove(B,EV_FDALL); break;
        case 6: add(A,EV_FDWRITE); break;
        case 8: remove(B,once[B]?EV_FDALL:EV_FDREAD); break;  // (part of a one-shot input that has come up: not specified)
        case 7: remove(A,EV_FDALL); add(A,EV_FDREAD); break;
      }
      return Message::ACCEPT; };
    W.dsp.start(); add(5,F[f5]); add(6,F[f6]); 
    pthread_t t=thread([&]{ if( order==2 ) { sched::Masked m; ready[5]=3; ready[6]=3; ever=ready; } else if( order==3 ) { sched::Masked m; ready[5]=1; ready[6]=1; ever=ready; } else for(int k=0;k<2;k++) { int fd=order==0?5+k:6-k; usleep(1000); ready[fd]|=1; ever[fd]|=1; } usleep(1000000); ready[5]|=1; ever[5]|=1; usleep(1000000); W.dsp.stopPolling(); });
    W.dsp.pollLoop(); pthread_join(t,0);
    for(int fd=5;fd<=6;fd++) { int rd=(ready[fd]&1?EV_FDREAD:0)|(ready[fd]&2?EV_FDWRITE:0); MC_CHECK(!(rd&reg[fd]),"missing",d<<": descriptor "<<fd<<" is ready ("<<std::hex<<rd<<") and registered ("<<reg[fd]<<"), but nothing was delivered"); }
    W.dsp.stop();
  });
}
// signals
MC_SCENARIO(signals,4,8)
{
  int fl=mc::choose(4), n=1+mc::choose(2), act=mc::choose(4); bool mt=mc::flip(); static const int F[]={0,EV_DISCRETE,EV_ONESHOT,EV_IGNORE}; static const char *acts[]={"nothing","cancel","remove","slow"};
  string d=STR(n<<" signals with flags "<<F[fl]<<", "<<acts[act]<<" at the first"<<(mt?", threaded":"")); MCLOG(d); mc::state(d);
  EWorld W(mt); sched::Opt o; o.preemptions=mt&&!mc::thorough()?1:2; o.max_steps=100000;
  sched::run(o,[&]{
    EWP &w=*W.w; int raised=0,seen=0,last=0; bool on=true; 
    w.onsig=[&](int s)->int { MC_CHECK(s==SIGUSR2 && on,"removed",d<<": signal "<<s<<" was delivered after it was removed"); seen++; last=raised; MC_CHECK(seen<=raised,"twice",d<<": delivered "<<seen<<" times, raised "<<raised<<" times");
      if( F[fl]==EV_ONESHOT ) on=false; 
      if( seen==1 ) switch( act ) { case 1: on=false; return Message::CANCEL; case 2: on=false; w.removeSignal(SIGUSR2); break; case 3: usleep(1000); break; } return Message::ACCEPT; };
    w.addSignal(SIGUSR2,F[fl]); W.dsp.start();
    pthread_t t=thread([&]{ sigset_t m; sigfillset(&m); pthread_sigmask(SIG_BLOCK,&m,0); for(int k=0;k<n;k++) { raised++; sched::raise_(SIGUSR2); usleep(500); } usleep(1000000); W.dsp.stopPolling(); });
    W.dsp.pollLoop(); pthread_join(t,0);
    if( F[fl]==EV_IGNORE ) MC_CHECK(seen==0,"ignored",d<<": an ignored signal was delivered");
    else if( F[fl]==EV_ONESHOT ) MC_CHECK(seen==1,"oneshot",d<<": delivered "<<seen<<" times");
    else { MC_CHECK(seen>=1,"missing",d<<": never delivered"); if( on ) MC_CHECK(last==raised,"missing",d<<": raised "<<raised<<" times, but the last delivery was after the "<<last<<". raise"); }
    W.dsp.stop();
  });
}
// starting, sending from elsewhere, stopping
MC_SCENARIO(startstop,4,8)
{
  int kind=mc::choose(4), msgs=mc::choose(3); bool sep=mc::flip(); static const char *kinds[]={"idle","long timeout","repeated timeout","input"};
  string d=STR(kinds[kind]<<", "<<msgs<<" messages"<<(sep?", polling thread of its own":"")); MCLOG(d); mc::state(d);
  EWorld W; sched::Opt o; o.preemptions=mc::thorough()?2:(sep||msgs>1?1:2); o.max_steps=100000;
  sched::run(o,[&]{
    EWP &w=*W.w; int got=0,fired=0; vector<int> order; std::map<int,int> ready; sched::S().fdready=[&](int fd){ return ready.count(fd)?ready[fd]:0; };
    w.onmsg=[&](Message::Ref &m)->int { if( m->id()[0]==AtomicID("X") ) { got++; order.push_back(m->state()); } return Message::ACCEPT; }; w.onto=[&](const HIID &)->int { fired++; return Message::ACCEPT; }; 
    w.oninput=[&](int fd,int)->int { ready[fd]=0; fired++; return Message::ACCEPT; };
    auto ev=[&]{ if( kind==1 ) w.addTimeout(Timestamp(100.),HIID("A")); if( kind==2 ) w.addTimeout(Timestamp(1.),HIID("A")); if( kind==3 ) w.addInput(5,EV_FDREAD); };
    auto snd=[&]{ for(int i=0;i<msgs;i++) { Message::Ref m(new Message(HIID("X"))); m().setState(i); W.dsp.send(m,w.address()); } };
    if( sep ) { W.dsp.startThread(true); ev(); snd(); ready[5]=1; usleep(10500000); W.dsp.stop(); }
    else { W.dsp.start(); ev(); pthread_t t=thread([&]{ snd(); ready[5]=1; usleep(10500000); W.dsp.stopPolling(); }); W.dsp.pollLoop(); W.dsp.stop(); pthread_join(t,0); }
    MC_CHECK(got==msgs,"delivery",d<<": "<<got<<" of "<<msgs<<" messages were delivered"); for(int i=0;i<(int)order.size();i++) MC_CHECK(order[i]==i,"order",d<<": messages out of order");
    if( kind==2 ) MC_CHECK(fired==10,"timeouts",d<<": "<<fired<<" timeouts in 10.5 s"); if( kind==3 ) MC_CHECK(fired>=1,"input",d<<": the input was not reported"); if( kind==1 ) MC_CHECK(fired==0,"timeouts",d<<": early");
  });
}
// ---------------------------------------------------------------- threaded processes
struct TWP : public WorkProcess
{
  int nw; std::function<int(int,Message::Ref&)> onmsg; std::function<int(const HIID&)> onto; TWP (int n) : WorkProcess(AtomicID("T")),nw(n) {}
  virtual bool start () { for(int i=0;i<nw;i++) createWorker(); return false; }
  virtual int receive (Message::Ref &m) { if( m->id()[0]!=AtomicID("X") ) return Message::ACCEPT; int n=m->state(); return onmsg(n,m); }
  virtual int timeout (const HIID &id) { return onto?onto(id):Message::ACCEPT; }
};
MC_SCENARIO(workers,8,16)
{
  int nw=1+mc::choose(2), nm=1+mc::choose(nw==2 && !mc::thorough()?2:3), prio=mc::choose(nm>1?4:1), pol=mc::choose(7); static const char *pols[]={"accept","hold the first once","requeue the first once","xfer","send another","timeout","remove other"};
  string d=STR(nw<<" workers, "<<nm<<" messages with priorities "<<prio<<", "<<pols[pol]); MCLOG(d); mc::state(d);
  Dropper dr; Dispatcher dsp(AtomicID(3),AtomicID(1)); TWP *w=new TWP(nw); WPRef keep(w,DMI::ANONWR); { WPRef r(keep); dsp.attach(r); }
  sched::Opt o; o.preemptions=nw*nm<2?2:nw*nm<=3?1:0; if( mc::thorough() && nw*nm<=2 ) o.preemptions=2; o.max_steps=100000;
  sched::run(o,[&]{
    vector<int> seen(8,0),order; int active=0,maxact=0,total=nm+(pol==4); bool declined=false; int fired=0; vector<int> pri(8,Message::PRI_NORMAL); int sentall=0; vector<int> before;
    w->onmsg=[&](int n,Message::Ref &m)->int {
      active++; maxact=std::max(maxact,active); sched::point("receive"); active--; mc::op(); MCLOG("  message "<<n);
      if( (pol==1 || pol==2) && n==0 && !declined ) { declined=true; before.push_back(order.size()); return pol==1?Message::HOLD:Message::REQUEUE; }
      seen[n]++; MC_CHECK(seen[n]==1,"twice",d<<": message "<<n<<" was received twice"); order.push_back(n);
      if( pol==3 ) { Message::Ref k; k.xfer(m); } 
      if( pol==4 && n==0 ) { Message::Ref x(new Message(HIID("X"))); x().setPriority(pri[7]); int st=7; x().setState(st); dsp.send(x,w->address()); }
      return Message::ACCEPT; };
    w->onto=[&](const HIID &)->int { fired++; return fired==3 ? Message::CANCEL : Message::ACCEPT; };
    dsp.start(); if( pol==5 ) w->addTimeout(Timestamp(1.),HIID("A"));
    for(int i=0;i<nm;i++) { pri[i] = prio==0?Message::PRI_NORMAL:prio==1?Message::PRI_NORMAL+i:prio==2?Message::PRI_NORMAL-i:(i==1?Message::PRI_HIGH:Message::PRI_NORMAL); Message::Ref m(new Message(HIID("X"),pri[i])); m().setState(i); int r=dsp.send(m,w->address()); MC_CHECK(r==1,"send",d<<": send() returned "<<r); if( prio==0 && i==0 && (pol==1) ) sentall=0; }
    (void)sentall; usleep(5500000);
    // a held message that was alone stays held until something changes
    bool heldalone = pol==1||pol==2; 
    for(int i=0;i<nm;i++) if( !(pol==1 && declined && !seen[0]) && !(heldalone && i==0 && declined) ) MC_CHECK(seen[i]==1,"lost",d<<": message "<<i<<" was received "<<seen[i]<<" times"); if( pol==4 ) MC_CHECK(seen[7]==1,"lost",d<<": the message sent by the worker was received "<<seen[7]<<" times");
    if( heldalone && seen[0]==0 ) { MC_CHECK(declined,"lost",d<<": message 0 was not offered"); Message::Ref m(new Message(HIID("X"),Message::PRI_HIGHER)); m().setState(6); dsp.send(m,w->address()); usleep(1000000); MC_CHECK(seen[6]==1 && seen[0]==1,"held",d<<": after another message had arrived the declined one was received "<<seen[0]<<" times"); total++; for(int i=0;i<nm;i++) MC_CHECK(seen[i]==1,"lost",d<<": message "<<i<<" was received "<<seen[i]<<" times"); }
    MC_CHECK(maxact<=nw,"workers",d<<": "<<maxact<<" workers at once");
    // one worker: order within a priority
    if( nw==1 && (pol==0||pol==3||pol==5||pol==6) ) { std::map<int,int> l; for(int n:order) { if( l.count(pri[n]) ) MC_CHECK(l[pri[n]]<n,"order",d<<": message "<<n<<" was received after "<<l[pri[n]]); l[pri[n]]=n; } }
    if( pol==5 ) MC_CHECK(fired==3,"timeouts",d<<": "<<fired<<" timeouts, cancelled at the third");
    dsp.stop(); 
  });
}
MC_MAIN()
