// C06: routing of sent and published messages, and subscriptions.
#include <OCTOPUSSY/Dispatcher.h>
#include <OCTOPUSSY/WorkProcess.h>
#include <OCTOPUSSY/Subscriptions.h>
#include <OCTOPUSSY/Message.h>
#include "mc.h"
#include <memory>
#include <map>
// the registry of debug contexts keeps an empty entry for every process ever destroyed: drop these between executions, for speed only
namespace Debug { extern std::multimap<std::string,Context*> *contexts __attribute__((weak)); }
static void dropContexts () { if( &Debug::contexts && Debug::contexts ) for(auto i=Debug::contexts->begin();i!=Debug::contexts->end();) if( i->second ) ++i; else i=Debug::contexts->erase(i); }
using namespace DMI; using namespace Octopussy; using std::string; using std::vector;
typedef vector<int> Id;      // own identifiers: AidA.. and these
enum { ANY=-2000001, WILD=-2000002 };
static AtomicID atom (int a) { return a==ANY?AidAny:a==WILD?AidWildcard:AtomicID(a); }
static int fromc (char c) { return c=='?'?ANY:c=='*'?WILD:c>='0'&&c<='9'?c-'0':(int)AtomicID(string(1,c)); }
static Id id_ (const string &s) { Id r; for(char c:s) r.push_back(fromc(c)); return r; }
static HIID hiid (const Id &x) { HIID h; for(int a:x) h.add(atom(a)); return h; }
// does the (concrete) id match the mask?
static bool matches (const Id &id,const Id &mask)
{
  size_t i=0; for(;i<mask.size();i++) { if( mask[i]==WILD ) return true; if( i>=id.size() ) return false; if( mask[i]!=ANY && mask[i]!=id[i] ) return false; }
  return i==id.size();
}
// every id that matches a also matches b
static bool subset (const Id &a,const Id &b)
{
  for(size_t i=0;;i++)
  {
    if( i<b.size() && b[i]==WILD ) return true;
    if( i<a.size() && a[i]==WILD ) return false;
    if( i==a.size() || i==b.size() ) return i==a.size() && i==b.size();
    if( b[i]!=ANY && a[i]!=b[i] ) return false;
  }
}
struct Sub { Id mask; Id scope; };
struct Model { vector<Sub> s; 
  void add (const Id &m,const Id &sc) { s.push_back({m,sc}); }
  void remove (const Id &m) { vector<Sub> n; for(auto &x:s) if( !subset(x.mask,m) ) n.push_back(x); s=n; }
  bool matches_ (const Id &id,const Id &from) const { for(auto &x:s) if( ::matches(id,x.mask) && ::matches(from,x.scope) ) return true; return false; } };
static string str (const Id &i) { string s; for(int a:i) s+=(s.empty()?"":".")+atom(a).toString(); return s; }
static Message::Ref mkmsg (const Id &id,const Id &from,int pri=Message::PRI_NORMAL) { Message::Ref r(new Message(hiid(id),pri)); r().setFrom(MsgAddress(hiid(from))); return r; }

// ---------------------------------------------------------------- subscriptions alone
static const vector<string> IDS={"","A","B","C","AA","AB","AC","BA","BB","BC","ABA","ABB","AAB","BAA","ABC","CAB"};
static const vector<string> FROMS={"X031","X041","X035","X045","Y131","Y035"};        // class, instance, process, host
struct Probe { Id id,from; Message::Ref m; };
static void probe (const Subscriptions &s,const Model &m,const string &d)
{
  static vector<Probe> ps; if( ps.empty() ) for(auto &i:IDS) if( !i.empty() ) for(auto &f:FROMS) { Probe p; p.id=id_(i); p.from=id_(f); p.m=mkmsg(p.id,p.from); ps.push_back(p); }
  for(auto &p:ps) { mc::op(); bool r=s.matches(*p.m), e=m.matches_(p.id,p.from); 
    MC_CHECK(r==e,"matches",d<<": a message "<<str(p.id)<<" from "<<str(p.from)<<(r?" matches":" does not match")<<", expected the opposite"); }
}
static Subscriptions transported (const Subscriptions &s,const string &d)
{
  size_t n=s.packSize(); vector<char> buf(n+16,(char)0x5a); size_t left=n; size_t w=s.pack(&buf[0],left); 
  MC_CHECK(w==n && left==0,"pack",d<<": packSize "<<n<<" but pack() wrote "<<w<<" and left "<<left); for(int i=0;i<16;i++) MC_CHECK(buf[n+i]==(char)0x5a,"pack",d<<": pack() wrote beyond packSize");
  Subscriptions r; r.add(AtomicID("Q"),MsgAddress(AtomicID("Q"))); r.unpack(&buf[0],n); MC_CHECK(r.size()==s.size() && r.packSize()==n,"pack",d<<": unpacked subscriptions have "<<r.size()<<" elements and size "<<r.packSize()<<", expected "<<s.size()<<" and "<<n);
  return r;
}
MC_SCENARIO(subscriptions,8,16)
{
  static const vector<string> masks={"A","AB","A?","A*","?","?B","*","B","ABA","A?A","AB*","??","?*"}, scopes={"????","??3?","??31","X031","X?3?","X???","???1","Y??1"};
  const int nm=masks.size(), ns=mc::thorough()?8:6; int depth=mc::thorough()?3:3;
  Subscriptions s; Model m; string d;
  // the last operation may also be a merge or a clear; a round of transport may come in between
  for(int k=0;k<depth;k++)
  {
    int full = k<2 || mc::thorough() ? nm : nm; int op=mc::choose(full*ns+full+(k?3:0));
    if( op<full*ns ) { Id a=id_(masks[op/ns]), b=id_(scopes[op%ns]);
      d+=" add("+str(a)+","+str(b)+")"; s.add(hiid(a),MsgAddress(hiid(b))); m.add(a,b); }
    else if( op<full*ns+full ) { Id a=id_(masks[op-full*ns]); d+=" remove("+str(a)+")"; bool r=s.remove(hiid(a)); bool e=false; for(auto &x:m.s) e|=subset(x.mask,a); if( !e ) MC_CHECK(!r,"remove",d<<" says that something was removed"); m.remove(a); }
    else switch( op-full*ns-full )
    {
      case 0: d+=" clear"; s.clear(); m.s.clear(); break;
      case 1: d+=" transport"; s=transported(s,d); break;
      case 2: { d+=" merge(A.B,C)"; Subscriptions o; o.add(hiid(id_("AB")),MsgAddress(hiid(id_("??31")))); o.add(hiid(id_("C")),MsgAddress(hiid(id_("????")))); m.add(id_("AB"),id_("??31")); m.add(id_("C"),id_("????")); s.merge(o); break; }
    }
    mc::op();
  }
  MCLOG(d); mc::state(d);
  probe(s,m,d); Subscriptions t=transported(s,d); probe(t,m,d+" transported"); 
  // what was transported can be changed further
  t.remove(hiid(id_("A*"))); m.remove(id_("A*")); t.add(hiid(id_("AB")),MsgAddress(hiid(id_("??3?")))); m.add(id_("AB"),id_("??3?")); probe(transported(t,d),m,d+" transported and changed");
}
// damaged blocks are refused
MC_SCENARIO(corrupt,1,1)
{
  Subscriptions s; int n=mc::choose(4); for(int i=0;i<n;i++) s.add(hiid(id_(i==0?"AB":i==1?"B*":"CCC")),MsgAddress(hiid(id_("??31")))); 
  size_t sz=s.packSize(),l=sz; vector<char> b(sz); s.pack(&b[0],l); size_t cut=mc::choose(sz); Subscriptions t; mc::state(std::to_string(n)+","+std::to_string(cut)); mc::op();
  vector<char> c(b.begin(),b.begin()+cut); bool thrown=false; try { t.unpack(c.empty()?(void*)"":&c[0],cut); } catch( std::exception & ) { thrown=true; } 
  MC_CHECK(thrown,"corrupt","a block of "<<n<<" subscriptions cut to "<<cut<<" of "<<sz<<" bytes was accepted");
}
// ---------------------------------------------------------------- routing
struct WP : public WorkProcess { Model m; bool fwd=false,wants=true; WP (AtomicID c) : WorkProcess(c) {} 
  virtual bool willForward (const Message &) const { return fwd && wants; } 
  Subscriptions & subs () { return getSubscriptions(); } 
  Id addr () const { Id r; for(int i=0;i<4;i++) r.push_back((int)address()[i]); return r; } };
struct World
{
  struct Dropper { ~Dropper () { dropContexts(); } } dropper; Dispatcher dsp; vector<WP*> w; vector<WPRef> keep; 
  World () : dsp(AtomicID(3),AtomicID(1)) { }
  ~World () { keep.clear(); }
  WP * add (const char *cls) { WP *p=new WP(AtomicID(cls)); WPRef r(p,DMI::ANONWR); keep.push_back(r); dsp.attach(r); w.push_back(p); return p; }
};
struct Got { int n; const Message *msg; };
static int received (WP *p,Message::Ref &last) { int n=0; for(auto &q:p->queue()) { n++; last=q.mref; } p->queue().clear(); return n; }
static const int PUBL=-2000003;
static AtomicID aatom (int a) { return a==PUBL?AidPublish:a==-2000004?AidLocal:atom(a); }
static MsgAddress addr_ (const Id &a) { return MsgAddress(aatom(a[0]),aatom(a[1]),aatom(a[2]),aatom(a[3])); }
// who gets a message addressed to "to" (after local names were filled in)
static bool selects (const Id &to,WP *p,const Id &mid,const Id &from)
{
  Id a=p->addr(); bool here=(to[3]==ANY||to[3]==a[3])&&(to[2]==ANY||to[2]==a[2]);
  if( here && to[0]==PUBL && p->m.matches_(mid,from) ) return true;
  return here && (to[0]==ANY||to[0]==a[0])&&(to[1]==ANY||to[1]==a[1]);
}
static void verify (World &W,const Id &to,const Id &mid,const Id &from,int ret,const string &d,int pri)
{
  int total=0; bool away = to[2]!=3 || to[3]!=1;
  for(auto *p:W.w)
  {
    if( !p->isAttached() ) { Message::Ref l; MC_CHECK(received(p,l)==0,"detached",d<<": a detached process received the message"); continue; }
    Message::Ref l; int n=received(p,l), e=selects(to,p,mid,from); if( p->fwd && p->wants && away ) { if( !e ) e=1; else e=n; /* once for itself, once to forward, or both in one */ }
    MC_CHECK(n==e,"delivery",d<<": "<<p->address().toString()<<(p->fwd?" (gateway)":"")<<" received the message "<<n<<" times, expected "<<e); total+=n;
    if( n ) { MC_CHECK(l->id()==hiid(mid),"content",d<<": the id is "<<l->id().toString()); MC_CHECK(l->from()==MsgAddress(hiid(from)),"content",d<<": the sender is "<<l->from().toString()<<" expected "<<str(from));
      MC_CHECK(l->to()==addr_(to),"content",d<<": the address is "<<l->to().toString()<<" expected "<<addr_(to).toString()); MC_CHECK(l->priority()==pri,"content",d<<": the priority is "<<l->priority()<<" expected "<<pri); 
      MC_CHECK(l->hops()==0,"content",d<<": "<<l->hops()<<" hops"); }
  }
  MC_CHECK(ret==total,"count",d<<" returns "<<ret<<", but was delivered "<<total<<" times");
}
static const vector<int> HOSTS={1,7,ANY,-2000004}, PROCS={3,4,ANY,-2000004};
MC_SCENARIO(sends,4,8)
{
  World W; const char *cls[]={"X","X","Y","X","Z"}; for(int i=0;i<4;i++) W.add(cls[i]); int gw=mc::choose(3); if( gw ) { WP *g=W.add("Z"); g->fwd=true; g->wants=gw==1; W.dsp.declareForwarder(g); }
  for(size_t i=0;i<W.w.size();i++) { Id e={(int)AtomicID(cls[i]),i==1?1:i==3?2:0,3,1}; MC_CHECK(W.w[i]->addr()==e,"address","process "<<i<<" got the address "<<W.w[i]->address().toString()); }
  int sub=mc::choose(4); for(auto *p:W.w) if( sub && p!=W.w[0] ) { Id m=id_(sub==1?"A*":sub==2?"?":"AB"); p->subscribe(hiid(m),Message::GLOBAL); p->m.add(m,id_("????")); }
  static const vector<int> C={(int)AtomicID("X"),(int)AtomicID("Y"),(int)AtomicID("Z"),(int)AtomicID("W"),ANY,PUBL}; 
  int c=C[mc::choose(6)], i=c==PUBL?PUBL:(int[]){0,1,2,3,ANY}[mc::choose(5)]; Id to={c,i,PROCS[mc::choose(4)],HOSTS[mc::choose(4)]}; Id mid=id_((const char*[]){"A","AB","C"}[mc::choose(3)]); 
  int gone=mc::choose(3); if( gone ) { WP *p=W.w[gone==1?1:3]; W.dsp.detach(p); p->m.s.clear(); }    // one process has gone away
  for(auto *p:W.w) p->queue().clear();
  WP *from=W.w[0]; bool form=mc::flip(); int pri=mc::flip()?Message::PRI_NORMAL:0x77; string d="send("+str(mid)+") to "+addr_(to).toString()+(form?" by id":""); MCLOG(d); mc::op(); mc::state(d+","+std::to_string(gw)+","+std::to_string(sub)+","+std::to_string(gone));
  int r; if( form ) r=from->send(hiid(mid),addr_(to),0,pri); else { Message::Ref m(new Message(hiid(mid),pri)); r=from->send(m,addr_(to)); }
  if( to[2]==-2000004 ) to[2]=3; if( to[3]==-2000004 ) to[3]=1;
  verify(W,to,mid,from->addr(),r,d,pri);
}
// histories of subscribing, unsubscribing, publishing, coming and going
struct Listener : public WP { Listener () : WP(AtomicID("L")) {} };
MC_SCENARIO(history,8,16)
{
  World W; WP *a=W.add("X"), *b=W.add("Y"); bool started=mc::flip(); WP *l=0; string d=started?"started:":"";
  if( started ) { l=W.add("L"); l->subscribe(MsgSubscribe|AidWildcard,Message::GLOBAL); for(auto *p:W.w) p->do_init(); for(auto *p:W.w) p->do_start(); for(auto *p:W.w) p->queue().clear(); }
  static const vector<string> masks={"AB","A*","A?","B","*"}; static const vector<string> ids={"AB","AC","B","ABC"};
  auto scopes=[&](int s){ return id_(s==2?"????":s==1?"???1":"??31"); };
  int depth=mc::thorough()?4:3;
  for(int k=0;k<depth;k++)
  {
    // 15 subscriptions x 2, 5 unsubscriptions x 2, 4 ids x 3 scopes x 2 forms, remote 4 ids x 2 senders, detach, attach
    int op=mc::choose(30+10+24+8+2); mc::op(); bool change=false; WP *who=0;
    if( op<30 ) { who=op<15?a:b; int s=op%3,mk=op%15/3; if( !who->isAttached() ) throw mc::Prune(); d+=" "+who->wpname()+".subscribe("+masks[mk]+","+std::to_string(s)+")"; change=who->subscribe(hiid(id_(masks[mk])),s); who->m.add(id_(masks[mk]),scopes(s)); }
    else if( op<40 ) { who=op<35?a:b; int mk=(op-30)%5; if( !who->isAttached() ) throw mc::Prune(); d+=" "+who->wpname()+".unsubscribe("+masks[mk]+")"; change=who->unsubscribe(hiid(id_(masks[mk]))); who->m.remove(id_(masks[mk])); }
    else if( op<64 ) { int f=(op-40)%2,s=(op-40)/2%3; Id mid=id_(ids[(op-40)/6]); d+=" publish("+str(mid)+(f?",by id":"")+",scope "+std::to_string(s)+")"; MCLOG(d); int r; int pri=0x42+op;
      if( f ) r=a->publish(hiid(mid),0,s,pri); else { Message::Ref m(new Message(hiid(mid),pri)); r=a->publish(m,0,s); }
      Id to={PUBL,PUBL,s>=Message::HOST?ANY:3,s>=Message::GLOBAL?ANY:1}; verify(W,to,mid,a->addr(),r,d,pri); }
    else if( op<72 ) { Id mid=id_(ids[(op-64)/2]); Id from=id_(op%2?"X041":"X047"); d+=" "+str(mid)+" from "+str(from); MCLOG(d); Message::Ref m=mkmsg(mid,from); int r=W.dsp.send(m,MsgAddress(AidPublish,AidPublish,AidAny,AidAny)); Id to={PUBL,PUBL,ANY,ANY}; verify(W,to,mid,from,r,d,Message::PRI_NORMAL); }
    else if( op==72 ) { if( !b->isAttached() ) throw mc::Prune(); d+=" detach"; W.dsp.detach(b); for(auto *p:W.w) p->queue().clear(); }
    else { if( b->isAttached() ) throw mc::Prune(); d+=" attach another"; b=W.add("Y"); Id e={(int)AtomicID("Y"),1,3,1}; if( d.find("attach another")==d.rfind("attach another") ) MC_CHECK(b->addr()==e,"address",d<<": the new process got the address "<<b->address().toString()); 
      if( started ) { b->do_init(); b->do_start(); for(auto *p:W.w) p->queue().clear(); } }
    MCLOG(d);
    if( l && who )
    {
      // the listener is told the current subscriptions whenever they change
      int n=0; bool ok=false; for(auto &q:l->queue()) { if( q.mref->id()==(MsgSubscribe|who->address()) ) { n++; Subscriptions s; s.unpack(q.mref->data(),q.mref->datasize()); probe(s,who->m,d+": published subscriptions"); ok=true; } } (void)ok;
      MC_CHECK(n==(change?1:0),"announce",d<<": "<<n<<" announcements of the subscriptions, expected "<<change); for(auto *p:W.w) p->queue().clear();
    }
    if( who ) probe(who->subs(),who->m,d);
  }
  mc::state(d); 
}
MC_MAIN()
