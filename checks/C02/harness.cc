// C02: counted references. Sequential histories against a value model, and threads under the controlled scheduler.
#include "mc.h"
#include "mcsched.h"
#include "node.h"
#include <DMI/Exception.h>
using namespace DMI;
SCHED_TSAN_RUNTIME()

int Node::live=0;
static std::set<void*> alive; static std::vector<void*> grave; static std::string badfree;
void * Node::operator new (size_t n) { sched::Masked m; void *p=::operator new(n); alive.insert(p); return p; }
void Node::operator delete (void *p) { sched::Masked m; if( !alive.erase(p) ) badfree="an object was deleted twice"; else { memset(p,0xDD,sizeof(Node)); grave.push_back(p); } }
Node::~Node () { if( canary!=0xC0FFEE ) { badfree="an object was destroyed twice"; } canary=0xDEAD; live--; }
static void clearGrave () { for( auto p:grave ) ::operator delete(p); grave.clear(); alive.clear(); badfree=""; }

// ---------------------------------------------------------------- sequential model
struct MT { int val; bool anon; int child=-1; bool alive=true; };   // model target; child: target index of an own ref (COW, writable)
struct MR { int t=-1; bool locked=false,wr=false,shared=false; };
struct Model
{
  std::vector<MT> T; MR r[3]; 
  int rc (int t) { int n=0; for( auto &x:r ) n+= x.t==t; for( auto &x:T ) if( x.alive && x.child==t ) n++; return n; }
  void drop (int t) { if( t<0 || !T[t].alive || rc(t) || !T[t].anon ) return; T[t].alive=false; int c=T[t].child; T[t].child=-1; drop(c); }
  // child refs are always COW and writable
  int clone (int t,bool deep,int depth) 
  { int n=T.size(); T.push_back(MT{T[t].val,true}); T[n].child=T[t].child;
    int c=T[n].child;
    if( c>=0 && (deep || depth>0) ) { if( rc(c)>1 || deep || depth-1>0 || !T[c].anon ) { int k=clone(c,deep,depth-2); T[n].child=k; drop(c); } }
    return n; }
  void detach (int i) { int t=r[i].t; r[i]=MR(); drop(t); }
  bool priv (int i,bool deep,int depth,int fl)
  {
    int t=r[i].t; bool res=false;
    if( !T[t].anon || rc(t)>1 || !r[i].wr || depth>0 || deep ) 
    { int n=clone(t,deep,depth-1); r[i].t=n; r[i].locked=false; r[i].shared=false; r[i].wr=true; drop(t); res=true; }
    if( fl&LOCKED ) r[i].locked=true; else if( fl&UNLOCKED ) r[i].locked=false;
    if( fl&SHARED ) r[i].shared=true; else if( fl&COW ) r[i].shared=false;
    r[i].wr=true; return res;
  }
  bool direct (int i) { return (r[i].wr && rc(r[i].t)==1) || r[i].shared; }
  int live () { int n=0; for( auto &x:T ) n+=x.alive && x.anon; return n; }
  std::string str () { std::ostringstream o; std::map<int,int> id; for( auto &x:r ) { o<<"["; int t=x.t; while( t>=0 ) { if( !id.count(t) ) { int k=id.size(); id[t]=k; } o<<id[t]<<(T[t].anon?"a":"x")<<";"; t=T[t].child; } o<<(x.locked?"L":"")<<(x.wr?"W":"")<<(x.shared?"S":"")<<"]"; } return o.str(); }
};

static std::string nm (int i) { return std::string(1,'a'+i); }
struct Real { Ref r[3]; Node *ext[2]; };
static void compare (Model &m,Real &R,const std::string &what)
{
  MC_CHECK(badfree.empty(),"double-delete",what<<": "<<badfree);
  for( int i=0;i<3;i++ )
  {
    const Ref &x=R.r[i]; MR &y=m.r[i];
    MC_CHECK(x.valid()==(y.t>=0),"validity",what<<": ref "<<nm(i)<<" valid="<<x.valid());
    if( !x.valid() ) continue;
    MC_CHECK(alive.count((void*)x.deref_p()) || x.deref_p()==R.ext[0],"dangling",what<<": ref "<<nm(i)<<" points to a deleted object");
    MC_CHECK(x->val==m.T[y.t].val,"value",what<<": value seen through "<<nm(i)<<" is "<<x->val<<", expected "<<m.T[y.t].val<<"; model "<<m.str());
    MC_CHECK(x.isLocked()==y.locked,"locked",what<<": lock of "<<nm(i)<<" is "<<x.isLocked());
    MC_CHECK(x.isDirectlyWritable()==m.direct(i),"writable",what<<": isDirectlyWritable of "<<nm(i)<<" is "<<x.isDirectlyWritable()<<"; model "<<m.str());
    MC_CHECK(x.isAnonTarget()==m.T[y.t].anon,"anon",what<<": anon of "<<nm(i));
    MC_CHECK(x->targetReferenceCount()==m.rc(y.t),"refcount",what<<": reference count of target of "<<nm(i)<<" is "<<x->targetReferenceCount()<<", expected "<<m.rc(y.t));
    int c=m.T[y.t].child; MC_CHECK(x->child.valid()==(c>=0),"child",what<<": child of "<<nm(i)<<" valid="<<x->child.valid());
    if( c>=0 ) MC_CHECK(x->child->val==m.T[c].val,"child-value",what<<": child value seen through "<<nm(i)<<" is "<<x->child->val<<", expected "<<m.T[c].val<<"; model "<<m.str());
    for( int j=0;j<i;j++ ) if( R.r[j].valid() ) 
      MC_CHECK((x.deref_p()==R.r[j].deref_p())==(y.t==m.r[j].t),"aliasing",what<<": refs "<<nm(j)<<" and "<<nm(i)<<(x.deref_p()==R.r[j].deref_p()?" share":" do not share")<<" their object; model "<<m.str());
  }
  MC_CHECK(Node::live-1==m.live(),Node::live-1>m.live()?"leak":"lost",what<<": "<<Node::live-1<<" objects alive, "<<m.live()<<" expected; model "<<m.str());
}
template<class F> static bool throws (F f) { try { f(); return false; } catch( std::exception & ) { return true; } }

static void history (bool rich)
{
  clearGrave(); Node::live=0;
  {
  Model m; Real R; Node ext(1000); R.ext[0]=&ext; int extT=-1, fresh=1;
  int len = rich ? (mc::thorough()?4:3) : (mc::thorough()?5:4);
  // start: a -> anonymous object with a child, b and c undefined; or a,b sharing; or a on the external object
  auto mk=[&](int i,int fl){ Node *n=new Node(fresh); int t=m.T.size(); m.T.push_back(MT{fresh,true}); fresh++; R.r[i].attach(n,fl); m.r[i]=MR(); m.r[i].t=t; m.r[i].locked=fl&LOCKED; m.r[i].shared=fl&SHARED; m.r[i].wr=true; return t; };
  auto addchild=[&](int i){ Node *c=new Node(fresh); R.r[i].dewr().child.attach(c); int t=m.r[i].t; int k=m.T.size(); m.T.push_back(MT{fresh,true}); fresh++; m.T[t].child=k; };
  mk(0,0); addchild(0);
  for( int s=0;s<len;s++ )
  {
    mc::op();
    int kind=mc::choose(rich?9:6); std::ostringstream w; int i=mc::choose(3); MR &x=m.r[i]; Ref &X=R.r[i];
    switch( kind )
    {
      case 0: { // write
        if( x.t<0 ) throw mc::Prune();
        int v=++fresh*10; w<<"write "<<nm(i); if( !m.direct(i) ) { m.priv(i,false,0,0); } m.T[m.r[i].t].val=v; X.dewr().val=v; break; }
      case 1: { // write the child
        if( x.t<0 || m.T[x.t].child<0 ) throw mc::Prune();
        int v=++fresh*10; w<<"write child of "<<nm(i); if( !m.direct(i) ) m.priv(i,false,0,0);
        int t=m.r[i].t,c=m.T[t].child; if( m.rc(c)>1 ) { int n=m.clone(c,false,-1); m.T[t].child=n; c=n; } m.T[c].val=v; X.dewr().child.dewr().val=v; break; }
      case 2: { // copy
        int j=mc::choose(2); if( j>=i ) j++; if( m.r[j].t<0 ) throw mc::Prune();
        static const int F[]={0,DEEP,0,SHARED,COW,LOCKED}; static const int D[]={-1,-1,1,-1,-1,-1};
        int f=mc::choose(rich?6:3); w<<nm(i)<<".copy("<<nm(j)<<","<<F[f]<<","<<D[f]<<")";
        bool t=throws([&]{ X.copy(R.r[j],F[f],D[f]); }); bool e=x.t>=0 && x.locked;
        MC_CHECK(t==e,"locked-overwritten",w.str()<<(t?" throws":" overwrites a locked ref"));
        if( e ) break;
        m.detach(i); MR o=m.r[j]; x.t=o.t; x.locked=F[f]&LOCKED; x.wr=o.wr; x.shared= F[f]&SHARED?true:F[f]&COW?false:o.shared;
        if( F[f]&DEEP || D[f]>0 ) { x.locked=false; x.wr=x.shared=false; m.priv(i,F[f]&DEEP,D[f],F[f]); }
        break; }
      case 3: { // xfer
        int j=mc::choose(2); if( j>=i ) j++; if( m.r[j].t<0 ) throw mc::Prune();
        static const int F[]={0,DEEP,SHARED}; int f=mc::choose(rich?3:2); w<<nm(i)<<".xfer("<<nm(j)<<","<<F[f]<<")";
        bool e1=x.t>=0&&x.locked, e2=m.r[j].locked; bool t=throws([&]{ X.xfer(R.r[j],F[f],-1); });
        MC_CHECK(t==(e1||e2),"locked-transferred",w.str()<<(t?" throws":" transfers a locked ref"));
        if( e1 ) break; 
        m.detach(i); if( e2 ) break;
        MR o=m.r[j]; m.r[j]=MR(); x=o; x.locked=F[f]&LOCKED; x.shared= F[f]&SHARED?true:o.shared;
        if( F[f]&DEEP ) { m.priv(i,true,-1,F[f]); }
        break; }
      case 4: { w<<"detach "<<nm(i); if( x.t<0 ) throw mc::Prune(); bool t=throws([&]{ X.detach(); }); MC_CHECK(t==x.locked,"locked-detached",w.str()<<(t?" throws":" detaches a locked ref")); if( !t ) m.detach(i); break; }
      case 5: { // attach
        if( x.t>=0 && x.locked ) throw mc::Prune();
        int f=mc::choose(rich?6:4); 
        if( f==0 ) { w<<"attach new to "<<nm(i); m.detach(i); mk(i,0); }
        else if( f==1 ) { w<<"attach external readonly to "<<nm(i); if( x.t>=0 && x.t==extT ) throw mc::Prune(); m.detach(i); if( extT<0 ) { extT=m.T.size(); m.T.push_back(MT{1000,false}); } X.attach((const Node*)&ext,EXTERNAL); x=MR(); x.t=extT; x.wr=false; }
        else if( f==2 ) { w<<"attach external to "<<nm(i); if( x.t>=0 && x.t==extT ) throw mc::Prune(); m.detach(i); if( extT<0 ) { extT=m.T.size(); m.T.push_back(MT{1000,false}); } X.attach(&ext,EXTERNAL|WRITE); x=MR(); x.t=extT; x.wr=true; }
        else if( f==3 ) { int j=(i+1)%3; if( m.r[j].t<0 || m.r[j].t==x.t ) throw mc::Prune(); w<<"attach target of "<<nm(j)<<" to "<<nm(i); Node *p=const_cast<Node*>(R.r[j].deref_p()); X.attach(p); int t=m.r[j].t; bool an=m.T[t].anon; m.detach(i); x=MR(); x.t=t; x.wr=true; (void)an; }
        else if( f==4 ) { w<<"attach new shared to "<<nm(i); m.detach(i); mk(i,SHARED); }
        else { w<<"attach new locked to "<<nm(i); m.detach(i); mk(i,LOCKED); }
        break; }
      case 6: { // privatize
        if( x.t<0 ) throw mc::Prune();
        static const int F[]={0,DEEP,0,0,SHARED}; static const int D[]={0,0,1,2,0}; int f=mc::choose(5); w<<nm(i)<<".privatize("<<F[f]<<","<<D[f]<<")";
        bool a=X.privatize(F[f],D[f]); bool b=m.priv(i,F[f]&DEEP,D[f],F[f]); MC_CHECK(a==b,"privatize-result",w.str()<<" returns "<<a); break; }
      case 7: { if( x.t<0 ) throw mc::Prune(); int f=mc::choose(4); static const int F[]={LOCKED,UNLOCKED,READONLY,COW}; w<<nm(i)<<".change("<<F[f]<<")"; X.change(F[f]); 
        if( f==0 ) x.locked=true; else if( f==1 ) x.locked=false; else if( f==2 ) x.wr=false; else x.shared=false; break; }
      case 8: { if( x.t<0 || m.T[x.t].child<0 ) throw mc::Prune(); int j=(i+1)%3; if( m.r[j].t>=0 && m.r[j].locked ) throw mc::Prune(); w<<nm(j)<<".copy("<<nm(i)<<"->child)"; Ref tmp; tmp.copy(X->child,0,-1); R.r[j].copy(tmp,0,-1); int c=m.T[x.t].child; 
        { MR k=m.r[j]; m.r[j]=MR(); m.r[j].t=c; m.r[j].wr=true; m.drop(k.t); } break; }
    }
    MCLOG(w.str()<<"  "<<m.str());
    compare(m,R,w.str());
    mc::state(m.str());
  }
  for( int i=0;i<3;i++ ) { R.r[i].unlock(); R.r[i].detach(); m.r[i].locked=false; m.detach(i); }
  compare(m,R,"at the end");
  MC_CHECK(alive.size()==0,"leak",alive.size()<<" objects are never deleted");
  }
  MC_CHECK(badfree.empty(),"double-delete",badfree);
}
MC_SCENARIO(histories,6,16) { history(false); }
MC_SCENARIO(flags,6,16) { history(true); }

// ---------------------------------------------------------------- threads
struct Th { Ref *own; Ref *shared; std::vector<int> ops; int id; };
static void use (Ref &r,int expect,const char *what)
{ MC_CHECK(r.valid(),"lost-ref",what); int v=t_read(r); MC_CHECK(r.deref_p()->canary==0xC0FFEE,"use-after-delete",what<<": object has been deleted"); MC_CHECK(v==expect,"isolation",what<<": thread reads "<<v<<" through its own ref, expected "<<expect); }
static void * thread (void *p)
{
  Th &t=*(Th*)p; int exp=7; Ref second; int exp2=0; int k=0;
  for( int o:t.ops )
  {
    k++;
    switch( o )
    {
      case 0: t_write(*t.own,exp=t.id*100+k); use(*t.own,exp,"after write"); break;
      case 1: t_copy(second,*t.own); exp2=exp; use(second,exp2,"copy"); t_write(second,exp2=t.id*1000+k); use(second,exp2,"after write to copy"); use(*t.own,exp,"own ref after write to copy"); break;
      case 2: t_copy(*t.own,*t.shared); exp=7; use(*t.own,exp,"copy of shared ref"); break;
      case 3: t_detach(*t.own); t_copy(*t.own,*t.shared); exp=7; use(*t.own,exp,"re-copy"); break;
      case 4: t_privatize(*t.own,DMI::DEEP); use(*t.own,exp,"after privatize"); break;
      case 5: t_xfer(second,*t.own); exp2=exp; use(second,exp2,"after xfer"); t_xfer(*t.own,second); break;
      case 6: t_detach(second); break;
    }
  }
  return 0;
}
static void threads (int nthreads,int nops,int preempt,int cfg)
{
  static bool warm=false; if( !warm ) { warm=true; Ref a(new Node(1)); Ref b(a,0,-1); b.dewr().val=3; a.privatize(DMI::DEEP); }
  clearGrave(); Node::live=0;
  sched::Opt o; o.preemptions=preempt; o.mem_points=true;
  std::vector<Th> th(nthreads); std::vector<Ref> own(nthreads);
  std::ostringstream d;
  for( int i=0;i<nthreads;i++ ) { th[i].id=i+1; for( int k=0;k<nops;k++ ) th[i].ops.push_back(mc::choose(6)); d<<"thread "<<i+1<<":"; for( int x:th[i].ops ) d<<x; d<<" "; 
    if( i && th[i].ops<th[i-1].ops ) throw mc::Prune(); }
  MCLOG("config "<<cfg<<" "<<d.str());
  Ref sh;
  {
    Ref base; base.attach(new Node(5)); base.dewr().child.attach(new Node(6));
    sh.copy(base,0,-1); sh.dewr().val=7;       // sh now holds a clone nobody else has locked yet
    if( cfg==1 ) { sh.copy(base,0,-1); base.detach(); sh.dewr().val=7; }
  }
  for( auto &t:th ) { t.shared=&sh; t.own=&own[t.id-1]; }
  // cfg 0: threads start with copies of the shared ref made by themselves; 1: made for them
  sched::run(o,[&]{
    if( cfg==1 ) for( auto &r:own ) r.copy(sh,0,-1);
    std::vector<pthread_t> id(nthreads);
    auto start=[](void *p)->void*{ Th &t=*(Th*)p; if( !t.own->valid() ) { t_copy(*t.own,*t.shared); use(*t.own,7,"first copy"); } return thread(p); };
    for( int i=0;i<nthreads;i++ ) pthread_create(&id[i],0,start,&th[i]);
    for( int i=0;i<nthreads;i++ ) pthread_join(id[i],0);
    use(sh,7,"shared ref in the end"); MC_CHECK(sh->child->val==6,"isolation","child value changed");
    for( auto &r:own ) r.detach();
    MC_CHECK(sh->targetReferenceCount()==1,"refcount","reference count is "<<sh->targetReferenceCount()<<" after all other refs are gone ("<<d.str()<<")");
    sh.detach();
    MC_CHECK(badfree.empty(),"double-delete",badfree);
    MC_CHECK(Node::live==0,"leak",Node::live<<" objects are left");
  });
  mc::state(d.str()+std::to_string(cfg));
}
MC_SCENARIO(threads_own,2,8) { threads(2,1,mc::thorough()?3:2,1); }
MC_SCENARIO(threads_copy,2,8) { threads(2,1,mc::thorough()?3:2,0); }
MC_SCENARIO(threads_two_ops,6,16) { threads(2,2,mc::thorough()?2:1,mc::choose(2)); }
MC_SCENARIO(threads_three,4,16) { threads(3,1,mc::thorough()?2:1,mc::choose(2)); }
MC_MAIN()
