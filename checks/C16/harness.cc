// C16: the parameter table against a map, for every operation history, and with a crash at every system call.
#include "mc.h"
#include "../common/canon.h"
#include <MEQ/Meq.h>
#include <MEQ/TID-Meq.h>
#include <MEQ/Polc.h>
#include <MEQ/PolcLog.h>
#include <MEQ/ComposedPolc.h>
#include <MEQ/FastParmTable.h>
#include <MEQ/MeqVocabulary.h>
#include <DMI/NumArray.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <dirent.h>
using namespace DMI; using namespace Meq; using std::string; using std::vector; using std::map; using std::set;

// ---------------------------------------------------------------- crash points
// every system call that the table makes passes here; the directory as a killed process would leave it is copied
static bool armed=false; static string armdir; static vector<string> snaps; static string snapbase; static int incall=0;
static void rmtree (const string &d)
{ DIR *p=opendir(d.c_str()); if( !p ) return; while( dirent *e=readdir(p) ) { string n=e->d_name; if( n!="." && n!=".." ) unlink((d+"/"+n).c_str()); } closedir(p); rmdir(d.c_str()); }
static string slurp (const string &f) { FILE *p=fopen(f.c_str(),"rb"); if( !p ) return ""; string s; char b[65536]; size_t n; while( (n=fread(b,1,sizeof b,p))>0 ) s.append(b,n); fclose(p); return s; }
static map<string,string> dirstate (const string &d)
{ map<string,string> m; DIR *p=opendir(d.c_str()); if( !p ) return m; while( dirent *e=readdir(p) ) { string n=e->d_name; if( n!="." && n!=".." ) m[n]=slurp(d+"/"+n); } closedir(p); return m; }
typedef map<string,string> Disk;
static vector<Disk> disks;       // states of the directory at the crash points of the current operation, consecutive duplicates removed
static int ncalls=0;
static void snap () { if( !armed || incall ) return; incall++; ncalls++; Disk d=dirstate(armdir); if( disks.empty() || disks.back()!=d ) disks.push_back(std::move(d)); incall--; }
template<class F> static F real (const char *n) { return (F)dlsym(RTLD_NEXT,n); }
extern "C" {
ssize_t write (int fd,const void *b,size_t n)
{
  static auto f=real<ssize_t(*)(int,const void*,size_t)>("write"); if( !armed || incall ) return f(fd,b,n);
  snap(); size_t h=n/4096*4096; if( h==n && h ) h-=4096;   // a killed process leaves whole pages
  if( h ) { ssize_t r=f(fd,b,h); if( r!=ssize_t(h) ) return r; snap(); r=f(fd,(const char*)b+h,n-h); snap(); return r<0 ? r : r+ssize_t(h); }
  ssize_t r=f(fd,b,n); snap(); return r;
}
off_t lseek (int fd,off_t o,int w) { static auto f=real<off_t(*)(int,off_t,int)>("lseek"); snap(); return f(fd,o,w); }
ssize_t read (int fd,void *b,size_t n) { static auto f=real<ssize_t(*)(int,void*,size_t)>("read"); snap(); return f(fd,b,n); }
int ftruncate (int fd,off_t l) { static auto f=real<int(*)(int,off_t)>("ftruncate"); snap(); int r=f(fd,l); snap(); return r; }
int fsync (int fd) { snap(); return 0; }            // the page cache is what survives a killed process
int msync (void *,size_t,int) { snap(); return 0; }
int munmap (void *p,size_t n) { static auto f=real<int(*)(void*,size_t)>("munmap"); snap(); return f(p,n); }
int unlink (const char *p) { static auto f=real<int(*)(const char*)>("unlink"); snap(); int r=f(p); snap(); return r; }
int rename (const char *a,const char *b) { static auto f=real<int(*)(const char*,const char*)>("rename"); snap(); int r=f(a,b); snap(); return r; }
int close (int fd) { static auto f=real<int(*)(int)>("close"); snap(); return f(fd); }
int fflush (FILE *p) { static auto f=real<int(*)(FILE*)>("fflush"); snap(); int r=f(p); snap(); return r; }
int fclose (FILE *p) { static auto f=real<int(*)(FILE*)>("fclose"); snap(); int r=f(p); snap(); return r; }
size_t fwrite (const void *b,size_t s,size_t n,FILE *p) { static auto f=real<size_t(*)(const void*,size_t,size_t,FILE*)>("fwrite"); snap(); size_t r=f(b,s,n,p); snap(); return r; }
}
static void store (const string &d,const Disk &disk)
{ rmtree(d); mkdir(d.c_str(),0777); for(auto &x:disk) { FILE *p=fopen((d+"/"+x.first).c_str(),"wb"); fwrite(x.second.data(),1,x.second.size(),p); fclose(p); } }

// ---------------------------------------------------------------- functions
static string S (double x) { char b[40]; snprintf(b,40,"%.17g",x); return b; }
struct Dm { map<int,std::pair<double,double>> r; };
static const Dm DOMS[] = {
  { {{0,{0,1}},{1,{0,1}}} },           // 0
  { {{0,{0.5,2}},{1,{0,1}}} },         // 1 overlaps 0
  { {{0,{2,3}},{1,{0,1}}} },           // 2 touches 1, disjoint from 0
  { {{0,{0,1}}} },                     // 3 frequency open
  { {{0,{0,1+1e-9}},{1,{0,1}}} },      // 4 almost 0
  { {} },                              // 5 everywhere
  { {{0,{1.2,1.4}},{1,{0.9,5}}} },     // 6 query only: inside 1
  { {{0,{10,11}},{1,{7,8}}} },         // 7 query only: nothing but open ones
  { {{3,{0,1}}} },                     // 8 another axis
};
static Domain * mkdom (int k) { Domain *p=new Domain; for(auto &x:DOMS[k].r) p->defineAxis(x.first,x.second.first,x.second.second); return p; }
static bool overlap (int a,int b)
{ for(auto &x:DOMS[a].r) { auto q=DOMS[b].r.find(x.first); if( q==DOMS[b].r.end() ) continue; if( x.second.first>=q->second.second || x.second.second<=q->second.first ) return false; } return true; }
static const int NFUN=8;
static Funklet * rawfun (int k,int dom)
{
  switch(k)
  {
    case 0: return new Polc(1.5,defaultPolcPerturbation,1.,-1);
    case 1: return new Polc(-2.25,defaultPolcPerturbation,1.,-1);
    case 2: { LoMat_double m(2,2); m=1.,2.,3.,4.; int ax[]={0,1}; double of[]={0.5,1},sc[]={1,2}; return new Polc(m,ax,of,sc); }
    case 3: { LoVec_double v(3); v=7.,0.,-1.; return new Polc(v,1,0.25,3.); }
    case 4: { vector<double> ls(2,0.); ls[1]=2; LoVec_double v(2); v=1.,5.; return new PolcLog(v,1,0.,1.,defaultPolcPerturbation,1,-1,ls); }
    case 5:
    { // two constant pieces covering the domain
      if( !DOMS[dom].r.count(0) || !DOMS[dom].r.count(1) ) throw mc::Prune();
      auto x=DOMS[dom].r.at(0),y=DOMS[dom].r.at(1); double mid=(x.first+x.second)/2;
      vector<Funklet::Ref> f(2); for(int i=0;i<2;i++) { Polc *p=new Polc(i?9.:4.,defaultPolcPerturbation,1.,-1); Domain::Ref d(new Domain); d().defineAxis(0,i?mid:x.first,i?x.second:mid); d().defineAxis(1,y.first,y.second); p->setDomain(*d); f[i]<<=p; } return new ComposedPolc(f); }
    case 6: { LoVec_double v(900); for(int i=0;i<900;i++) v(i)=i; return new Polc(v,0); }          // larger than what it replaces
    default: { vector<double> ls(2,0.); ls[1]=2; return new PolcLog(3.75,defaultPolcPerturbation,1,-1,ls); }
  }
}
static Funklet::Ref fun (int k,int dom)
{ Funklet::Ref r(rawfun(k,dom)); if( k==5 ) return r; Domain::Ref d(mkdom(dom)); r().setDomain(*d); return r; }
static string dcanon (const Domain &d) { string s="{"; for(int i=0;i<Axis::MaxAxis;i++) if( d.isDefined(i) ) s+=std::to_string(i)+"="+S(d.start(i))+":"+S(d.end(i))+" "; return s+"}"; }
static string fcanon (const Funklet &f)
{
  string s; TypeId t=f.objectType();
  const Polc *p=dynamic_cast<const Polc*>(&f);
  if( t==TpMeqPolc && p->isConstant() ) return "c00="+S(p->getCoeff0())+dcanon(f.domain());
  s=t.toString()+dcanon(f.domain());
  if( t==TpMeqComposedPolc )
  { s=t.toString()+dcanon(f.domain())+"("; const DMI::List &l=f[FFunkletList].as<DMI::List>(); for( DMI::List::const_iterator i=l.begin(); i!=l.end(); i++ ) s+=fcanon(dynamic_cast<const Funklet&>(i->deref()))+";"; return s+")"; }
  DMI::Record::Ref r(new DMI::Record); const DMI::Record &fr=f;
  for( DMI::Record::const_iterator i=fr.begin(); i!=fr.end(); i++ ) if( i.id()!=FDbId && i.id()!=HIID(FDomain) && !( p && p->ncoeff()<=1 && ( i.id()==HIID(FAxisIndex) || i.id()==HIID(FOffset) || i.id()==HIID(FScale) ) ) ) r().add(i.id(),i.ref());
  return s+canon::of(r.ref_cast<DMI::BObj>());
}
static const string & expected (int k,int dom) { static map<int,string> c; string &s=c[k*100+dom]; if( s.empty() ) s=fcanon(*fun(k,dom)); return s; }

// ---------------------------------------------------------------- the model
static const char *NAMES[]={"A","AB","a%s%n b:1"}; 
typedef std::pair<int,int> Key;               // name, domain kind
struct Model
{
  vector<int> doms;                            // domain kinds in index order
  map<Key,int> f;                              // function kinds
  map<Key,set<int>> maybe;                     // what a crash may leave (-1: absent) for keys changed since the last flush
  set<int> mdoms;                              // domains added since the last flush
  int dindex (int d) const { for(size_t i=0;i<doms.size();i++) if( doms[i]==d ) return i; return -1; }
  string str () const { string s; for(int d:doms) s+=std::to_string(d)+","; s+="|"; for(auto &x:f) s+=std::to_string(x.first.first)+"."+std::to_string(x.first.second)+"="+std::to_string(x.second)+" "; s+="|"; for(auto &x:maybe) { s+=std::to_string(x.first.first)+"."+std::to_string(x.first.second)+"~"; for(int k:x.second) s+=std::to_string(k)+","; } return s; }
};
static string keystr (int n,int d) { return string(NAMES[n])+"@D"+std::to_string(d); }
template<class F> static bool throws (F f) { try { f(); return false; } catch( std::exception &e ) { return true; } }

// everything the table says
static void check (FastParmTable &t,const Model &m,const string &ctx,int NN,const vector<int> &queries,int damaged=-1)
{
  MC_CHECK(t.domainList().size()==m.doms.size(),"domains","table has "<<t.domainList().size()<<" domains, expected "<<m.doms.size()<<" after"<<ctx);
  for(size_t i=0;i<m.doms.size();i++) { Domain::Ref r; t.domainList()[i].makeDomain(r); Domain::Ref e(mkdom(m.doms[i])); MC_CHECK(dcanon(*r)==dcanon(*e),"domains","domain "<<i<<" is "<<dcanon(*r)<<" expected "<<dcanon(*e)<<" after"<<ctx); }
  for(int n=0;n<NN;n++) if( n!=damaged )
  {
    for(int q:queries)
    {
      vector<string> exp; for(size_t i=0;i<m.doms.size();i++) { auto p=m.f.find(Key(n,m.doms[i])); if( p!=m.f.end() && overlap(m.doms[i],q) ) exp.push_back(expected(p->second,m.doms[i])); }
      vector<Funklet::Ref> got; Domain::Ref qd(mkdom(q)); int nf;
      try { nf=t.getFunklets(got,NAMES[n],*qd); } catch( std::exception &e ) { mc::fail("lookup",string("lookup of ")+keystr(n,q)+" failed after"+ctx+": "+e.what()); return; }
      MC_CHECK(nf==int(exp.size()) && got.size()==exp.size(),"lookup","lookup of "<<keystr(n,q)<<" returns "<<nf<<" functions ("<<got.size()<<"), expected "<<exp.size()<<" after"<<ctx);
      std::sort(exp.begin(),exp.end()); vector<string> g; for(auto &r:got) { MC_CHECK(r.valid(),"lookup","lookup of "<<keystr(n,q)<<" returns an empty function after"<<ctx); g.push_back(fcanon(*r)); }
      std::sort(g.begin(),g.end());
      for(size_t i=0;i<g.size();i++) MC_CHECK(g[i]==exp[i],"lookup","lookup of "<<keystr(n,q)<<" returns "<<g[i]<<" expected "<<exp[i]<<" after"<<ctx);
    }
    for(size_t i=0;i<m.doms.size();i++)
    {
      Funklet::Ref r; int k=t.getFunklet(r,NAMES[n],i); auto p=m.f.find(Key(n,m.doms[i]));
      MC_CHECK(k==int(p!=m.f.end()),"get","getFunklet("<<keystr(n,m.doms[i])<<") returns "<<k<<" after"<<ctx);
      if( k ) MC_CHECK(fcanon(*r)==expected(p->second,m.doms[i]),"get","getFunklet("<<keystr(n,m.doms[i])<<") returns "<<fcanon(*r)<<" expected "<<expected(p->second,m.doms[i])<<" after"<<ctx);
    }
  }
  set<string> exp,got; for(auto &x:m.f) exp.insert(string(NAMES[x.first.first])+"#"+std::to_string(m.dindex(x.first.second)));
  string name; int di; 
  for( bool ok=t.firstFunklet(name,di); ok; ok=t.nextFunklet(name,di) ) { string s=name+"#"+std::to_string(di); MC_CHECK(got.insert(s).second,"listing",s<<" listed twice after"<<ctx); MC_CHECK(got.size()<100,"listing","listing does not end after"<<ctx); }
  string dm = damaged<0 ? string() : string(NAMES[damaged])+"#"; auto isd=[&](const string &s){ return damaged>=0 && s.compare(0,dm.size(),dm)==0; };
  for(auto &s:exp) if( !isd(s) ) MC_CHECK(got.count(s),"listing",s<<" not listed after"<<ctx);
  for(auto &s:got) if( !isd(s) ) MC_CHECK(exp.count(s),"listing",s<<" listed but not stored, after"<<ctx);
}

// ---------------------------------------------------------------- operations
enum { PUT,DEL,DELALL,FLUSH,REOPENR,REOPENW };
struct Op { int kind,name,dom,fun; };
static string opstr (const Op &o)
{ switch(o.kind) { case PUT: return " put("+keystr(o.name,o.dom)+",f"+std::to_string(o.fun)+")"; case DEL: return " delete("+keystr(o.name,o.dom)+")"; case DELALL: return string(" deleteAll(")+NAMES[o.name]+")"; case FLUSH: return " flush"; case REOPENR: return " reopen"; default: return " reopen(write)"; } }
static void changed (Model &m,const Key &k,int newval)
{ auto p=m.f.find(k); int old=p==m.f.end()?-1:p->second; auto &s=m.maybe[k]; if( s.empty() ) s.insert(old); s.insert(newval); if( newval<0 ) m.f.erase(k); else m.f[k]=newval; }
static void apply (Model &m,const Op &o)
{
  switch(o.kind)
  {
    case PUT: if( m.dindex(o.dom)<0 ) { m.doms.push_back(o.dom); m.mdoms.insert(o.dom); } changed(m,Key(o.name,o.dom),o.fun); break;
    case DEL: if( m.f.count(Key(o.name,o.dom)) ) changed(m,Key(o.name,o.dom),-1); break;
    case DELALL: for(int d:m.doms) if( m.f.count(Key(o.name,d)) ) changed(m,Key(o.name,d),-1); break;
    default: m.maybe.clear(); m.mdoms.clear();
  }
}
static string DIR_="t";
struct Table
{
  FastParmTable *t=0; string dir;
  void open (const string &d,bool w) { close(); dir=d; t=new FastParmTable(d,w); }
  void close () { delete t; t=0; }
  ~Table () { close(); }
};
// runs one operation on the real table; m is the model before it
static void run (Table &T,const Model &m,const Op &o,const string &ctx)
{
  mc::op();
  try { switch(o.kind)
  {
    case PUT: { Funklet::Ref f=fun(o.fun,o.dom); int id=T.t->putCoeff(NAMES[o.name],*f); int e=m.dindex(o.dom); if( e<0 ) e=m.doms.size(); MC_CHECK(id==e,"put","putCoeff returns domain index "<<id<<" expected "<<e<<" after"<<ctx); break; }
    case DEL:
    { int i=m.dindex(o.dom); bool there=m.f.count(Key(o.name,o.dom)); if( i<0 ) i=m.doms.size()+1; bool th=throws([&]{T.t->deleteFunklet(NAMES[o.name],i);});
      MC_CHECK(th!=there,"delete",(there?"deletion failed":"deletion of a function that is not stored did not fail")<<" after"<<ctx); break; }
    case DELALL: T.t->deleteAllFunklets(NAMES[o.name]); break;
    case FLUSH: T.t->flush(); break;
    case REOPENR: T.open(T.dir,false); break;
    case REOPENW: T.open(T.dir,true); break;
  } }
  catch( mc::Violation & ) { throw; } catch( mc::Prune & ) { throw; }
  catch( std::exception &e ) { mc::fail("operation",opstr(o)+" failed after"+ctx+": "+e.what()); }
}
static vector<Op> alphabet (int NN,const vector<int> &doms,const vector<int> &funs,bool extra)
{
  vector<Op> a;
  for(int n=0;n<NN;n++) for(int d:doms) for(int f:funs) a.push_back({PUT,n,d,f});
  for(int n=0;n<NN;n++) for(int d:doms) a.push_back({DEL,n,d,0});
  for(int n=0;n<NN;n++) a.push_back({DELALL,n,0,0});
  if( extra ) a.push_back({DEL,2,0,0});
  a.push_back({FLUSH,0,0,0}); a.push_back({REOPENR,0,0,0}); a.push_back({REOPENW,0,0,0});
  return a;
}
static const vector<int> ALLQ={0,1,2,3,4,5,6,7,8};

static void history (const vector<Op> &A,int depth,int NN,const vector<int> &queries)
{
  rmtree(DIR_); Table T; bool w=mc::flip(); T.open(DIR_,w);
  Model m; string ctx=w?" open(write)":" open"; string last;
  for( int d=0;d<depth;d++ )
  {
    const Op &o=A[mc::choose(A.size())];
    // the state that matters for the future: the model, how the table is open, and the order of records in the file
    run(T,m,o,ctx); apply(m,o); ctx+=opstr(o); MCLOG(opstr(o));
    if( o.kind==REOPENR ) w=false; else if( o.kind!=DEL || true ) w=true;
    { Model mm=m; mm.maybe.clear(); last=mm.str(); } last+=(o.kind==REOPENR?"r":"w");
    bool again=mc::revisit(std::to_string(d)+last); mc::state(last);
    check(*T.t,m,ctx,NN,again?vector<int>{0,5}:queries);
    if( again ) throw mc::Prune();
  }
  // and everything survives an orderly close
  T.close(); T.open(DIR_,false); check(*T.t,m,ctx+" close open",NN,queries);
  mc::outcome(m.str());
}
// two names, the overlapping and the disjoint domains, constants and polynomials
MC_SCENARIO(histories,8,16)
{ history(alphabet(2,{0,1,2},{0,2},true), mc::thorough()?5:4, 3,{0,1,2,6,7}); }
// every kind of function in every kind of domain, replaced by every other
MC_SCENARIO(functions,8,16)
{
  rmtree(DIR_); Table T; T.open(DIR_,true); Model m; string ctx; 
  static const int D[]={0,1,2,3,4,5,8};
  for( int i=0;i<(mc::thorough()?3:2);i++ )
  { Op o={PUT,0,D[mc::choose(7)],mc::choose(NFUN)}; if( i && o.dom!=m.doms[0] ) o.name=mc::choose(2); run(T,m,o,ctx); apply(m,o); ctx+=opstr(o); MCLOG(opstr(o)); check(*T.t,m,ctx,2,ALLQ); }
  int how=mc::choose(3); if( how==1 ) { Op o={REOPENR}; run(T,m,o,ctx); } else if( how==2 ) { Op o={FLUSH}; run(T,m,o,ctx); }
  check(*T.t,m,ctx+" reopen",2,ALLQ); mc::state(m.str());
}
// functions read from the table and stored again, as solvers do, through their database id, also in another domain or table
MC_SCENARIO(writeback,8,8)
{
  rmtree(DIR_); rmtree("u"); Table T,U; T.open(DIR_,true); U.open("u",true); Model m,u; string ctx;
  static const int D[]={0,1,2};
  // other table numbers its domains in another order
  for( int i=0;i<2;i++ ) { Op o={PUT,1,D[mc::choose(3)],0}; run(U,u,o,ctx); apply(u,o); ctx+=" other"+opstr(o); }
  for( int i=0;i<2;i++ ) { Op o={PUT,0,D[mc::choose(3)],mc::choose(2)*2}; run(T,m,o,ctx); apply(m,o); ctx+=opstr(o); }
  int q=D[mc::choose(3)]; vector<Funklet::Ref> got; Domain::Ref qd(mkdom(q)); 
  T.t->getFunklets(got,NAMES[0],*qd); if( got.empty() ) throw mc::Prune();
  int which=mc::choose(got.size()); Funklet::Ref f=got[which]; 
  int src=-1; { int k=0; for(int d:m.doms) if( m.f.count(Key(0,d)) && overlap(d,q) && k++==which ) src=d; }
  // new coefficients, maybe a new domain, into either table under either name
  int nd=mc::choose(4); if( nd==3 ) nd=src; else nd=D[nd];
  int nv=mc::choose(2)*2+1; Funklet::Ref nf=f; { Domain::Ref d(mkdom(nd)); nf().setDomain(*d); }
  Funklet::Ref val=fun(nv,nd); val().setDbId(f->getDbId());
  bool other=mc::flip(); int name=mc::choose(2); Model &tm=other?u:m; Table &TT=other?U:T;
  int id; try { id=TT.t->putCoeff(NAMES[name],*val); } catch( std::exception &e ) { mc::fail("put",string("putCoeff failed: ")+e.what()); return; }
  int e=tm.dindex(nd); if( e<0 ) e=tm.doms.size(); ctx+=string(" writeback ")+(other?"other ":"")+keystr(name,nd)+" dbid "+std::to_string(f->getDbId());
  MC_CHECK(id==e,"put","putCoeff returns index "<<id<<" expected "<<e<<" after"<<ctx);
  apply(tm,Op{PUT,name,nd,nv}); MCLOG(ctx);
  check(*T.t,m,ctx,2,{0,1,2}); check(*U.t,u,ctx,2,{0,1,2});
  if( mc::flip() ) { T.open(DIR_,false); U.open("u",false); ctx+=" reopen"; check(*T.t,m,ctx,2,{0,1,2}); check(*U.t,u,ctx,2,{0,1,2}); }
  mc::state(m.str()+"/"+u.str()+std::to_string(id));
}

// ---------------------------------------------------------------- crashes
// opens what a crash left, and decides whether it is one of the states the model allows. Returns the model state found.
static Model recovered (Table &T,const Model &m,const string &ctx,bool write,const string &dir,int NN,const Key &inprogress,int &damaged)
{
  try { T.open(dir,write); } catch( std::exception &e ) { mc::fail("crash-open","opening after a crash failed:"+ctx+": "+e.what()); }
  Model r; 
  // domains: those flushed, in order, then some of the later ones
  auto &dl=T.t->domainList();
  MC_CHECK(dl.size()<=m.doms.size(),"crash-domains","after a crash the table has "<<dl.size()<<" domains:"<<ctx);
  size_t need=0; for(size_t i=0;i<m.doms.size();i++) if( !m.mdoms.count(m.doms[i]) ) need=i+1;
  MC_CHECK(dl.size()>=need,"crash-domains","after a crash the table has lost flushed domains ("<<dl.size()<<" of "<<need<<" left):"<<ctx);
  for(size_t i=0;i<dl.size();i++) { Domain::Ref d,e(mkdom(m.doms[i])); dl[i].makeDomain(d); MC_CHECK(dcanon(*d)==dcanon(*e),"crash-domains","after a crash domain "<<i<<" is "<<dcanon(*d)<<" expected "<<dcanon(*e)<<":"<<ctx); r.doms.push_back(m.doms[i]); }
  for(int n=0;n<NN;n++) for(size_t i=0;i<m.doms.size();i++)
  {
    int d=m.doms[i]; Key k(n,d); bool inp = k==inprogress; set<int> allowed; auto p=m.maybe.find(k); if( p!=m.maybe.end() ) allowed=p->second; else { auto q=m.f.find(k); allowed.insert(q==m.f.end()?-1:q->second); }
    Funklet::Ref f; int got=-1; 
    if( i<dl.size() )
    {
      int nf=0; try { nf=T.t->getFunklet(f,NAMES[n],i); } catch( std::exception &e ) { if( inp ) { damaged=n; r.f[k]=0; continue; } mc::fail("crash-read","after a crash reading "+keystr(n,d)+" failed:"+ctx+": "+e.what()); }
      if( nf ) { string c=fcanon(*f); for(int a:allowed) if( a>=0 && c==expected(a,d) ) got=a; if( got<0 && inp ) { damaged=n; r.f[k]=0; continue; } MC_CHECK(got>=0,"crash-value","after a crash "<<keystr(n,d)<<" is "<<c<<":"<<ctx); }
    }
    if( !inp || got>=0 ) MC_CHECK(allowed.count(got),"crash-lost","after a crash "<<keystr(n,d)<<" is "<<(got<0?"lost":"there")<<":"<<ctx);
    if( got>=0 ) r.f[k]=got;
  }
  check(*T.t,r,ctx+" crash",NN,{0,1,2,7},damaged);
  return r;
}
MC_SCENARIO(crash,8,16)
{
  const bool wr_torn=true; const int NN=2; vector<Op> A=alphabet(NN,{0,1},{0,2},false); 
  if( mc::thorough() ) { A.push_back({PUT,0,0,6}); A.push_back({PUT,0,2,5}); } else A.push_back({PUT,0,0,6});
  armed=false; disks.clear(); rmtree(DIR_); Model m; string ctx; bool w=false;
  int depth=mc::thorough()?4:3;
  Table *T=new Table; 
  T->open(DIR_,w=true);
  Model before; Op last={FLUSH}; bool done=false;
  // the file library rewrites records in place; a crash inside such a rewriting (as opposed to after it) is not specified.
  // It happens only if a function was replaced or removed before.
  bool appendonly=true; set<Key> seen;
  for( int d=0;d<depth;d++ )
  {
    int c=mc::choose(A.size()); const Op &o=A[c];
    // crash in this operation?
    bool crash = d==depth-1 || mc::flip();
    if( crash ) { disks.clear(); armdir=DIR_; armed=true; snap(); }
    if( o.kind==PUT ) appendonly &= seen.insert(Key(o.name,o.dom)).second;
    run(*T,m,o,ctx); if( o.kind==DEL || o.kind==DELALL ) appendonly=false;
    if( crash ) snap();
    armed=false;
    before=m; apply(m,o); ctx+=opstr(o); MCLOG(opstr(o)<<(crash?" crash":""));
    if( crash ) { last=o; done=true; break; }
  }
  T->close(); delete T;
  // during the last operation: flushes and reopens count only once they have returned
  Model during=m; 
  if( last.kind>=FLUSH ) { during=before; }
  Key inprogress(-1,-1);
  vector<Disk> ds; ds.swap(disks);
  // torn domain entries: stdio's own write is not visible to the interposer
  size_t nd=ds.size(); vector<std::pair<Disk,bool>> all;   // second: the operation has returned
  if( appendonly ) for(size_t i=0;i<nd;i++) all.push_back({ds[i],i+1==nd}); else all.push_back({ds[nd-1],true});
  for(size_t i=1;i<nd && appendonly;i++)
  { size_t a=ds[i-1]["domains"].size(), b=ds[i]["domains"].size();
    if( b>a && wr_torn ) for( size_t cut : {a+1,(a+b)/2,b-1} ) { Disk x=ds[i]; x["domains"].resize(cut); all.push_back({x,false}); } }
  int NX=all.size();
  for( int i=0;i<NX;i++ )
  {
    for( int wr=0;wr<2;wr++ )
    {
      string c=ctx+" [crash point "+std::to_string(i)+" of "+std::to_string(NX)+", "+(wr?"opened for writing":"opened")+"]";
      store("c",all[i].first); mc::op();
      const Model &mm = all[i].second ? m : during;
      int damaged=-1; Table C; Model r=recovered(C,mm,c,wr,"c",NN,all[i].second?Key(-1,-1):inprogress,damaged);
      if( damaged>=0 ) mc::count("half-overwritten functions");
      mc::state(r.str()+"/"+std::to_string(all[i].first["domains"].size())+"/"+std::to_string(all[i].first["funklets"].size()));
      // life goes on: a new function in a new domain, another in an old one
      for( const Op &o : { Op{PUT,1,2,0},Op{PUT,0,0,3},Op{PUT,0,3,1} } ) { run(C,r,o,c); apply(r,o); if( damaged>=0 && Key(o.name,o.dom)==inprogress ) damaged=-1; c+=opstr(o); check(*C.t,r,c,NN,{0,1,2,7},damaged); }
      C.close(); C.open("c",false); check(*C.t,r,c+" close open",NN,{0,1,2,7},damaged); C.close();
    }
    // a second crash, while the first is being repaired
    if( i && (mc::thorough() || i%3==1) )
    {
      store("c",all[i].first); const Model &mm = all[i].second ? m : during;
      disks.clear(); armdir="c"; armed=true; { Table C; try { C.open("c",true); } catch( std::exception & ) {} armed=false; }
      vector<Disk> d2; d2.swap(disks);
      for(size_t j=0;j<d2.size();j++)
      { string c=ctx+" [crash point "+std::to_string(i)+" of "+std::to_string(NX)+", crash point "+std::to_string(j)+" of reopening]"; store("e",d2[j]); mc::op(); Table C; int damaged=-1; recovered(C,mm,c,true,"e",NN,all[i].second?Key(-1,-1):inprogress,damaged); C.close(); }
    }
  }
  mc::outcome(m.str()+"/"+std::to_string(NX));
}
MC_MAIN()
