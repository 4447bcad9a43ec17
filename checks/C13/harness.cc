// C13: function and tensor nodes against their mathematical definition, on main values, perturbed values, flags and failures.
#include "mc.h"
#include "../common/forest.h"
#include "../common/canon.h"
#include <MEQ/VellSet.h>
#include <algorithm>
using namespace DMI; using namespace Meq; using std::string; using std::vector; using std::set; using std::map;
typedef std::complex<double> C;
static const int NX=2,NY=3,NC=NX*NY;
typedef vector<C> Fn;               // values at all NC cells
typedef vector<int> Fl;
struct Pert { double p; Fn v; };
struct Plane
{
  enum { VALUE,FAIL,MISSING }; int kind=VALUE; set<string> msgs; bool anyfail=false;
  Fn v; bool null=false; map<int,vector<Pert>> perts; Fl fl=Fl(NC,0);
  bool skip=false; vector<bool> skipcell; // value not specified
  bool isNull () const { return kind!=VALUE || (null&&perts.empty()); }
};
struct Res { vector<int> dims; vector<Plane> p; bool fail=false; bool anymsg=false; set<string> msgs; };   // fail: the whole result fails
static int prod (const vector<int> &d) { int r=1; for(int x:d) r*=x; return r; }
static string str (const vector<int> &v) { string r="["; for(int x:v) r+=(r.size()>1?",":"")+std::to_string(x); return r+"]"; }
static string str (C c) { char b[80]; snprintf(b,80,"%.12g%+.12gi",c.real(),c.imag()); return b; }
static string str (const set<string> &s) { string r="{"; for(auto &x:s) r+=x+";"; return r+"}"; }

// ---- plane profiles: built both as a real VellSet and as a model
struct Prof { const char *nm; int kind,shape,cx; vector<int> spids; int nset,pshape,flsh,special; };
// shape 0 scalar 1 x 2 y 3 full; flsh -1 none; special 1 null 2 unity 3 mismatching perturbation 4 zero with flags
static const Prof PROF[] = {
  {"scalar",0,0,0,{},0,0,-1,0}, {"full",0,3,0,{},0,0,-1,0}, {"cfull+1+fx",0,3,1,{1},1,3,1,0}, {"x+12",0,1,0,{1,2},1,3,-1,0},
  {"y+2dd+ff",0,2,0,{2},2,2,3,0}, {"null+f",0,0,0,{},0,0,3,1}, {"one+f",0,0,0,{},0,0,2,2}, {"fail",1,0,0,{},0,0,-1,0}, {"missing",2,0,0,{},0,0,-1,0},
  {"scalar+25+f",0,0,0,{2,5},1,0,0,0}, {"full+13dd",0,3,0,{1,3},2,1,-1,0}, {"null+1",0,0,0,{1},1,0,1,1}, {"x+2bad",0,1,0,{2},1,1,-1,3}, {"cscalar+f",0,0,1,{},0,0,1,0} };
static const int NPROF=sizeof(PROF)/sizeof(PROF[0]);
static LoShape shp (int s) { LoShape r; if( s==0 ) { r.resize(1); r[0]=1; } else { r.resize(s==1?1:2); r[0]=s&1?NX:1; if( s>1 ) r[1]=NY; } return r; }
static C value (int cell,int c,int p,int k,bool cx)
{ double a=0.15+0.07*cell+0.11*c+0.03*p+0.011*k; return C(a,cx?0.2+0.05*cell-0.04*c+0.02*p+0.017*k:0); }
static Fn fill (Vells &v,int s,int c,int p,int k,bool cx)
{
  LoShape sh=shp(s); if( cx ) v=Vells(make_dcomplex(0,0),sh,false); else v=Vells(0.,sh,false);
  int ny=s>1?NY:1; Fn f(NC); bool X=s&1,Y=s>1;
  for(int i=0;i<NX;i++) for(int j=0;j<NY;j++) { int red=(X?i:0)*NY+(Y?j:0); C z=value(red,c,p,k,cx); f[i*NY+j]=z; int ix=(X?i:0)*ny+(Y?j:0); if( cx ) v.begin<dcomplex>()[ix]=z; else v.begin<double>()[ix]=z.real(); }
  return f;
}
static Plane build (VellSet &vs,const Prof &P,int c,int p)
{
  Plane m; m.kind=P.kind;
  if( P.kind==Plane::FAIL ) { string s="fail of child "+std::to_string(c)+" plane "+std::to_string(p); m.msgs.insert(s); DMI::ExceptionList el; vs.addFail(LOFAR::Exception(s,__FILE__,__LINE__,"x")); if( p==1 ) { vs.addFail(LOFAR::Exception(s+" more",__FILE__,__LINE__,"x")); m.msgs.insert(s+" more"); } return m; }
  if( P.kind==Plane::MISSING ) return m;
  Vells v;
  if( P.special==1 ) { v=Vells(); m.v=Fn(NC,0.); m.null=true; }
  else if( P.special==2 ) { v=Vells::Unity(); m.v=Fn(NC,1.); }
  else m.v=fill(v,P.shape,c,p,0,P.cx);
  if( !P.spids.empty() )
  {
    vs.setNumPertSets(P.nset); vs.setSpids(P.spids);
    for(int t=0;t<P.nset;t++) for(size_t k=0;k<P.spids.size();k++)
    {
      int s=P.spids[k]; double d=0.001*s*(t?-1:1)*(P.special==3?2:1); Vells w; Fn f=fill(w,P.pshape,c,p,1+2*k+t,P.cx);
      vs.setPerturbation(k,d,t); vs.setPerturbedValue(k,new Vells(w),t); m.perts[s].push_back({d,f});
    }
  }
  vs.setValue(new Vells(v));
  if( P.flsh>=0 )
  {
    Vells::Ref fr; Vells &f=fr<<=new Vells(shp(P.flsh),VellsFlagType(0),false); bool X=P.flsh&1,Y=P.flsh>1; int ny=Y?NY:1;
    for(int i=0;i<NX;i++) for(int j=0;j<NY;j++) { int r=(X?i:0)*NY+(Y?j:0); int b=((r+c+p)%3==0)?1:((r+c)%2?0:2); if( P.flsh==0 ) b=4; m.fl[i*NY+j]=b; f.begin<VellsFlagType>()[(X?i:0)*ny+(Y?j:0)]=b; }
    vs.setDataFlags(fr);
  }
  return m;
}
static const vector<int> DIMS[] = { {}, {2}, {2,2}, {1,2}, {2,1}, {3}, {2,3}, {2,2,2}, {1}, {3,2}, {2,1,3}, {3,3,2}, {3,2,3} };
struct Child { Result::Ref ref; Res m; string nm; int code; };
// a result of these dimensions, whose planes use the given profiles in turn
static Child child (const vector<int> &dims,const vector<int> &profs,int c)
{
  Child r; r.m.dims=dims; int n=prod(dims); Result *pr;
  if( dims.empty() ) r.ref <<= pr = new Result(1); else { LoShape d; d.resize(dims.size()); for(size_t i=0;i<dims.size();i++) d[i]=dims[i]; r.ref <<= pr = new Result(d); }
  int nf=0,nm=0; r.nm="dims "+str(dims)+" planes (";
  for(int i=0;i<n;i++) { const Prof &P=PROF[profs[i%profs.size()]]; r.m.p.push_back(build(pr->setNewVellSet(i,0,0),P,c,i)); r.nm+=string(i?",":"")+P.nm; nf+=P.kind==1; nm+=P.kind==2; }
  r.nm+=")"; r.code = nf==n ? Meq::Node::RES_FAIL : nm==n ? Meq::Node::RES_MISSING : 0;
  { static Cells::Ref cc; if( !cc.valid() ) { Domain::Ref d(new Domain(0,4,0,6)); cc<<=new Cells(*d,NX,NY); } pr->setCells(*cc); }
  return r;
}
static void rejectAll (Res &r) { r.fail=true; r.anymsg=true; }

// ---- comparison
static C at (const Vells &v,int i,int j)
{ const LoShape &s=v.shape(); int nx=s.size()>0?s[0]:1,ny=s.size()>1?s[1]:1; int k=(nx>1?i:0)*ny+(ny>1?j:0); return v.isComplex()?C(v.begin<dcomplex>()[k]):C(v.begin<double>()[k],0); }
static int fat (const Vells &v,int i,int j)
{ const LoShape &s=v.shape(); int nx=s.size()>0?s[0]:1,ny=s.size()>1?s[1]:1; return v.begin<VellsFlagType>()[(nx>1?i:0)*ny+(ny>1?j:0)]; }
static bool near (C a,C b) { bool na=std::isnan(a.real())||std::isnan(a.imag()),nb=std::isnan(b.real())||std::isnan(b.imag()); if( na||nb ) return !std::isfinite(a.real()+a.imag())&&!std::isfinite(b.real()+b.imag()); if( a==b ) return true; double ma=std::abs(a),mb=std::abs(b); if( !std::isfinite(ma)||!std::isfinite(mb) ) return !std::isfinite(ma)&&!std::isfinite(mb); return std::abs(a-b)<=1e-10*(1+std::max(ma,mb)); }
static bool fits (const Vells &v) { const LoShape &s=v.shape(); for(size_t i=0;i<s.size();i++) if( !(s[i]==1||(i==0&&s[i]==NX)||(i==1&&s[i]==NY)) ) return false; return true; }
static void compareFn (const Vells &v,const Fn &f,const Plane &m,const char *key,const string &what)
{ MC_CHECK(fits(v),string(key)+"-shape",what<<": shape "<<v.shape()); MC_CHECK(v.isReal()||v.isComplex(),string(key)+"-type",what); for(int i=0;i<NX;i++) for(int j=0;j<NY;j++) { mc::op(); if( !m.skipcell.empty()&&m.skipcell[i*NY+j] ) continue; C a=at(v,i,j); MC_CHECK(near(a,f[i*NY+j]),key,what<<" at cell "<<i<<","<<j<<" is "<<str(a)<<", expected "<<str(f[i*NY+j])); } }
static set<string> messages (const VellSet &vs) { set<string> r; for(int i=0;i<vs.numFails();i++) r.insert(vs.getFailMessage(i)); return r; }
static bool covers (const set<string> &have,const set<string> &need)
{ for(auto &n:need) { bool ok=false; for(auto &h:have) ok = ok || h==n; if( !ok ) return false; } return true; }
static void compare (const Result::Ref &out,int code,const Res &m,const string &what)
{
  MC_CHECK(out.valid(),"no-result",what<<": no result");
  if( m.fail )
  {
    set<string> have; bool all=out->numVellSets()>0; for(int i=0;i<out->numVellSets();i++) { if( !out->vellSet(i).isFail() ) all=false; else for(auto &s:messages(out->vellSet(i))) have.insert(s); }
    MC_CHECK(all&&(code&Meq::Node::RES_FAIL),"fail-expected",what<<": expected a failed result, got "<<(all?"one without the fail code":"values"));
    MC_CHECK(covers(have,m.msgs),"fail-messages",what<<": messages "<<str(have)<<" do not include "<<str(m.msgs)); return;
  }
  int n=m.p.size();
  if( n==1 && m.dims.empty() && m.p[0].kind==Plane::MISSING && out->numVellSets()<=1 ) { MC_CHECK((code&Meq::Node::RES_MISSING)&&!(code&Meq::Node::RES_FAIL),"missing-code",what<<": missing data not reported, code "<<code); MC_CHECK(!out->numVellSets()||out->vellSet(0).isEmpty()&&!out->vellSet(0).isFail(),"missing-value",what<<": value instead of missing data"); return; }
  string why; for(int i=0;i<out->numVellSets();i++) if( out->vellSet(i).isFail() ) why=str(messages(out->vellSet(i)));
  // perturbations that do not match: failing the whole result is fine, too
  bool mis=false; for(auto &p:m.p) mis = mis || (p.kind==Plane::FAIL && p.anyfail); if( mis && (code&Meq::Node::RES_FAIL) ) return;
  MC_CHECK(out->numVellSets()==n,"planes",what<<": "<<out->numVellSets()<<" planes, expected "<<n<<" "<<why);
  LoShape d=out->dims(); vector<int> dd(d.begin(),d.end()); if( dd.size()==1&&dd[0]==1 ) dd.clear(); vector<int> md=m.dims; if( md.size()==1&&md[0]==1 ) md.clear();
  MC_CHECK(dd==md,"dims",what<<": dimensions "<<str(dd)<<", expected "<<str(md)<<" "<<why);
  int nf=0,nm=0; bool var=false;
  for(int i=0;i<n;i++)
  {
    const VellSet &vs=out->vellSet(i); const Plane &p=m.p[i]; string w=what+": plane "+std::to_string(i);
    if( p.kind==Plane::FAIL ) { nf++; MC_CHECK(vs.isFail(),"fail-expected",w<<": expected to fail"); if( !p.anyfail ) { MC_CHECK(covers(messages(vs),p.msgs),"fail-messages",w<<": messages "<<str(messages(vs))<<", expected "<<str(p.msgs)); } continue; }
    MC_CHECK(!vs.isFail(),"unexpected-fail",w<<" failed: "<<str(messages(vs)));
    if( p.kind==Plane::MISSING ) { nm++; MC_CHECK(!vs.hasValue(),"missing-value",w<<": value instead of missing data"); continue; }
    MC_CHECK(vs.hasValue(),"missing-value",w<<": value is missing");
    var = var || vs.getValue().nelements()>1;
    if( !p.skip ) compareFn(vs.getValue(),p.v,p,"value",w+": value");
    vector<int> sp; for(auto &x:p.perts) sp.push_back(x.first); vector<int> so; for(int k=0;k<vs.numSpids();k++) so.push_back(vs.getSpid(k));
    MC_CHECK(sp==so,"spids",w<<": spids "<<str(so)<<", expected "<<str(sp));
    int k=0; for(auto &x:p.perts) { for(size_t t=0;t<x.second.size();t++) { MC_CHECK(vs.numPertSets()==int(x.second.size()),"pert-sets",w<<": "<<vs.numPertSets()<<" perturbation sets"); MC_CHECK(vs.getPerturbation(k,t)==x.second[t].p,"perturbation",w<<": perturbation of spid "<<x.first<<" set "<<t<<" is "<<vs.getPerturbation(k,t)); if( !p.skip ) compareFn(vs.getPerturbedValue(k,t),x.second[t].v,p,"perturbed-value",w+": perturbed value of spid "+std::to_string(x.first)+" set "+std::to_string(t)); var = var || vs.getPerturbedValue(k,t).nelements()>1; } k++; }
    if( vs.hasDataFlags() ) MC_CHECK(fits(vs.dataFlags()),"flags-shape",w<<": flags shape "<<vs.dataFlags().shape());
    for(int a=0;a<NX;a++) for(int b=0;b<NY;b++) { int f=vs.hasDataFlags()?fat(vs.dataFlags(),a,b):0; MC_CHECK(f==p.fl[a*NY+b],"flags",w<<": flags at cell "<<a<<","<<b<<" are "<<f<<", expected "<<p.fl[a*NY+b]); }
  }
  MC_CHECK(!!(code&Meq::Node::RES_FAIL)==(nf==n),"fail-code",what<<": result code "<<code<<", "<<nf<<" of "<<n<<" planes failed");
  if( !nf ) MC_CHECK(!!(code&Meq::Node::RES_MISSING)==(nm==n),"missing-code",what<<": result code "<<code<<", "<<nm<<" of "<<n<<" planes missing");
  if( var ) MC_CHECK(out->hasCells(),"cells",what<<": result has no cells");
}

// ---- children polled with the default policies: fails and missing data are collected and returned
static bool collected (const vector<Child> &ch,Res &r,bool failok=false,bool missok=false)
{
  if( !failok ) for(auto &c:ch) if( c.code&Meq::Node::RES_FAIL ) { r.fail=true; for(auto &p:c.m.p) r.msgs.insert(p.msgs.begin(),p.msgs.end()); }
  if( r.fail ) return true;
  if( !missok ) for(auto &c:ch) if( c.code&Meq::Node::RES_MISSING ) { r.dims.clear(); Plane p; p.kind=Plane::MISSING; r.p.assign(1,p); return true; }
  return false;
}
// ---- a function of planes: perturbed values are the function of the correspondingly perturbed inputs
typedef std::function<Fn(const vector<const Fn*>&)> Func;
static bool perturb (Plane &o,const vector<const Plane*> &in,const Func &f)
{
  vector<const Fn*> main; for(auto p:in) main.push_back(p&&p->kind==Plane::VALUE?&p->v:0);
  o.kind=Plane::VALUE; o.v=f(main);
  size_t ns=0; set<int> sp; for(auto p:in) if( p&&p->kind==Plane::VALUE ) for(auto &x:p->perts) { sp.insert(x.first); ns=std::max(ns,x.second.size()); }
  for(int s:sp) { vector<Pert> out; for(size_t t=0;t<ns;t++) {
    vector<const Fn*> a=main; bool found=false; double d=0;
    for(size_t i=0;i<in.size();i++) if( main[i] ) { auto it=in[i]->perts.find(s); if( it==in[i]->perts.end()||t>=it->second.size() ) continue; const Pert &q=it->second[t]; if( found && q.p!=d ) return false; found=true; d=q.p; a[i]=&q.v; }
    if( !found ) return false;
    out.push_back({d,f(a)}); } o.perts[s]=out; }
  return true;
}
static Fn pw (const vector<const Fn*> &a,const std::function<C(const vector<C>&)> &g)
{ Fn r(NC); for(int k=0;k<NC;k++) { vector<C> x; for(auto p:a) if( p ) x.push_back((*p)[k]); r[k]=g(x); } return r; }
struct FOpt { bool missok=false,nullflags=false; vector<int> masks; };
static int maskOf (const FOpt &o,size_t i) { return o.masks.empty()?-1:o.masks.size()==1?o.masks[0]:o.masks[i]; }
static Res funcResult (const vector<Child> &ch,const Func &f,const FOpt &o=FOpt())
{
  Res r; if( collected(ch,r,false,o.missok) ) return r;
  vector<int> dims; bool have=false;
  for(auto &c:ch) if( !c.m.dims.empty() ) { if( have && c.m.dims!=dims ) { rejectAll(r); return r; } have=true; dims=c.m.dims; }
  r.dims=dims; int n=prod(dims);
  for(int i=0;i<n;i++)
  {
    Plane p; vector<const Plane*> in; int miss=0;
    for(auto &c:ch) { const Plane *q=&c.m.p[c.m.dims.empty()?0:i]; in.push_back(q); if( q->kind==Plane::FAIL ) { p.kind=Plane::FAIL; p.msgs.insert(q->msgs.begin(),q->msgs.end()); } else if( q->kind==Plane::MISSING ) miss++; }
    if( p.kind!=Plane::FAIL )
    {
      if( miss && (miss==int(ch.size())||!o.missok) ) p.kind=Plane::MISSING;
      else if( !perturb(p,in,f) ) { p.kind=Plane::FAIL; p.anyfail=true; }
      else
      {
        bool anynull=false; for(auto q:in) anynull = anynull || (q->kind==Plane::VALUE && q->isNull());
        if( !(o.nullflags&&anynull) ) for(size_t k=0;k<in.size();k++) if( !in[k]->isNull() ) for(int x=0;x<NC;x++) p.fl[x]|=in[k]->fl[x]&maskOf(o,k);
      }
    }
    r.p.push_back(p);
  }
  return r;
}
static void run (const string &cls,const vector<Child> &ch,const Res &m,const DMI::Record &ex=DMI::Record(),const string &opt="")
{
  mcf::Forest1 F; vector<int> ci; int k=0;
  for(auto &c:ch) { Result::Ref r(c.ref); int code=c.code; ci.push_back(F.src(string(1,char('a'+k++)),[r,code](Meq::Node &,Result::Ref &ref,const Request &) { ref=r; return code; })); }
  string what=cls+opt+" of"; for(auto &c:ch) what+=" "+c.nm+";";
  vector<string> before; for(auto &c:ch) before.push_back(canon::of(*c.ref));
  int n=F.add(cls,"n",ci,ex); Domain::Ref d(new Domain(0,4,0,6)); Cells::Ref cells(new Cells(*d,NX,NY)); Request::Ref rq(new Request(*cells,HIID("ev.1"))); Result::Ref out;
  mc::count("nodes-executed"); mc::state(what);
  int code=F.exec(n,out,*rq); compare(out,code,m,what);
  k=0; for(auto &c:ch) MC_CHECK(canon::of(*c.ref)==before[k++],"child-modified",what<<": result of child "<<k-1<<" was modified");
  // again for another request: the same answer
  Request::Ref rq2(new Request(*cells,HIID("ev.2"))); Result::Ref out2; code=F.exec(n,out2,*rq2); compare(out2,code,m,what+" (second execution)");
}

// ---- scenarios
struct Un { const char *cls; std::function<C(C)> f; int cx; };   // cx: 1 complex allowed
static const vector<Un> & unary ()
{
  static vector<Un> v = {
    {"MeqSin",[](C z){return std::sin(z);},1},{"MeqCos",[](C z){return std::cos(z);},1},{"MeqTan",[](C z){return std::tan(z);},0},{"MeqExp",[](C z){return std::exp(z);},1},{"MeqLog",[](C z){return std::log(z);},1},
    {"MeqSqrt",[](C z){return std::sqrt(z);},1},{"MeqSqr",[](C z){return z*z;},1},{"MeqPow2",[](C z){return z*z;},1},{"MeqPow3",[](C z){return z*z*z;},1},{"MeqPow4",[](C z){return z*z*z*z;},1},{"MeqPow5",[](C z){return z*z*z*z*z;},1},{"MeqPow6",[](C z){return z*z*z*z*z*z;},1},{"MeqPow7",[](C z){return z*z*z*z*z*z*z;},1},{"MeqPow8",[](C z){z*=z;z*=z;return z*z;},1},
    {"MeqNegate",[](C z){return -z;},1},{"MeqInvert",[](C z){return 1./z;},1},{"MeqAbs",[](C z){return C(std::abs(z));},1},{"MeqFabs",[](C z){return C(std::abs(z));},0},{"MeqReal",[](C z){return C(z.real());},1},{"MeqImag",[](C z){return C(z.imag());},1},{"MeqConj",[](C z){return std::conj(z);},1},{"MeqArg",[](C z){return C(std::arg(z));},1},
    {"MeqAsin",[](C z){return C(std::asin(z.real()));},0},{"MeqAcos",[](C z){return C(std::acos(z.real()));},0},{"MeqAtan",[](C z){return C(std::atan(z.real()));},0},{"MeqSinh",[](C z){return std::sinh(z);},1},{"MeqCosh",[](C z){return std::cosh(z);},1},{"MeqTanh",[](C z){return std::tanh(z);},0},{"MeqCeil",[](C z){return C(std::ceil(z.real()));},0},{"MeqFloor",[](C z){return C(std::floor(z.real()));},0},{"MeqIdentity",[](C z){return z;},1} };
  return v;
}
static Child anyChild (int c,int ndims,bool cx,const vector<int> &profs,bool mixed=true)
{
  int d=mc::choose(ndims),p=profs[mc::choose(profs.size())]; vector<int> ps(1,p);
  if( d>0 && mixed ) { int q=mc::choose(4); if( q ) { static const int X[]={0,3,7,8}; ps.push_back(q==1?X[1]:q==2?X[2]:X[3]); } }
  if( !cx ) for(int x:ps) if( PROF[x].cx ) throw mc::Prune();
  return child(DIMS[d],ps,c);
}
static const vector<int> & allProfs () { static vector<int> v; if( v.empty() ) for(int i=0;i<NPROF;i++) v.push_back(i); return v; }
MC_SCENARIO(unary1,4,8)
{
  const Un &u=unary()[mc::choose(unary().size())]; FOpt o; int mk=mc::choose(3); DMI::Record ex; if( mk ) { o.masks={mk==1?1:0}; ex[HIID("Flag.Mask")]=o.masks[0]; }
  Child c=anyChild(0,3,u.cx,allProfs()); if( string(u.cls)=="MeqIdentity" ) { Res m=c.m; Res t; if( collected({c},t) ) m=t; run(u.cls,{c},m); return; }
  Func f=[&](const vector<const Fn*> &a) { return pw(a,[&](const vector<C> &x) { return u.f(x[0]); }); };
  run(u.cls,{c},funcResult({c},f,o),ex,mk?" flag mask "+std::to_string(o.masks[0]):"");
}
static C fmod_ (C a,C b) { return C(std::fmod(a.real(),b.real())); }
struct Bin { const char *cls; std::function<C(C,C)> f; int cx; };
static const vector<Bin> & binary ()
{
  static vector<Bin> v = { {"MeqSubtract",[](C a,C b){return a-b;},1},{"MeqDivide",[](C a,C b){return a/b;},1},{"MeqPow",[](C a,C b){return std::pow(a,b);},1},{"MeqToComplex",[](C a,C b){return C(a.real(),b.real());},0},{"MeqPolar",[](C a,C b){return std::polar(a.real(),b.real());},0},{"MeqAtan2",[](C a,C b){return C(std::atan2(a.real(),b.real()));},0},{"MeqFMod",fmod_,0} };
  return v;
}
static bool hasZero (const Child &c) { for(auto &p:c.m.p) if( p.kind==Plane::VALUE && p.null ) return true; return false; }
MC_SCENARIO(binary2,8,8)
{
  const Bin &u=binary()[mc::choose(binary().size())]; Child a=anyChild(0,3,u.cx,allProfs(),mc::thorough()),b=anyChild(1,3,u.cx,allProfs());
  if( (u.cls==string("MeqDivide")||u.cls==string("MeqFMod")) && hasZero(b) ) throw mc::Prune();
  if( u.cls==string("MeqPow") && hasZero(a) ) throw mc::Prune();
  Func f=[&](const vector<const Fn*> &v) { return pw(v,[&](const vector<C> &x) { return u.f(x[0],x[1]); }); };
  run(u.cls,{a,b},funcResult({a,b},f));
}
MC_SCENARIO(nary,8,8)
{
  static const char *CLS[]={"MeqAdd","MeqMultiply","MeqSubtract","MeqWSum","MeqWMean"}; static const vector<int> P={0,2,3,4,5,6,7,8,11}; int k=mc::choose(5),nch=1+mc::choose(3); if( nch==1&&k==2 ) throw mc::Prune();
  vector<Child> ch; for(int i=0;i<nch;i++) ch.push_back(anyChild(i,nch==3?2:3,true,nch==3&&!mc::thorough()?vector<int>{0,2,4,5,7,8}:P,nch<3&&(i==0||mc::thorough())));
  FOpt o; DMI::Record ex; string opt; int mk = nch==2 ? mc::choose(3) : 0; if( mk==1 ) { o.masks={2}; ex[HIID("Flag.Mask")]=2; opt=" flag mask 2"; } else if( mk==2 ) { o.masks={1,-1}; ex[HIID("Flag.Mask")]=o.masks; opt=" flag masks 1,-1"; }
  vector<double> w; if( k>=3 ) { static const vector<vector<double>> W={{},{1.},{2.},{2,3,4},{0.5,0,-1.5},{0,1,1},{3},{2,-1}}; int wi=mc::choose(mc::thorough()?W.size():mk?2:nch==3?5:W.size()); w=W[wi]; if( int(w.size())>nch ) w.resize(nch); if( w.size()>1 && int(w.size())!=nch ) w.resize(nch,0.); if( !w.empty() ) ex[HIID("Weights")]=w; opt+=" weights "+std::to_string(wi); }
  Func f; bool dis=false; for(size_t i=0;i<w.size();i++) if( w.size()>1&&w[i]==0 ) dis=true; 
  vector<double> ww=w; if( k>=3 ) { if( ww.size()<=1 ) ww.assign(nch,ww.empty()?1.:ww[0]); if( k==4 ) { if( w.size()<=1 ) ww.assign(nch,1./nch); else { double s=0; for(double x:ww) s+=x; if( s!=0 ) for(double &x:ww) x/=s; } } }
  switch( k ) {
    case 0: o.missok=true; f=[](const vector<const Fn*> &v) { return pw(v,[](const vector<C> &x) { C s=0; for(C z:x) s+=z; return s; }); }; break;
    case 1: o.missok=true; o.nullflags=true; f=[](const vector<const Fn*> &v) { return pw(v,[](const vector<C> &x) { C s=1; for(C z:x) s*=z; return s; }); }; break;
    case 2: f=[](const vector<const Fn*> &v) { return pw(v,[](const vector<C> &x) { C s=x[0]; for(size_t i=1;i<x.size();i++) s-=x[i]; return s; }); }; break;
    default: f=[&](const vector<const Fn*> &v) { return pw(v,[&](const vector<C> &x) { C s=0; for(size_t i=0;i<x.size();i++) s+=x[i]*ww[i]; return s; }); };
  }
  if( dis )   // children of weight zero are not used at all
  {
    vector<Child> en; vector<double> we; vector<int> me; for(int i=0;i<nch;i++) if( w[i]!=0 ) { en.push_back(ch[i]); we.push_back(ww[i]); if( o.masks.size()>1 ) me.push_back(o.masks[i]); } if( en.empty() ) throw mc::Prune();
    ww=we; if( o.masks.size()>1 ) o.masks=me; run(CLS[k],ch,funcResult(en,f,o),ex,opt); return;
  }
  run(CLS[k],ch,funcResult(ch,f,o),ex,opt);
}
// ---- reductions of a single child
MC_SCENARIO(reduction,8,8)
{
  static const char *CLS[]={"MeqSum","MeqMean","MeqMin","MeqMax","MeqProduct","MeqRms","MeqStdDev","MeqNElements"}; int k=mc::choose(8); static const vector<int> AX[]={{},{0},{1},{0,1}}; const vector<int> &ax=AX[mc::choose(4)];
  static const vector<int> P={1,2,3,4,7,8,10,0,9}; Child c=anyChild(0,3,k!=2&&k!=3&&k!=5&&k!=6,P);
  int mk=mc::choose(3),mask=mk==0?-1:mk==1?1:0; DMI::Record ex; if( mk ) ex[HIID("Flag.Mask")]=mask; if( !ax.empty() ) ex[HIID("Reduction.Axes")]=ax;
  // sums over data that does not vary along an axis are counted as the node documents: over the shape of the child
  if( k==0||k==4||k==7 ) for(auto &p:c.m.p) if( p.kind==Plane::VALUE ) { LoShape s=c.ref->getVellSetShape(); if( s.size()!=2||s[0]!=NX||s[1]!=NY ) throw mc::Prune(); }
  Res r; if( !collected({c},r,false,k==1||k==2||k==3) )
  {
    r.dims=c.m.dims;
    for(auto &q:c.m.p)
    {
      Plane p; p.kind=q.kind; p.msgs=q.msgs; if( q.kind!=Plane::VALUE ) { r.p.push_back(p); continue; }
      bool rx=ax.empty()||ax[0]==0,ry=ax.empty()||ax.back()==1; p.skipcell.assign(NC,false);
      auto red=[&](const Fn &v) { Fn o(NC); for(int i=0;i<NX;i++) for(int j=0;j<NY;j++) {
        vector<C> x; int all=0,flagged=0; for(int a=0;a<NX;a++) for(int b=0;b<NY;b++) if( (rx||a==i)&&(ry||b==j) ) { all++; if( q.fl[a*NY+b]&mask ) flagged++; else x.push_back(v[a*NY+b]); }
        if( x.empty() ) { p.skipcell[i*NY+j]=true; p.fl[i*NY+j]=mask; if( k==7 ) p.skipcell[i*NY+j]=false; } C s=0,z=0; for(C y:x) { s+=y; z+=y*y; } double n=x.size();
        switch( k ) { case 0: z=s; break; case 1: z=s/n; break; case 2: z=1e9; for(C y:x) if( y.real()<z.real() ) z=y; break; case 3: z=-1e9; for(C y:x) if( y.real()>z.real() ) z=y; break; case 4: z=1; for(C y:x) z*=y; break; case 5: z=std::sqrt(z/n); break; case 6: { C var=0,mu=s/n; for(C y:x) var+=(y-mu)*(y-mu); z=std::sqrt(var/n); break; } case 7: z=n; }
        o[i*NY+j]=z; } return o; };
      // flags: set where every point is flagged
      Func f=[&](const vector<const Fn*> &v) { return red(*v[0]); };
      Plane q2=q; perturb(p,{&q2},f); r.p.push_back(p);
    }
  }
  run(CLS[k],{c},r,ex," axes "+str(ax)+" mask "+std::to_string(mask));
}
// mean, maximum and minimum of several unflagged children, number of elements
MC_SCENARIO(multireduce,2,4)
{
  static const char *CLS[]={"MeqMean","MeqMax","MeqMin"}; int k=mc::choose(3); static const vector<int> P={0,1,3,7,8,10}; vector<Child> ch; int n=2+mc::choose(2); for(int i=0;i<n;i++) ch.push_back(anyChild(n-1-i,2,false,P,n==2));
  FOpt o; o.missok=true; Func f=[&](const vector<const Fn*> &v) { return pw(v,[&](const vector<C> &x) { C s=x[0]; for(size_t i=1;i<x.size();i++) s = k==0 ? s+x[i] : k==1 ? (x[i].real()>s.real()?x[i]:s) : (x[i].real()<s.real()?x[i]:s); return k==0?s/double(x.size()):s; }); };
  run(CLS[k],ch,funcResult(ch,f,o));
}
// ---- selection, pasting, composition, transposition: planes pass through unchanged
static Res pass (const vector<int> &dims,const vector<Plane> &p) { Res r; r.dims=dims; r.p=p; return r; }
static bool slice (const vector<int> &dims,const vector<int> &sel,vector<int> &odims,vector<int> &index)
{
  if( sel.size()!=dims.size() ) return false; for(size_t i=0;i<sel.size();i++) if( sel[i]>=dims[i] ) return false;
  vector<int> lo(sel),hi(sel); odims.clear(); index.clear(); size_t rank=0; for(size_t i=0;i<sel.size();i++) { if( sel[i]<0 ) { lo[i]=0; hi[i]=dims[i]-1; rank=i+1; } odims.push_back(hi[i]-lo[i]+1); } odims.resize(rank); if( prod(odims)==1 ) odims.clear(); // one plane: a scalar
  vector<int> x(lo); while( true ) { int o=0; for(size_t i=0;i<dims.size();i++) o=o*dims[i]+x[i]; index.push_back(o); int d=dims.size()-1; for(;d>=0;d--) { if( ++x[d]<=hi[d] ) break; x[d]=lo[d]; } if( d<0 ) break; }
  return true;
}
static const vector<int> & planeSets (int i) { static const vector<vector<int>> V={{0,1,2,3,4,9,6,10},{7,3,8,1},{8,7},{2,2,8},{3,7}}; return V[i]; }
static vector<int> selection (int rank,bool &multi)
{
  int n=mc::choose(rank>1?3:2); multi=false; vector<int> s; 
  if( n==0 ) return s;
  if( n==1 ) { int m=1+mc::choose(3); multi=m>1; for(int i=0;i<m;i++) s.push_back(mc::choose(m==3?3:5)-1); return s; }
  for(int i=0;i<rank;i++) s.push_back(mc::choose(rank==3?3:4)-1); return s;
}
MC_SCENARIO(selector,4,8)
{
  const vector<int> &dims=DIMS[mc::choose(13)]; Child c=child(dims,planeSets(mc::choose(5)),0); bool multi; vector<int> s=selection(dims.size(),multi); DMI::Record ex; if( !s.empty() ) ex[HIID("Index")]=s; if( multi ) ex[HIID("Multi")]=true;
  Res r; if( !collected({c},r) )
  {
    if( s.empty() ) r=c.m;
    else if( multi||s.size()==1 ) { if( s.size()>1 ) r.dims={int(s.size())}; for(int i:s) { Plane p; if( i<0||i>=int(c.m.p.size()) ) { p.kind=Plane::FAIL; p.anyfail=true; } else p=c.m.p[i]; r.p.push_back(p); } }
    else { vector<int> ix; if( !slice(dims,s,r.dims,ix) ) rejectAll(r); else for(int i:ix) r.p.push_back(c.m.p[i]); }
  }
  run("MeqSelector",{c},r,ex,string(multi?" multi":"")+" index "+str(s));
}
MC_SCENARIO(paster,8,8)
{
  static const int D1[]={0,1,2,3,4,6,7}; const vector<int> &dims=DIMS[D1[mc::choose(7)]]; static const int D2[]={0,1,2,3,4,5,9}; const vector<int> &dims2=DIMS[D2[mc::choose(7)]];
  Child a=child(dims,planeSets(mc::choose(mc::thorough()?3:2)),0),b=child(dims2,mc::choose(2)?vector<int>{7,9}:vector<int>{10,2},1); bool multi; vector<int> s=selection(dims.size(),multi); DMI::Record ex; if( !s.empty() ) ex[HIID("Index")]=s; if( multi ) ex[HIID("Multi")]=true;
  if( multi ) { set<int> u(s.begin(),s.end()); if( u.size()!=s.size() ) throw mc::Prune(); }
  Res r; if( !collected({a,b},r) )
  {
    r=a.m; int nb=b.m.p.size();
    if( s.empty() ) ;
    else if( multi||s.size()==1 ) { bool ok=nb==int(s.size()); for(int i:s) ok = ok && i>=0 && i<int(r.p.size()); if( !ok ) rejectAll(r); else for(size_t i=0;i<s.size();i++) r.p[s[i]]=b.m.p[i]; }
    else { vector<int> od,ix; if( !slice(dims,s,od,ix) ) rejectAll(r); else { vector<int> bd=b.m.dims; if( od!=bd && !(od.empty()&&nb==1) && !(od==vector<int>{1}&&bd.empty()) ) rejectAll(r); else for(size_t i=0;i<ix.size();i++) r.p[ix[i]]=b.m.p[i]; } }
  }
  run("MeqPaster",{a,b},r,ex,string(multi?" multi":"")+" index "+str(s));
}
MC_SCENARIO(composer,4,8)
{
  int n=1+mc::choose(3); vector<Child> ch; for(int i=0;i<n;i++) { static const int D[]={0,1,2,5,3}; int d=D[mc::choose(n==3?3:5)]; vector<int> pr; switch( mc::choose(4) ) { case 0: pr={0,1,2,3}; break; case 1: pr={7}; break; case 2: pr={8}; break; case 3: pr={4,7,8}; } ch.push_back(child(DIMS[d],pr,i)); }
  static const vector<vector<int>> DD={{},{0},{2,2},{4},{2,3},{6},{2,2,2}}; const vector<int> &dd=DD[mc::choose(DD.size())]; DMI::Record ex; if( !dd.empty() ) ex[HIID("Dims")]=dd;
  Res r; vector<Plane> all; for(auto &c:ch) all.insert(all.end(),c.m.p.begin(),c.m.p.end());
  if( dd.empty() ) { if( all.size()>1 ) r.dims={int(all.size())}; r.p=all; }
  else if( dd==vector<int>{0} )
  {
    vector<int> d0; bool ok=true; for(auto &c:ch) if( c.m.p.size()>1 ) { if( !d0.empty() && d0!=c.m.dims ) ok=false; d0=c.m.dims; }
    if( !ok ) rejectAll(r); else { r.dims={n}; r.dims.insert(r.dims.end(),d0.begin(),d0.end()); int np=prod(d0); for(auto &c:ch) for(int i=0;i<np;i++) r.p.push_back(c.m.p[c.m.p.size()==1?0:i]); }
  }
  else { if( prod(dd)!=int(all.size()) ) throw mc::Prune(); r.dims=dd; r.p=all; }
  run("MeqComposer",ch,r,ex," dims "+str(dd));
}
static Plane conjugated (const Plane &p) { Plane q=p; for(C &z:q.v) z=std::conj(z); for(auto &x:q.perts) for(auto &t:x.second) for(C &z:t.v) z=std::conj(z); return q; }
MC_SCENARIO(transpose,2,4)
{
  const vector<int> &dims=DIMS[mc::choose(13)]; Child c=child(dims,planeSets(mc::choose(5)),0); bool cj=mc::choose(2),ts=mc::choose(2); DMI::Record ex; if( cj ) ex[HIID("Conj")]=true; if( ts ) ex[HIID("Tensor")]=true;
  Res r; if( !collected({c},r) )
  {
    vector<int> d=dims; if( d==vector<int>{1} ) d.clear(); size_t k=d.size();
    if( k==0 ) r=c.m;
    else if( k==1 ) { r=c.m; if( !ts ) r.dims={1,d[0]}; }
    else if( ts && k==2 && d[1]==1 ) r=c.m;
    else { int nx=d[k-2],ny=d[k-1]; r.dims=d; if( nx==1 ) { r.dims.pop_back(); r.dims[k-2]=ny; } else std::swap(r.dims[k-2],r.dims[k-1]); int nm=c.m.p.size()/(nx*ny); for(int m=0;m<nm;m++) for(int i=0;i<ny;i++) for(int j=0;j<nx;j++) r.p.push_back(c.m.p[m*nx*ny+j*ny+i]); }
    if( cj ) for(auto &p:r.p) p=conjugated(p);
  }
  run("MeqTranspose",{c},r,ex,string(cj?" conj":"")+(ts?" tensor":""));
}
// ---- matrix products
static Plane sumprod (const vector<const Plane*> &in,const vector<int> &fma)   // pairs
{
  Plane p; for(size_t i=0;i<in.size();i++) if( in[i]->kind==Plane::FAIL ) { p.kind=Plane::FAIL; p.msgs.insert(in[i]->msgs.begin(),in[i]->msgs.end()); } if( p.kind==Plane::FAIL ) return p;
  Func f=[](const vector<const Fn*> &a) { Fn r(NC,0.); for(size_t i=0;i+1<a.size();i+=2) if( a[i]&&a[i+1] ) for(int k=0;k<NC;k++) r[k]+=(*a[i])[k]*(*a[i+1])[k]; return r; };
  if( !perturb(p,in,f) ) { p.kind=Plane::FAIL; p.anyfail=true; return p; }
  // a sum of products with null factors is null itself, whose flags have no effect
  p.null=true; for(size_t i=0;i+1<in.size();i+=2) if( !in[i]->isNull() && !in[i+1]->isNull() ) p.null=false;
  for(size_t i=0;i+1<in.size();i+=2) if( !in[i]->isNull() && !in[i+1]->isNull() ) for(int k=0;k<NC;k++) p.fl[k]|=(in[i]->fl[k]&fma[0])|(in[i+1]->fl[k]&fma[1]);
  return p;
}
static bool matmul (Res &r,const Res &a,const Res &b,const vector<int> &m)
{
  auto sc=[&](const Res &s,const Res &t,bool first) {
    if( t.dims.size()>2 ) { rejectAll(r); return; } const Plane &q=s.p[0]; 
    if( q.kind!=Plane::VALUE ) { r.p.assign(1,q); return; }
    if( q.isNull() ) { Plane z; z.v=Fn(NC,0.); z.null=true; r.p.assign(1,z); return; }
    r.dims=t.dims; for(auto &p:t.p) { if( p.kind!=Plane::VALUE ) { r.p.push_back(p); continue; } r.p.push_back(first?sumprod({&q,&p},m):sumprod({&p,&q},m)); } };
  if( a.dims.empty() ) { sc(a,b,true); return true; }
  if( b.dims.empty() ) { sc(b,a,false); return true; }
  vector<int> da=a.dims,db=b.dims; if( da.size()==1 ) da.push_back(1); if( db.size()==1 ) db.push_back(1);
  if( da.size()>2 || db.size()>2 || da[1]!=db[0] ) { rejectAll(r); return true; }
  if( db[1]==1 ) { if( da[0]>1 ) r.dims={da[0]}; } else r.dims={da[0],db[1]};
  for(int i=0;i<da[0];i++) for(int k=0;k<db[1];k++) { vector<const Plane*> in; for(int j=0;j<da[1];j++) { in.push_back(&a.p[i*da[1]+j]); in.push_back(&b.p[j*db[1]+k]); } r.p.push_back(sumprod(in,m)); }
  return true;
}
MC_SCENARIO(matmul2,8,8)
{
  static const vector<vector<int>> PS={{0,1,2,3},{9,5,3,6},{5,0,8,2},{7,1,3},{4,4,10,4},{3,12,1},{11,0,2,1}};
  int na=mc::choose(10),nb=mc::choose(10); Child a=child(DIMS[na],PS[mc::choose(PS.size())],0),b=child(DIMS[nb],PS[mc::choose(PS.size())],1); int mk=mc::choose(3); DMI::Record ex; vector<int> m={-1,-1}; if( mk==1 ) m={1,-1}; else if( mk==2 ) m={-1,2}; if( mk ) ex[HIID("Flag.Mask")]=m;
  if( DIMS[na]==vector<int>{1}||DIMS[nb]==vector<int>{1} ) throw mc::Prune();
  Res r; if( !collected({a,b},r) ) { matmul(r,a.m,b.m,m); }
  run("MeqMatrixMultiply",{a,b},r,ex," masks "+str(m));
}
MC_SCENARIO(matmul3,4,4)
{
  static const vector<vector<int>> PS={{0,1,2,3},{9,5,3,6},{5,8,2},{7,1,3}}; static const int D[]={0,2,1,6,4};
  vector<Child> ch; for(int i=0;i<3;i++) ch.push_back(child(DIMS[D[mc::choose(5)]],PS[mc::choose(4)],i));
  Res r; if( !collected(ch,r) ) { Res t; matmul(t,ch[0].m,ch[1].m,{-1,-1}); bool allfail=!t.fail; for(auto &p:t.p) allfail = allfail && p.kind==Plane::FAIL; if( t.fail ) r=t; else if( allfail ) r=t; else { for(auto &p:t.p) if( p.kind==Plane::MISSING && t.p.size()==1 ) throw mc::Prune(); matmul(r,t,ch[2].m,{-1,-1}); } }
  run("MeqMatrixMultiply",ch,r);
}
MC_SCENARIO(invert22,2,4)
{
  const vector<int> &dims=DIMS[mc::choose(11)]; vector<int> ps; int n=dims==vector<int>{2,2}?4:1; static const vector<int> P={0,2,3,4,5,7,8,9,10,12}; for(int i=0;i<n;i++) ps.push_back(P[mc::choose(P.size())]); Child c=child(dims,ps,0);
  Res r; if( !collected({c},r) )
  {
    if( prod(dims)==1 && (dims.empty()||dims==vector<int>{1}) ) { if( c.m.p[0].null ) throw mc::Prune(); Func f=[](const vector<const Fn*> &a) { return pw(a,[](const vector<C> &x) { return 1./x[0]; }); }; Plane p; if( !perturb(p,{&c.m.p[0]},f) ) throw mc::Prune(); p.fl=c.m.p[0].fl; r.p.push_back(p); }
    else if( dims!=vector<int>{2,2} ) rejectAll(r);
    else
    {
      for(auto &p:c.m.p) if( p.kind==Plane::FAIL ) { r.fail=true; r.msgs.insert(p.msgs.begin(),p.msgs.end()); }
      if( !r.fail ) { r.dims=dims; vector<const Plane*> in; for(auto &p:c.m.p) in.push_back(&p);
        Fl fl(NC,0); for(auto &p:c.m.p) for(int k=0;k<NC;k++) fl[k]|=p.fl[k];
        Fn zero(NC,0.); for(int e=0;e<4&&!r.fail;e++) { Func f=[&](const vector<const Fn*> &a) { const Fn &A=a[0]?*a[0]:zero,&B=a[1]?*a[1]:zero,&Cc=a[2]?*a[2]:zero,&D=a[3]?*a[3]:zero; Fn o(NC); for(int k=0;k<NC;k++) { C det=A[k]*D[k]-B[k]*Cc[k]; o[k]=(e==0?D[k]:e==1?-B[k]:e==2?-Cc[k]:A[k])/det; } return o; }; Plane p; if( !perturb(p,in,f) ) { rejectAll(r); break; } for(int k=0;k<NC;k++) { C det=c.m.p[0].v.empty()||c.m.p[3].v.empty()?C(0):c.m.p[0].v[k]*c.m.p[3].v[k]; det-=c.m.p[1].v.empty()||c.m.p[2].v.empty()?C(0):c.m.p[1].v[k]*c.m.p[2].v[k]; if( std::abs(det)<1e-3 ) throw mc::Prune(); } p.fl=fl; r.p.push_back(p); } }
    }
  }
  run("MeqMatrixInvert22",{c},r);
}
// ---- flag nodes
MC_SCENARIO(mergeflags,4,4)
{
  int n=1+mc::choose(2); vector<Child> ch; static const vector<vector<int>> PS={{0,2,4,9},{4},{2,7,3,8},{1,6,10},{9,2},{5,9}}; for(int i=0;i<n;i++) ch.push_back(child(DIMS[mc::choose(4)],PS[mc::choose(PS.size())],i)); bool all=n>1&&mc::choose(2); int mk=mc::choose(3); vector<int> m(n,-1); DMI::Record ex; if( mk==1 ) { m.assign(n,1); ex[HIID("Flag.Mask")]=1; } else if( mk==2 && n==2 ) { m={-1,0}; ex[HIID("Flag.Mask")]=m; } if( all ) ex[HIID("Merge.All")]=true;
  Res r; if( !collected(ch,r) )
  {
    r=ch[0].m; auto add=[&](Plane &p,const Plane &q,int mask) { if( p.kind==Plane::VALUE && q.kind==Plane::VALUE ) for(int k=0;k<NC;k++) p.fl[k]|=q.fl[k]&mask; };
    if( n==1 ) { if( r.p.size()>1 ) { Plane t; t.v=Fn(NC,0.); bool any=false; for(auto &p:r.p) { add(t,p,m[0]); for(int f:p.fl) any=any||(f&m[0]); } for(auto &p:r.p) if( p.kind==Plane::VALUE && any ) p.fl=t.fl; if( !any && m[0]!=-1 ) throw mc::Prune(); if( mk==1 ) { bool part=false; for(auto &p:ch[0].m.p) if( p.kind==Plane::VALUE ) for(int f:p.fl) part=part||(f&1); if( !part ) throw mc::Prune(); } } }
    else if( m[1]!=0 ) { Res &b=ch[1].m; if( all ) { for(auto &p:r.p) for(auto &q:b.p) add(p,q,m[1]); } else if( r.dims==b.dims ) for(size_t i=0;i<r.p.size();i++) add(r.p[i],b.p[i],m[1]); else if( b.dims.empty() ) for(auto &p:r.p) add(p,b.p[0],m[1]); else if( r.dims.empty() ) for(auto &q:b.p) add(r.p[0],q,m[1]); else rejectAll(r); }
  }
  run("MeqMergeFlags",ch,r,ex,string(all?" all":"")+" mask "+str(m));
}
MC_SCENARIO(stripper,1,1) { Child c=child(DIMS[mc::choose(3)],planeSets(mc::choose(5)),0); Res r; if( !collected({c},r) ) { r=c.m; for(auto &p:r.p) p.perts.clear(); } run("MeqStripper",{c},r); }
MC_SCENARIO(stripper1,1,1) { Child c=anyChild(0,3,true,allProfs()); Res r; if( !collected({c},r) ) { r=c.m; for(auto &p:r.p) p.perts.clear(); } run("MeqStripper",{c},r); }
MC_SCENARIO(replaceflagged,2,2)
{
  static const vector<int> P={0,1,2,3,4,5,7,8,9,10}; Child a=anyChild(0,2,true,P,false),b=anyChild(1,2,true,P,false); int vk=mc::choose(3); C val=vk==0?C(0):vk==1?C(5):C(5,3); DMI::Record ex; if( vk==1 ) ex[HIID("Value")]=5.; else if( vk==2 ) ex[HIID("Value")]=make_dcomplex(5,3);
  Res r; if( !collected({a,b},r) )
  {
    // replaces the flagged points of child 0 (flags of child 1)
    vector<int> dims=a.m.dims.empty()?b.m.dims:a.m.dims; if( !a.m.dims.empty()&&!b.m.dims.empty()&&a.m.dims!=b.m.dims ) rejectAll(r); else { r.dims=dims; for(int i=0;i<prod(dims);i++) { const Plane &p=a.m.p[a.m.dims.empty()?0:i],&q=b.m.p[b.m.dims.empty()?0:i]; Plane o; if( p.kind==Plane::FAIL||q.kind==Plane::FAIL ) { o.kind=Plane::FAIL; o.msgs=p.msgs; o.msgs.insert(q.msgs.begin(),q.msgs.end()); } else if( p.kind!=Plane::VALUE||q.kind!=Plane::VALUE ) o.kind=Plane::MISSING; else {
      bool cx=false; for(auto &z:p.v) cx=cx||z.imag()!=0; bool dep=false; for(auto &x:p.perts) for(auto &t:x.second) for(auto &z:t.v) (void)z,dep=true; C w=cx?val:C(val.real());
      Fl f=q.isNull()?Fl(NC,0):q.fl; Func g=[&](const vector<const Fn*> &v) { Fn z=*v[0]; for(int k=0;k<NC;k++) if( f[k] ) z[k]=w; return z; };
      if( !perturb(o,{&p,&q},g) ) { o.kind=Plane::FAIL; o.anyfail=true; } o.fl=p.fl; } r.p.push_back(o); } }
  }
  run("MeqReplaceFlaggedValues",{a,b},r,ex," value "+str(val));
}
MC_SCENARIO(zeroflagger,2,2)
{
  static const char *OP[]={"EQ","NE","LT","GT","LE","GE"}; int k=mc::choose(6),bit=mc::choose(2)?4:1; bool force=mc::choose(2); static const vector<int> P={0,1,3,4,5,7,8,9,10,11}; Child c=anyChild(0,2,false,P); DMI::Record ex; ex[HIID("Oper")]=HIID(OP[k]); ex[HIID("Flag.Bit")]=bit; if( force ) ex[HIID("Force.Output")]=true;
  Res r; if( !collected({c},r) ) { r=c.m; for(auto &p:r.p) if( p.kind==Plane::VALUE ) for(int x=0;x<NC;x++) { double v=p.v[x].real(); bool f = k==0?v==0:k==1?v!=0:k==2?v<0:k==3?v>0:k==4?v<=0:v>=0; if( f ) p.fl[x]|=bit; } }
  run("MeqZeroFlagger",{c},r,ex,string(" ")+OP[k]+" bit "+std::to_string(bit));
}
MC_SCENARIO(norm,1,1)
{
  static const vector<int> P={0,1,3,4,7,8,9,10,12}; Child c=anyChild(0,3,false,P); Res r; 
  if( !collected({c},r) ) { Plane p; vector<const Plane*> in; bool miss=false; for(auto &q:c.m.p) { in.push_back(&q); if( q.kind==Plane::FAIL ) { r.fail=true; r.msgs.insert(q.msgs.begin(),q.msgs.end()); } if( q.kind==Plane::MISSING ) miss=true; }
    if( !r.fail ) { if( miss ) throw mc::Prune(); Func f=[](const vector<const Fn*> &a) { return pw(a,[](const vector<C> &x) { C s=0; for(C z:x) s+=z*z; return std::sqrt(s); }); }; if( !perturb(p,in,f) ) rejectAll(r); else { for(auto q:in) if( !q->isNull() ) for(int k=0;k<NC;k++) p.fl[k]|=q->fl[k]; r.p.push_back(p); } } }
  run("MeqNorm",{c},r);
}
MC_SCENARIO(constant,1,1)
{
  int k=mc::choose(8); DMI::Record ex; Res r; auto add=[&](C z) { Plane p; p.v=Fn(NC,z); r.p.push_back(p); }; vector<double> v={1.5,-2,3,0,4,5};
  switch( k ) {
    case 0: ex[HIID("Value")]=2.5; add(2.5); break;
    case 1: ex[HIID("Value")]=make_dcomplex(1,-2); add(C(1,-2)); break;
    case 2: ex[HIID("Value")]=7; add(7); break;
    case 3: ex[HIID("Value")]=v; r.dims={6}; for(double x:v) add(x); break;
    case 4: { LoShape s(2,3); DMI::NumArray *a=new DMI::NumArray(Tpdouble,s); for(int i=0;i<6;i++) static_cast<double*>(a->getDataPtr())[i]=v[i]; ex[HIID("Value")]<<=a; r.dims={2,3}; for(double x:v) add(x); break; }
    case 5: { LoShape s(1); DMI::NumArray *a=new DMI::NumArray(Tpdcomplex,s); static_cast<dcomplex*>(a->getDataPtr())[0]=make_dcomplex(3,4); ex[HIID("Value")]<<=a; add(C(3,4)); break; }
    case 6: { ex[HIID("Value")]=v; vector<int> d={3,2}; ex[HIID("Dims")]=d; r.dims=d; for(double x:v) add(x); break; }
    case 7: ex[HIID("Value")]=true; add(1); break;
  }
  run("MeqConstant",{},r,ex," case "+std::to_string(k));
}
MC_MAIN()
