// C15: polynomial, logarithmic and composed parameter functions against their definition.
#include "mc.h"
#include "../common/forest.h"
#include "../common/canon.h"
#include <MEQ/Polc.h>
#include <MEQ/PolcLog.h>
#include <MEQ/ComposedPolc.h>
#include <DMI/NumArray.h>
#include <DMI/BlockSet.h>
using namespace DMI; using namespace Meq; using std::string; using std::vector;
template<class F> static bool throws (F f) { try { f(); return false; } catch( std::exception & ) { return true; } }
static string S (double x) { char b[40]; snprintf(b,40,"%.12g",x); return b; }
template<class T> static string SV (const vector<T> &v) { string r="["; for(auto x:v) r+=S(double(x))+" "; return r+"]"; }
static bool near_ (double a,double b,double s) { return a==b || std::fabs(a-b)<=1e-9*std::max(s,std::fabs(b)); }
typedef std::map<int,std::pair<double,double>> Dom;
// the model: sum of c[i,j] * u^i * v^j with u,v = (f(x)-offset)/scale
struct Fn
{
  vector<int> shape; vector<double> c; vector<int> axes; vector<double> off,sc; Dom dom;
  std::map<int,double> lg; // log scale per axis
  double u (int i,const vector<double> &x) const
  { int a=axes[i]; double v=x[a]; auto l=lg.find(a); if( l!=lg.end() && l->second ) v=std::log10(v/l->second); return (v-off[i])/(sc[i]?sc[i]:1); }
  int ny () const { return shape.size()>1?shape[1]:1; }
  double term (int k,const vector<double> &x) const
  { int i=k/ny(),j=k%ny(); double r=1; if(i) r*=std::pow(u(0,x),i); if(j) r*=std::pow(u(1,x),j); return r; }
  double at (const vector<double> &x,double *mag=0) const { double s=0,m=0; for(size_t k=0;k<c.size();k++) { double t=c[k]*term(k,x); s+=t; m+=std::fabs(t); } if(mag) *mag=m; return s; }
  string str () const { string r="shape"+SV(shape)+" axes"+SV(axes)+" off"+SV(off)+" sc"+SV(sc); for(auto &d:dom) r+=" dom"+std::to_string(d.first)+"="+S(d.second.first)+":"+S(d.second.second); for(auto &l:lg) r+=" log"+std::to_string(l.first)+"="+S(l.second); return r; }
};
static Domain * mkdom (const Dom &d) { Domain *p=new Domain; for(auto &x:d) p->defineAxis(x.first,x.second.first,x.second.second); return p; }
static const double PERT=0.25;
static NumArray * arr (const vector<int> &shape,const vector<double> &c)
{ LoShape s; if( shape.size()==1 ) s=LoShape(shape[0]); else s=LoShape(shape[0],shape[1]); NumArray *a=new NumArray(Tpdouble,s); std::copy(c.begin(),c.end(),(double*)a->getDataPtr()); return a; }
// how: which constructor builds it
static Polc * build (const Fn &f,int how=0)
{
  Polc *p; int ax[2]={0,1}; double of[2]={0,0},sc[2]={1,1}; for(size_t i=0;i<f.axes.size();i++) { ax[i]=f.axes[i]; of[i]=f.off[i]; sc[i]=f.sc[i]; }
  bool log=!f.lg.empty(); vector<double> ls; if( log ) { ls.resize(f.lg.rbegin()->first+1,0.); for(auto &l:f.lg) ls[l.first]=l.second; }
  if( how==0 )
  { if( f.shape.empty() ) p = log ? new PolcLog(f.c[0],PERT,1,-1,ls) : new Polc(f.c[0],PERT,1.,-1);
    else if( f.shape.size()==1 ) { LoVec_double v(f.shape[0]); for(int i=0;i<f.shape[0];i++) v(i)=f.c[i]; p = log ? new PolcLog(v,ax[0],of[0],sc[0],PERT,1,-1,ls) : new Polc(v,ax[0],of[0],sc[0],PERT); }
    else { LoMat_double m(f.shape[0],f.shape[1]); for(int i=0;i<f.shape[0];i++) for(int j=0;j<f.shape[1];j++) m(i,j)=f.c[i*f.shape[1]+j]; p = log ? new PolcLog(m,ax,of,sc,PERT,1,-1,ls) : new Polc(m,ax,of,sc,PERT); } }
  else if( how==1 )
  { vector<int> sh=f.shape; if( sh.empty() ) sh={1}; p = log ? new PolcLog(arr(sh,f.c),ax,of,sc,PERT,1,-1,ls) : new Polc(arr(sh,f.c),ax,of,sc,PERT); }
  else
  { // from a plain record, as scripts and tables do
    DMI::Record rec; vector<int> sh=f.shape; if( sh.empty() ) sh={1}; rec[FCoeff] <<= arr(sh,f.c);
    if( !f.axes.empty() ) { rec[FAxisIndex]=f.axes; rec[FOffset]=f.off; rec[FScale]=f.sc; }
    rec[FPerturbation]=PERT; if( !f.dom.empty() ) rec[FDomain] <<= mkdom(f.dom);
    if( log ) { DMI::Record &l = rec[FAxisList] <<= new DMI::Record; for(auto &x:f.lg) l[Axis::axisId(x.first)]=x.second; p=new PolcLog(rec); }
    else p=new Polc(rec);
    return p; }
  if( !f.dom.empty() ) { Domain::Ref d(mkdom(f.dom)); p->setDomain(*d); };
  return p;
}
struct Gd { vector<vector<double>> c; string name; Cells::Ref cells; };   // centres per axis (0..2; empty: not defined)
static Gd grid (const vector<Dom::value_type> &d,const vector<int> &n)
{
  Gd g; g.c.resize(3); Domain dom; for(auto &x:d) dom.defineAxis(x.first,x.second.first,x.second.second);
  g.cells <<= new Cells(dom); int k=0;
  for(auto &x:d) { g.cells().setCells(x.first,x.second.first,x.second.second,n[k]); for(int i=0;i<n[k];i++) g.c[x.first].push_back(x.second.first+(i+0.5)*(x.second.second-x.second.first)/n[k]); k++; g.name+=" "+std::to_string(x.first)+":"+std::to_string(n[k-1])+"@"+S(x.second.first); }
  return g;
}
// value of a Vells at a grid point
static double at (const Vells &v,const vector<int> &ix,bool &ok)
{
  const double *p=v.getStorage<double>(); int off=0;
  for(int a=0;a<3;a++) { int n=a<v.rank()?v.extent(a):1; if( n!=1 && n<=ix[a] ) ok=false; off=off*n+(n>1?ix[a]:0); }
  for(int a=3;a<v.rank();a++) if( v.extent(a)!=1 ) ok=false;
  return ok?p[off]:NAN;
}
static void forall (const Gd &g,const std::function<void(const vector<int>&,const vector<double>&)> &f)
{
  int n[3]; for(int a=0;a<3;a++) n[a]=std::max<int>(1,g.c[a].size());
  for(int i=0;i<n[0];i++) for(int j=0;j<n[1];j++) for(int k=0;k<n[2];k++)
  { vector<int> ix={i,j,k}; vector<double> x(3,0.); for(int a=0;a<3;a++) if( !g.c[a].empty() ) x[a]=g.c[a][ix[a]]; mc::op(); f(ix,x); }
}
// compares one Vells with a function of the grid
static void cmp (const Vells &v,const Gd &g,const std::function<double(const vector<double>&,double*)> &f,const char *key,const string &what)
{
  MC_CHECK(v.isReal(),key,what<<": not real");
  for(int a=0;a<v.rank();a++) MC_CHECK(v.extent(a)==1||(a<3&&v.extent(a)==int(g.c[a].size())),key,what<<": axis "<<a<<" has "<<v.extent(a)<<" points, the grid has "<<(a<3?g.c[a].size():0));
  forall(g,[&](const vector<int> &ix,const vector<double> &x){ bool ok=true; double mag=0,e=f(x,&mag),r=at(v,ix,ok);
    MC_CHECK(ok&&near_(r,e,mag),key,what<<": value at "<<SV(x)<<" is "<<S(r)<<", expected "<<S(e)); });
}
// evaluates and compares everything; spidx[k]: position of coefficient k among the solvable ones, or -1
static void expect (const Funklet &p,const Fn &f,const Gd &g,const vector<int> &spidx,int spid0,int np,const char *key,const string &what)
{

  VellSet out(0,np); string err;
  try { p.evaluate(out,*g.cells,np); } catch( std::exception &e ) { err=DMI::exceptionToString(e); }
  MC_CHECK(err.empty(),string(key)+"-throws",what<<": evaluation fails: "<<err);
  MC_CHECK(out.hasValue(),string(key)+"-novalue",what<<": no value");
  cmp(out.getValue(),g,[&](const vector<double> &x,double *m){ return f.at(x,m); },(string(key)+"-value").c_str(),what);
  int ns=0; for(int s:spidx) if(s>=0) ns=std::max(ns,s+1);
  if( !ns || !np ) { MC_CHECK(out.numSpids()==0,string(key)+"-spids",what<<": has "<<out.numSpids()<<" perturbations"); return; }
  MC_CHECK(out.numSpids()==ns&&out.numPertSets()==np,string(key)+"-spids",what<<": "<<out.numSpids()<<" parameters, "<<out.numPertSets()<<" sets; expected "<<ns<<", "<<np);
  for(size_t k=0;k<spidx.size();k++) if( spidx[k]>=0 )
  { int s=spidx[k]; MC_CHECK(out.getSpid(s)==spid0+s,string(key)+"-spids",what<<": parameter id "<<out.getSpid(s)<<", expected "<<spid0+s);
    for(int q=0;q<np;q++)
    { double d=q?-PERT:PERT; MC_CHECK(out.getPerturbation(s,q)==d,string(key)+"-perturbation",what<<": perturbation "<<out.getPerturbation(s,q));
      cmp(out.getPerturbedValue(s,q),g,[&](const vector<double> &x,double *m){ double v=f.at(x,m); double t=d*f.term(k,x); *m+=std::fabs(t); return v+t; },(string(key)+"-perturbed").c_str(),what+" perturbed by coefficient "+std::to_string(k)); } }
}
static vector<int> idx (const vector<bool> &m) { vector<int> r; int n=0; for(bool b:m) r.push_back(b?n++:-1); return r; }
static const vector<vector<int>> SHAPES={{},{1},{2},{3},{12},{1,1},{2,1},{1,3},{2,2},{3,2},{2,3},{2,12}};
static const vector<vector<int>> AX1={{0},{1},{2}},AX2={{0,1},{1,0},{0,2},{2,1}};
static vector<double> coefs (int n,int seed=0) { vector<double> c; for(int i=0;i<n;i++) c.push_back((i+seed)%2?-(i+1.5+seed):i+1.25+seed); return c; }
static Fn choose_fn (const vector<vector<int>> &shapes,int noff)
{
  Fn f; f.shape=shapes[mc::choose(shapes.size())]; int n=1; for(int s:f.shape) n*=s; f.c=coefs(n);
  if( f.shape.size()==1 ) f.axes=AX1[mc::choose(3)]; if( f.shape.size()==2 ) f.axes=AX2[mc::choose(4)];
  f.off.assign(f.axes.size(),0); f.sc.assign(f.axes.size(),1);
  for(size_t i=0;i<f.axes.size();i++) switch( mc::choose(noff) )
  { case 0: f.off[i]=0.5; f.sc[i]=2; break; case 1: break; case 2: f.off[i]=-1; f.sc[i]=-0.5; break; case 3: f.off[i]=1; f.sc[i]=0; break; }
  return f;
}
static Gd choose_grid (int n=4)
{
  switch( mc::choose(n) )
  { case 0: return grid({{0,{1,4}},{1,{10,14}},{2,{0.5,2.5}}},{3,2,2});
    case 1: return grid({{0,{1,2}},{1,{10,14}},{2,{0.5,2.5}}},{1,4,1});
    case 2: return grid({{0,{1,4}},{1,{1,2}}},{3,1});
    case 3: return grid({{1,{0.25,0.75}}},{2}); }
  return grid({{0,{0,1}}},{2});
}
static void choose_dom (Fn &f,const Gd &g,int n)
{
  const Domain &d=g.cells->domain(); int k=mc::choose(n);
  if( k==0 ) return;   // no domain: valid everywhere
  for(int a=0;a<3;a++) if( d.isDefined(a) ) { if( k==3 && a!=0 ) continue; f.dom[a]={d.start(a)-(k==2?0.5:0),d.end(a)+(k==2?3:0)}; }
}
static void evaluate (Fn &f,const Gd &g,int how,const string &cls)
{
  Funklet::Ref ref(build(f,how),DMI::ANONWR); int n=f.c.size(); string what=cls+" "+f.str()+" how "+std::to_string(how)+" on"+g.name;
  bool covered=true; for(size_t i=0;i<f.shape.size();i++) if( f.shape[i]>1 && g.c[f.axes[i]].empty() ) covered=false;
  if( !covered ) { VellSet out; MC_CHECK(throws([&]{ ref->evaluate(out,*g.cells,0); }),"undefined-axis",what<<": evaluated without its axis"); mc::outcome("undefined axis"); return; }
  expect(*ref,f,g,{},0,0,"eval",what);
  int np=mc::choose(3); 
  vector<bool> mask(n,true); int mk=mc::choose(n>1?4:2); if( mk==1 ) mask[0]=false; if( mk==2 ) for(int i=0;i<n;i++) mask[i]=i%2; if( mk==3 ) { mask.assign(n,false); mask[n-1]=true; }
  if( mk==0 && f.shape.size()==2 && n>=4 )
  { // by default the lower right triangle is not solvable and set to zero
    int mx=std::max(f.shape[0],f.shape[1])-1; for(int i=0;i<n;i++) if( i/f.ny()+i%f.ny()>mx ) { mask[i]=false; f.c[i]=0; }
    ref().makeSolvable(5);
  }
  else if( mk==0 ) ref().makeSolvable(5); else ref().makeSolvable(5,mask);
  what+=" mask "+SV(mask);
  expect(*ref,f,g,idx(mask),5,np,"eval",what);
  // a copy is the same function, and stays so when the original is changed
  Funklet::Ref cp(ref); cp.privatize(DMI::DEEP); expect(*cp,f,g,idx(mask),5,np,"copy",what+" copied");
  { DMI::Record::Ref st=cp->getState(); Funklet::Ref o; if( f.lg.empty() ) o <<= new Polc(*st); else o <<= new PolcLog(*st); expect(*o,f,g,{},5,0,"state",what+" as state"); }
  vector<double> up; int ns=0; for(bool b:mask) if(b) up.push_back(0.5+ns++); 
  Fn f2=f; { int k=0; for(int i=0;i<n;i++) if( mask[i] ) f2.c[i]+=up[k++]; }
  if( ns ) ref().update(&up[0]);
  expect(*ref,f2,g,idx(mask),5,np,"update",what+" updated"); expect(*cp,f,g,idx(mask),5,np,"copy",what+" copied before update");
  ref().clearSolvable(); expect(*ref,f2,g,{},5,np,"eval",what+" not solvable");
  mc::state(mc::hash(what+std::to_string(np)));
}
MC_SCENARIO(eval,4,6)
{
  int t=mc::thorough(); Fn f=choose_fn(SHAPES,t?4:3); Gd g=choose_grid(5);
  choose_dom(f,g,t?4:3); evaluate(f,g,mc::choose(f.shape.empty()||t?3:f.shape.size()==1?3:2)+(f.shape.size()==2&&!t?1:0),"Polc");
}
MC_SCENARIO(evallog,4,6)
{
  int t=mc::thorough(); Fn f=choose_fn({{},{2},{3},{1,3},{2,2},{3,2}},t?3:2); Gd g=choose_grid(5);
  switch( mc::choose(4) ) { case 0: f.lg={{0,1.},{1,1.}}; break; case 1: f.lg={{0,2.}}; break; case 2: f.lg={{0,0.},{1,0.5}}; break; case 3: f.lg={{0,1.},{1,0.},{2,2.}}; break; }
  choose_dom(f,g,3); evaluate(f,g,2*mc::choose(2),"PolcLog");
}
// a logarithmic polynomial whose axis list was never given uses scale 1 on both axes
MC_SCENARIO(logdefault,1,1)
{
  Fn f=choose_fn({{2},{2,2}},2); if( f.axes==vector<int>{2} || f.axes==vector<int>{0,2} || f.axes==vector<int>{2,1} ) throw mc::Prune();
  Gd g=choose_grid(3); DMI::Record rec; rec[FCoeff] <<= arr(f.shape,f.c); rec[FAxisIndex]=f.axes; rec[FOffset]=f.off; rec[FScale]=f.sc;
  int how=mc::choose(2); f.lg={{0,1.},{1,1.}}; Funklet::Ref ref;
  if( how==0 ) ref <<= new PolcLog(rec);
  else { ref <<= new PolcLog(); for(size_t i=0;i<f.axes.size();i++) ref().setAxis(i,f.axes[i],f.off[i],f.sc[i]); NumArray::Ref a(arr(f.shape,f.c)); ref().setCoeff(*a); }
  expect(*ref,f,g,{},0,0,"logdefault","default PolcLog "+f.str()+" how "+std::to_string(how)+g.name); mc::state(mc::hash(f.str()+g.name));
}
// updates: exactly the solvable coefficients, by the given amounts, within the constraints
MC_SCENARIO(update,1,1)
{
  static const vector<vector<int>> sh={{},{1},{3},{2,2}}; Fn f; f.shape=sh[mc::choose(4)]; int n=1; for(int s:f.shape) n*=s; f.c=coefs(n,mc::choose(2)); f.axes=f.shape.size()==2?vector<int>{0,1}:f.shape.empty()?vector<int>{}:vector<int>{1}; f.off.assign(f.axes.size(),0); f.sc.assign(f.axes.size(),1);
  bool log=mc::choose(2); if( log ) f.lg={{0,1.}};
  Funklet::Ref ref(build(f,0),DMI::ANONWR); vector<bool> mask(n); for(int i=0;i<n;i++) mask[i]=mc::flip(); ref().makeSolvable(3,mask);
  vector<double> c=f.c; string what=(log?"PolcLog ":"Polc ")+f.str()+" mask "+SV(mask);
  for( int step=0;step<2;step++ )
  {
    vector<double> up; for(int i=0;i<n;i++) up.push_back(i%2?3.5+step:-4.25-step); bool pos=mc::choose(2); int kind=mc::choose(3); const double lo=-2,hi=2.5; vector<double> l(std::min(n,2),lo),h(std::min(n,3),hi); for(size_t i=0;i<l.size();i++) l[i]-=1.5*i; for(size_t i=0;i<h.size();i++) h[i]-=0.75*i;
    if( kind==0 ) ref().update(&up[0],pos); if( kind==1 ) ref().update(&up[0],vector<double>{lo,hi},pos); if( kind==2 ) ref().update(&up[0],l,h,pos);
    int s=0; for(int i=0;i<n;i++) if( mask[i] )
    { c[i]+=up[s++]; if( (kind==1&&n==1) || (kind==2&&i<int(h.size())) ) c[i]=std::min(c[i],kind==2?h[i]:hi); if( (kind==1&&n==1) || (kind==2&&i<int(l.size())) ) c[i]=std::max(c[i],kind==2?l[i]:lo); if( pos && n==1 ) c[i]=std::fabs(c[i]); }
    what+=" update kind "+std::to_string(kind)+(pos?" positive":"");
    const double *p=(const double*)ref->coeff().getConstDataPtr();
    for(int i=0;i<n;i++) MC_CHECK(p[i]==c[i],"update-coeff",what<<": coefficient "<<i<<" is "<<S(p[i])<<", expected "<<S(c[i]));
    // the record view shows the same coefficients
    const NumArray &a=(*ref)[FCoeff].as<NumArray>(); MC_CHECK(a.size()==n&&!memcmp(a.getConstDataPtr(),&c[0],n*8),"update-record",what<<": the record has other coefficients");
  }
  mc::state(mc::hash(what));
}
// a change of solve domain leaves the function as it is and maps its domain to the new one
MC_SCENARIO(solvedomain,4,8)
{
  int t=mc::thorough(); Fn f=choose_fn({{},{2},{3},{1,3},{2,1},{2,2},{3,2}},t?4:2); Gd g=choose_grid(3);
  bool log=mc::choose(2); if( log ) switch( mc::choose(3) ) { case 0: f.lg={{0,1.},{1,1.}}; break; case 1: f.lg={{0,2.}}; break; case 2: f.lg={{0,0.},{1,0.5}}; break; }
  for(size_t i=0;i<f.shape.size();i++) if( f.shape[i]>1 && g.c[f.axes[i]].empty() ) throw mc::Prune();
  const Domain &d=g.cells->domain(); for(int a=0;a<3;a++) if( d.isDefined(a) ) f.dom[a]={d.start(a)-0.25*a,d.end(a)+1};
  static const double R[3][2]={{0,1},{-1,1},{2,5}};
  string what=(log?"PolcLog ":"Polc ")+f.str()+g.name; Funklet::Ref ref(build(f,mc::choose(2)*2),DMI::ANONWR); Funklet::Ref cp(ref); cp.privatize(DMI::DEEP);
  for( int step=0;step<(t?2:1);step++ )
  {
    int kind=mc::choose(2),r=mc::choose(3),r2=r; if( kind==0 ) ref().changeSolveDomain(vector<double>{R[r][0],R[r][1]}); else { r2=(r+1)%3; Domain sd; sd.defineAxis(0,R[r][0],R[r][1]); sd.defineAxis(1,R[r2][0],R[r2][1]); sd.defineAxis(2,R[r][0],R[r][1]); ref().changeSolveDomain(sd); }
    what+=" solve domain "+std::to_string(kind)+","+std::to_string(r);
    expect(*ref,f,g,{},0,0,"solvedomain",what); expect(*cp,f,g,{},0,0,"solvedomain-copy",what+" (copy made before)");
    // coefficients now refer to the new range
    for(int i=0;i<int(f.shape.size());i++) if( f.shape[i]>1 )
    { int a=f.axes[i]; auto dm=f.dom.at(a); double x0=dm.first,x1=dm.second; bool lg=f.lg.count(a)&&f.lg[a]; if( lg ) { if( kind==0 ) continue; x0=std::log10(x0/f.lg[a]); x1=std::log10(x1/f.lg[a]); }
      int q=kind==0?r:(a==1?r2:r); double y0=(x0-ref->getOffset(i))/ref->getScale(i),y1=(x1-ref->getOffset(i))/ref->getScale(i);
      MC_CHECK(near_(y0,R[q][0],1)&&near_(y1,R[q][1],1),"solvedomain-range",what<<": domain of axis "<<a<<" maps to "<<S(y0)<<":"<<S(y1)<<", expected "<<S(R[q][0])<<":"<<S(R[q][1])); }
    // a rebuilt one is the same function
    { DMI::Record rec(*ref,0,0); ObjRef o(log?(BObj*)new PolcLog(rec):(BObj*)new Polc(rec)); expect(o.as<Funklet>(),f,g,{},0,0,"solvedomain-rebuilt",what+" rebuilt"); }
  }
  mc::state(mc::hash(what));
}
// a change of shape keeps the coefficients that have a place in the new one; the others are zero
MC_SCENARIO(shape,1,1)
{
  static const vector<vector<int>> sh={{1},{2},{3},{1,1},{2,1},{1,3},{2,2},{3,2},{2,3}};
  Fn f; f.shape=sh[mc::choose(9)]; int n=1; for(int s:f.shape) n*=s; f.c=coefs(n); f.axes=f.shape.size()==1?vector<int>{0}:vector<int>{0,1}; f.off.assign(2,0.5); f.sc.assign(2,2); f.off.resize(f.axes.size()); f.sc.resize(f.axes.size());
  Funklet::Ref ref(build(f,0),DMI::ANONWR); string what="Polc "+f.str(); Gd g=grid({{0,{1,4}},{1,{10,14}}},{3,2});
  for( int step=0;step<2;step++ )
  {
    Fn h=f; h.shape=sh[mc::choose(9)]; int m=1; for(int s:h.shape) m*=s; h.c.assign(m,0.); int fy=f.ny(),hy=h.ny(),fx=f.shape[0],hx=h.shape[0];
    for(int i=0;i<std::min(fx,hx);i++) for(int j=0;j<std::min(fy,hy);j++) h.c[i*hy+j]=f.c[i*fy+j];
    what+=" reshaped "+SV(h.shape); LoShape ls = h.shape.size()==1?LoShape(h.shape[0]):LoShape(h.shape[0],h.shape[1]);
    ref().setCoeffShape(ls); if( h.shape.size()>h.axes.size() ) { h.axes={0,1}; h.off.resize(2,0); h.sc.resize(2,1); }
    MC_CHECK(ref->getCoeffShape()==ls,"shape-shape",what<<": shape is not the one set");
    const double *p=(const double*)ref->coeff().getConstDataPtr();
    for(int i=0;i<m;i++) MC_CHECK(p[i]==h.c[i],"shape-coeff",what<<": coefficient "<<i<<" is "<<S(p[i])<<", expected "<<S(h.c[i]));
    expect(*ref,h,g,{},0,0,"shape",what); f=h;
  }
  mc::state(mc::hash(what));
}
// composed functions: each piece on its own domain, the default elsewhere
static void expect_comp (const ComposedPolc &p,const vector<Fn> &f,double dflt,const Gd &g,const vector<int> &spidx,int np,const char *key,const string &what)
{
  VellSet out(0,np); string err; try { p.evaluate(out,*g.cells,np); } catch( std::exception &e ) { err=DMI::exceptionToString(e); }
  MC_CHECK(err.empty(),string(key)+"-throws",what<<": evaluation fails: "<<err); MC_CHECK(out.hasValue(),string(key)+"-novalue",what<<": no value");
  auto piece=[&](const vector<double> &x)->const Fn* { for(auto &q:f) { bool in=true; for(auto &d:q.dom) if( !g.c[d.first].empty() && ( x[d.first]<d.second.first || x[d.first]>d.second.second ) ) in=false; if(in) return &q; } return 0; };
  cmp(out.getValue(),g,[&](const vector<double> &x,double *m){ const Fn *q=piece(x); return q?q->at(x,m):dflt; },(string(key)+"-value").c_str(),what);
  int ns=0; for(int s:spidx) if(s>=0) ns++;
  if( !np || !ns ) { MC_CHECK(out.numSpids()==0,string(key)+"-spids",what<<": has perturbations"); return; }
  MC_CHECK(out.numSpids()==ns&&out.numPertSets()==np,string(key)+"-spids",what<<": "<<out.numSpids()<<" parameters");
  for(size_t k=0;k<spidx.size();k++) if( spidx[k]>=0 ) for(int q=0;q<np;q++)
    cmp(out.getPerturbedValue(spidx[k],q),g,[&](const vector<double> &x,double *m){ const Fn *z=piece(x); if(!z) return dflt; double v=z->at(x,m),t=(q?-PERT:PERT)*z->term(k,x); *m+=std::fabs(t); return v+t; },(string(key)+"-perturbed").c_str(),what+" perturbed by coefficient "+std::to_string(k));
}
MC_SCENARIO(composed,4,8)
{
  int t=mc::thorough(); int lay=mc::choose(t?6:5),shp=mc::choose(6),gk=mc::choose(5),ord=mc::choose(2); bool mixed=mc::choose(2);
  static const vector<vector<int>> sh={{},{2,1},{1,2},{2,2},{2},{3,2}};
  struct L { vector<Dom> d; }; static const vector<L> lays={
    {{{{0,{0,2}},{1,{10,14}}},{{0,{2,4}},{1,{10,14}}}}},
    {{{{0,{0,4}},{1,{10,12}}},{{0,{0,4}},{1,{12,14}}}}},
    {{{{0,{0,2}},{1,{10,12}}},{{0,{2,4}},{1,{10,12}}},{{0,{0,2}},{1,{12,14}}},{{0,{2,4}},{1,{12,14}}}}},
    {{{{0,{0,1}}},{{0,{1,4}}}}},
    {{{{0,{0,4}},{1,{10,14}}}}},
    {{{{0,{0,1}},{1,{10,14}}},{{0,{1,2}},{1,{10,14}}},{{0,{2,4}},{1,{10,14}}}}}};
  static const vector<Gd> grids={grid({{0,{0,4}},{1,{10,14}}},{4,4}),grid({{0,{-1,6}},{1,{8,16}}},{7,8}),grid({{0,{1,3}},{1,{10,13}}},{2,3}),grid({{0,{0,4}},{1,{10,12}}},{4,1}),grid({{0,{0,4}}},{8})};
  const Gd &g=grids[gk]; if( gk==4 && ( lay==1 || lay==2 || !(shp==0||shp==1||shp==4) ) ) throw mc::Prune(); vector<Fn> f; int seed=0; string what;
  for(auto &d:lays[lay].d) { Fn q; q.shape=sh[mixed&&seed?0:shp]; int n=1; for(int s:q.shape) n*=s; q.c=coefs(n,3*seed++); q.axes=q.shape.size()==2?vector<int>{0,1}:q.shape.size()==1?vector<int>{0}:vector<int>{}; q.off.assign(q.axes.size(),0.5*seed); q.sc.assign(q.axes.size(),2); q.dom=d; what+=q.str()+"; "; f.push_back(q); }
  if( mixed && ( shp==0 || f.size()<2 ) ) throw mc::Prune();
  // the grid must not have points between two pieces of one axis
  vector<Funklet::Ref> fr; for(size_t i=0;i<f.size();i++) { Fn &q=f[ord?f.size()-1-i:i]; fr.push_back(Funklet::Ref(build(q,0),DMI::ANONWR)); }
  what="composed "+what+"on"+g.name+(ord?" reversed":""); ComposedPolc::Ref ref(new ComposedPolc(fr,7.,PERT),DMI::ANONWR);
  expect_comp(*ref,f,7,g,{},0,"composed",what);
  { ComposedPolc::Ref cp(ref); cp.privatize(DMI::DEEP); expect_comp(*cp,f,7,g,{},0,"composed-copy",what+" copied"); }
  MC_CHECK(ref().nrFunklets()==int(f.size()),"composed-number",what<<": has "<<ref().nrFunklets()<<" pieces");
  mc::state(mc::hash(what)); 
  { BlockSet bs; ref->toBlock(bs); ObjRef o=DynamicTypeManager::construct(0,bs); const ComposedPolc &c=o.as<ComposedPolc>();
    VellSet a,b; c.evaluate(a,*g.cells,0); vector<vector<double>> in; 
    forall(g,[&](const vector<int> &ix,const vector<double> &x){ bool ok=true; double m=0; for(auto &q:f) { bool is=true; for(auto &d:q.dom) if( !g.c[d.first].empty() && ( x[d.first]<d.second.first || x[d.first]>d.second.second ) ) is=false;
      if( is ) { double e=q.at(x,&m),r=at(a.getValue(),ix,ok); MC_CHECK(ok&&near_(r,e,m),"composed-rebuilt",what<<" rebuilt: value at "<<SV(x)<<" is "<<S(r)<<", expected "<<S(e)); break; } } }); }
  if( mixed ) return;
  if( shp!=4 && shp!=0 )
  { static const vector<vector<int>> rs={{1,1},{2,1},{1,2},{2,2},{3,3}}; int k=mc::choose(gk==4?3:6); 
    if( k<5 ) { if( gk==4 && k==2 ) throw mc::Prune(); 
      for(auto &q:f) { Fn h=q; h.shape=rs[k]; h.c.assign(rs[k][0]*rs[k][1],0.); for(int i=0;i<std::min(q.shape[0],h.shape[0]);i++) for(int j=0;j<std::min(q.ny(),h.ny());j++) h.c[i*h.ny()+j]=q.c[i*q.ny()+j]; q=h; }
      ref().setCoeffShape(LoShape(rs[k][0],rs[k][1])); what+=" reshaped "+SV(rs[k]); expect_comp(*ref,f,7,g,{},0,"composed-shape",what); } }
  // solving: one parameter per coefficient and piece
  int n=f[0].c.size(); vector<bool> mask(n,true); if( n>=4 ) { int mx=std::max(f[0].shape[0],f[0].ny())-1; for(auto &q:f) for(int i=0;i<n;i++) if( i/q.ny()+i%q.ny()>mx ) { mask[i]=false; q.c[i]=0; } }
  int ns=0; for(bool b:mask) ns+=b; int np=1+mc::choose(2);
  ref().makeSolvable(4); MC_CHECK(ref->getNrSpids()==ns,"composed-spids",what<<": "<<ref->getNrSpids()<<" solvable, expected "<<ns);
  expect_comp(*ref,f,7,g,idx(mask),np,"composed-solvable",what);
  int nf=f.size(); vector<double> up(ns*nf); for(int i=0;i<ns*nf;i++) up[i]=0.5+i;
  // the pieces are stored by increasing domain
  vector<int> o(nf); for(int i=0;i<nf;i++) o[i]=i; std::sort(o.begin(),o.end(),[&](int a,int b){ return f[a].dom<f[b].dom; });
  ComposedPolc::Ref cp(ref); cp.privatize(DMI::DEEP); vector<Fn> f0=f;
  ref().update(&up[0]); for(int j=0;j<nf;j++) { int s=0; for(int i=0;i<n;i++) if( mask[i] ) { f[o[j]].c[i]+=up[s*nf+j]; s++; } }
  expect_comp(*ref,f,7,g,idx(mask),np,"composed-update",what+" updated"); expect_comp(*cp,f0,7,g,{},0,"composed-copy",what+" copied before update");
  int k=mc::choose(3); if( k==1 ) { ref().changeSolveDomain(vector<double>{0,1}); expect_comp(*ref,f,7,g,{},0,"composed-solvedomain",what+" solve domain"); }
  if( k==2 ) { Domain sd(-1,1,0,1); ref().changeSolveDomain(sd); expect_comp(*ref,f,7,g,{},0,"composed-solvedomain",what+" solve domain"); }
}
MC_MAIN()
