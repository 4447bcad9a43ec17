// C12: Vells mathematics equals the scalar function at every grid point.
#include "mc.h"
#include <MEQ/Vells.h>
#include <MEQ/VellsSlicer.h>
#include <MEQ/VellsSlicerWithFlags.h>
#include <DMI/Exception.h>
using namespace DMI; using namespace Meq; using std::string; using std::vector;
typedef std::complex<double> C; typedef vector<int> Sh;
#define TRY_THROWS(expr) ([&]{ try { expr; return false; } catch( std::exception & ) { return true; } }())

// ---- model: a grid function is a shape and the values in row-major order
struct G { Sh sh; vector<C> v; bool cx=false; };
struct F { Sh sh; vector<int> v; bool on=false; };
static LoShape lo (const Sh &s) { LoShape r; r.resize(s.size()); for(size_t i=0;i<s.size();i++) r[i]=s[i]; return r; }
static Sh un (const LoShape &s) { Sh r(s.size()); for(size_t i=0;i<s.size();i++) r[i]=s[i]; return r; }
static int prod (const Sh &s) { int p=1; for(int x:s) p*=x; return p; }
static string str (const Sh &s) { string r="("; for(int x:s) r+=std::to_string(x)+","; return r+")"; }
static string str (const C &c) { char b[80]; snprintf(b,80,"%.15g%+.15gi",c.real(),c.imag()); return b; }
// all index tuples of a shape, in row-major order
static vector<Sh> points (const Sh &s)
{ vector<Sh> r; Sh i(s.size(),0); int n=prod(s); for(int k=0;k<n;k++) { r.push_back(i); for(int d=s.size()-1;d>=0;d--) { if(++i[d]<s[d]) break; i[d]=0; } } return r; }
static int lin (const Sh &s,const Sh &i) { int o=0; for(size_t d=0;d<s.size();d++) o=o*s[d]+( s[d]>1 && d<i.size() ? i[d] : 0 ); return o; }
template<class M> auto at (const M &g,const Sh &i) -> decltype(g.v[0]) { return g.v[lin(g.sh,i)]; }
static bool join (Sh &o,const Sh &a,const Sh &b)
{ o.assign(std::max(a.size(),b.size()),1); for(size_t i=0;i<o.size();i++) { int x=i<a.size()?a[i]:1,y=i<b.size()?b[i]:1; if(x>1&&y>1&&x!=y) return false; o[i]=std::max(x,y); } return true; }

static Vells mk (const G &g)
{
  if( g.cx ) { Vells v(make_dcomplex(0,0),lo(g.sh),false); dcomplex *p=v.begin<dcomplex>(); for(size_t i=0;i<g.v.size();i++) p[i]=g.v[i]; return v; }
  Vells v(0.,lo(g.sh),false); double *p=v.begin<double>(); for(size_t i=0;i<g.v.size();i++) p[i]=g.v[i].real(); return v;
}
static Vells mkf (const F &f) { Vells v(lo(f.sh),VellsFlagType(0),false); VellsFlagType *p=v.begin<VellsFlagType>(); for(size_t i=0;i<f.v.size();i++) p[i]=f.v[i]; return v; }
static C val (const Vells &v,int i) { return v.isComplex() ? C(v.begin<dcomplex>()[i]) : C(v.begin<double>()[i],0); }
static bool eq1 (double a,double b) { return a==b || (std::isnan(a)&&std::isnan(b)) || std::fabs(a-b)<=1e-12*(1+std::max(std::fabs(a),std::fabs(b))); }
static bool same (C a,C b) { if( (std::isnan(a.real())||std::isnan(a.imag())) && (std::isnan(b.real())||std::isnan(b.imag())) ) return true;
  double s=1e-12*(1+std::max(std::abs(a),std::abs(b))); return (eq1(a.real(),b.real())||std::fabs(a.real()-b.real())<=s) && (eq1(a.imag(),b.imag())||std::fabs(a.imag()-b.imag())<=s); }

// checks that r is exactly the model; loose: constant axes may have been collapsed
static void expect (const Vells &r,const G &m,const char *key,const string &what,bool loose=false)
{
  Sh rs = un(r.shape());
  if( !loose )
  {
    MC_CHECK(rs==m.sh,string(key)+"-shape",what<<": result has shape "<<str(rs)<<", expected "<<str(m.sh));
    MC_CHECK(r.isComplex()==m.cx,string(key)+"-type",what<<": result is "<<(r.isComplex()?"complex":"real")<<", expected "<<(m.cx?"complex":"real"));
  }
  MC_CHECK(r.isComplex()||r.isReal(),string(key)+"-type",what<<": result type "<<r.elementType().toString());
  MC_CHECK(r.nelements()==prod(rs),string(key)+"-shape",what<<": "<<r.nelements()<<" elements in shape "<<str(rs));
  Sh u; MC_CHECK(join(u,rs,m.sh)&&prod(u)==prod(m.sh),string(key)+"-shape",what<<": result shape "<<str(rs)<<" does not fit "<<str(m.sh));
  vector<Sh> ps=points(m.sh);
  for( size_t k=0;k<ps.size();k++ )
  { mc::op(); C x=val(r,lin(rs,ps[k])); MC_CHECK(same(x,m.v[k]),string(key)+"-value",what<<": at "<<str(ps[k])<<" got "<<str(x)<<", expected "<<str(m.v[k])); }
}
static void expectf (const Vells &r,const F &m,const char *key,const string &what)
{
  MC_CHECK(r.isFlags()&&un(r.shape())==m.sh,string(key)+"-shape",what<<": result has shape "<<str(un(r.shape()))<<", expected flags of shape "<<str(m.sh));
  for( size_t k=0;k<m.v.size();k++ ) { mc::op(); MC_CHECK(r.begin<VellsFlagType>()[k]==m.v[k],string(key)+"-value",what<<": flag "<<k<<" is "<<r.begin<VellsFlagType>()[k]<<", expected "<<m.v[k]); }
}
static void scribble (Vells &v)   // write to every element, to reveal storage shared with an operand
{ if( v.isComplex() ) { for(dcomplex *p=v.begin<dcomplex>();p!=v.end<dcomplex>();p++) *p=make_dcomplex(77,77); }
  else if( v.isReal() ) { for(double *p=v.begin<double>();p!=v.end<double>();p++) *p=77; }
  else { for(VellsFlagType *p=v.begin<VellsFlagType>();p!=v.end<VellsFlagType>();p++) *p=77; } }

// ---- enumerated shapes
static const vector<Sh> & shapes ()
{
  static vector<Sh> r;
  if( r.empty() )
  {
    int N[4]={2,3,2,2};
    for( int rank=1; rank<=(mc::thorough()?4:3); rank++ )
      for( int m=0; m<(1<<rank); m++ ) { Sh s(rank,1); for(int i=0;i<rank;i++) if( m>>i&1 ) s[i]=N[i]; r.push_back(s); }
    r.push_back({3}); r.push_back({2,2}); r.push_back({3,1,2});       // incompatible with some of the others
    if( mc::thorough() ) { r.push_back({1,5}); r.push_back({5,3,1}); r.push_back({2,3,7}); }
  }
  return r;
}
// value pattern: 0,1,2: generic; scalars may also be exactly zero or one
static G gen (const Sh &sh,bool cx,int seed,int pat)
{
  G g; g.sh=sh; g.cx=cx; int n=prod(sh);
  static const double t[]={0.5,-1.25,2,0.75,-0.3,3.5,-2.25,1.5,0.1,-0.9,4,1,0,-1};
  for( int i=0;i<n;i++ )
    if( pat==1 ) g.v.push_back(C(0,0)); else if( pat==2 ) g.v.push_back(C(1,0)); else if( pat==3 ) g.v.push_back(cx?C(0,1):C(-1,0));
    else g.v.push_back(C(t[(i*5+seed*3)%14],cx?t[(i*3+seed*5+4)%14]:0));
  return g;
}
static F genf (const Sh &sh,int seed,int pat) { F f; f.sh=sh; f.on=true; int n=prod(sh); for(int i=0;i<n;i++) f.v.push_back( pat==1?0:pat==2?3:((i*7+seed*3+i/3)%4) ); return f; }
static G gcho (int seed,const char *nm)
{
  int s=mc::choose(shapes().size()); bool cx=mc::flip(); int pat=mc::choose(4);
  G g=gen(shapes()[s],cx,seed,pat); MCLOG(nm<<": "<<(cx?"complex ":"real ")<<str(g.sh)<<" pattern "<<pat);
  return g;
}
static C fmod_ (double a,double b) { return fmod(a,b); }

// ---- binary operators, in-place operators and binary functions over all operand shapes and types
MC_SCENARIO(binary,8,8)
{
  G a=gcho(1,"a"), b=gcho(2,"b"); Sh u; bool ok=join(u,a.sh,b.sh);
  int op=mc::choose(15);
  static const char *nm[]={"+","-","*","/","+=","-=","*=","/=","posdiff","tocomplex","polar","pow","atan2","fmod","remainder"};
  MCLOG("operation "<<nm[op]);
  mc::state(str(a.sh)+str(b.sh)+nm[op]+(a.cx?"c":"r")+(b.cx?"c":"r")+str(a.v[0])+str(b.v[0]));
  Vells va=mk(a), vb=mk(b), ra(va), rb(vb), r;
  bool zero1 = op%4==0&&op<8 || op%4==2&&op<8;
  bool za=prod(a.sh)==1&&a.v[0]==C(0), zb=prod(b.sh)==1&&b.v[0]==C(0), oa=prod(a.sh)==1&&a.v[0]==C(1), ob=prod(b.sh)==1&&b.v[0]==C(1);
  bool loose = op<8 && ( (op%4==0 && (za||zb)) || (op%4==2 && (za||zb||oa||ob)) );   // documented shortcuts
  (void)zero1;
  G m; m.sh=u; m.cx=a.cx||b.cx; bool bad=!ok;
  if( op==9||op==10 ) m.cx=true; 
  if( op>=8 && op!=11 && (a.cx||b.cx) ) bad=true;
  if( !bad ) for( auto &p : points(u) )
  {
    C x=at(a,p), y=at(b,p), z;
    switch( op )
    {
      case 0: case 4: z=x+y; break;  case 1: case 5: z=x-y; break;  
      case 2: case 6: z=m.cx?x*y:C(x.real()*y.real(),0); break;
      case 3: case 7: z= !m.cx ? C(x.real()/y.real(),0) : b.cx ? ( a.cx ? x/y : x.real()/y ) : x/y.real(); break;
      case 8: { double d=x.real()-y.real(); z=d<-M_PI?d+2*M_PI:d>M_PI?d-2*M_PI:d; break; }
      case 9: z=C(x.real(),y.real()); break;
      case 10: z=x.real()*std::exp(C(0,y.real())); break;
      case 11: z= !m.cx ? C(pow(x.real(),y.real()),0) : a.cx ? ( b.cx ? std::pow(x,y) : std::pow(x,y.real()) ) : std::pow(x.real(),y); break;
      case 12: z=atan2(x.real(),y.real()); break;  case 13: z=fmod_(x.real(),y.real()); break;  case 14: z=remainder(x.real(),y.real()); break;
    }
    m.v.push_back(z);
  }
  bool threw=false;
  try
  {
    switch( op )
    {
      case 0: r=va+vb; break; case 1: r=va-vb; break; case 2: r=va*vb; break; case 3: r=va/vb; break;
      case 4: r=va; r+=vb; break; case 5: r=va; r-=vb; break; case 6: r=va; r*=vb; break; case 7: r=va; r/=vb; break;
      case 8: r=VellsMath::posdiff(va,vb); break; case 9: r=VellsMath::tocomplex(va,vb); break; case 10: r=VellsMath::polar(va,vb); break; case 11: r=VellsMath::pow(va,vb); break;
      case 12: r=VellsMath::atan2(va,vb); break; case 13: r=VellsMath::fmod(va,vb); break; case 14: r=VellsMath::remainder(va,vb); break;
    }
  }
  catch( std::exception & ) { threw=true; }
  string what=string("a ")+nm[op]+" b";
  if( bad ) MC_CHECK(threw,"accepts-bad-operands",what<<": "<<(ok?"complex operands":"incompatible shapes")<<" were accepted");
  else
  {
    MC_CHECK(!threw,"refuses-good-operands",what<<" of compatible operands failed");
    expect(r,m,"binary",what,loose);
  }
  expect(va,a,"operand","left operand after "+what); expect(vb,b,"operand","right operand after "+what);
  if( !bad ) scribble(r);
  expect(va,a,"operand","left operand after writing to the result of "+what); expect(vb,b,"operand","right operand after writing to the result of "+what);
  expect(ra,a,"operand","other reference to the left operand of "+what); expect(rb,b,"operand","other reference to the right operand of "+what);
  mc::outcome(nm[op]+string(threw?"!":"")+str(m.sh)+(m.cx?"c":"r"));
}

// ---- unary operators and functions
typedef Vells (*UF)(const Vells &);
struct Un { const char *nm; UF f; C (*c)(C); C (*d)(double); int kind; };   // kind 0: keeps type, 1: real only, 2: result real
static Vells uminus (const Vells &x) { return -x; }
template<int N> static C ipow (C x) { C r=x; for(int i=1;i<N;i++) r*=x; return r; }
template<int N> static C dpow (double x) { double r=x; for(int i=1;i<N;i++) r*=x; return r; }
#define U1(F) { #F,&VellsMath::F,[](C x)->C{return std::F(x);},[](double x)->C{return ::F(x);},0 }
#define U2(F) { #F,&VellsMath::F,[](C)->C{return 0;},[](double x)->C{return ::F(x);},1 }
#define UP(F,N) { #F,&VellsMath::F,&ipow<N>,&dpow<N>,0 }
static const Un uns[] = {
  { "-",&uminus,[](C x)->C{return -x;},[](double x)->C{return -x;},0 },
  U1(cos),U1(cosh),U1(exp),U1(log),U1(sin),U1(sinh),U1(sqrt),U1(tan),U1(tanh),UP(sqr,2),UP(pow2,2),UP(pow3,3),UP(pow4,4),UP(pow5,5),UP(pow6,6),UP(pow7,7),UP(pow8,8),
  U2(ceil),U2(floor),U2(acos),U2(asin),U2(atan),
  { "abs",&VellsMath::abs,[](C x)->C{return std::abs(x);},[](double x)->C{return ::fabs(x);},2 },
  { "fabs",&VellsMath::fabs,[](C x)->C{return std::abs(x);},[](double x)->C{return ::fabs(x);},2 },
  { "norm",&VellsMath::norm,[](C x)->C{return std::norm(x);},[](double x)->C{return x*x;},2 },
  { "arg",&VellsMath::arg,[](C x)->C{return std::arg(x);},[](double x)->C{return x<0?M_PI:0;},2 },
  { "real",&VellsMath::real,[](C x)->C{return x.real();},[](double x)->C{return x;},2 },
  { "imag",&VellsMath::imag,[](C x)->C{return x.imag();},[](double)->C{return 0;},2 },
  { "conj",&VellsMath::conj,[](C x)->C{return std::conj(x);},[](double x)->C{return x;},0 } };
MC_SCENARIO(unary)
{
  G a=gcho(1,"a"); const Un &f=uns[mc::choose(sizeof(uns)/sizeof(*uns))]; MCLOG("function "<<f.nm);
  mc::state(str(a.sh)+f.nm+(a.cx?"c":"r")+str(a.v[0]));
  Vells va=mk(a), ra(va), r; bool threw=false;
  try { r=f.f(va); } catch( std::exception & ) { threw=true; }
  bool bad = f.kind==1 && a.cx;
  if( bad ) { MC_CHECK(threw,"accepts-bad-operands",f.nm<<"() accepted a complex operand"); return; }
  MC_CHECK(!threw,"refuses-good-operands",f.nm<<"() failed");
  G m; m.sh=a.sh; m.cx=a.cx&&f.kind==0; for( C x : a.v ) m.v.push_back(a.cx?f.c(x):f.d(x.real()));
  expect(r,m,"unary",f.nm); expect(va,a,"operand",string("operand of ")+f.nm);
  scribble(r); expect(va,a,"operand",string("operand after writing to the result of ")+f.nm); expect(ra,a,"operand",string("other reference to the operand of ")+f.nm);
  mc::outcome(f.nm+str(m.sh));
}

// ---- reductions with flags, masks and full shapes
static const int MASKS[]={-1,0,1,2};
static F fcho (int seed,const char *nm,bool none=true)
{
  int k=mc::choose(shapes().size()+(none?1:0)); if( none && !k-- ) { MCLOG(nm<<": none"); return F(); }
  int pat=mc::choose(3); F f=genf(shapes()[k],seed,pat); MCLOG(nm<<": "<<str(f.sh)<<" pattern "<<pat); return f;
}
MC_SCENARIO(reduce,4,8)
{
  int s=mc::choose(shapes().size()); bool cx=mc::flip(); G a=gen(shapes()[s],cx,3,0); 
  bool neg=mc::flip(); if( neg ) for( C &x : a.v ) x=C(-fabs(x.real())-0.25,x.imag());      // all values negative
  MCLOG("a: "<<(cx?"complex ":"real ")<<str(a.sh)<<(neg?" negative":""));
  F f=fcho(5,"flags"); Sh u=a.sh; if( f.on && !join(u,a.sh,f.sh) ) throw mc::Prune();
  int mask = f.on ? MASKS[mc::choose(4)] : -1; MCLOG("mask "<<mask);
  int op=mc::choose(6); static const char *nm[]={"min","max","mean","sum","product","nelements"}; MCLOG(nm[op]);
  Sh full=u; 
  if( op>2 ) { int k=mc::choose(3); if( k ) { full.resize(std::max<size_t>(u.size(),k==1?1:3),1); static const int N[4]={2,3,2,2}; for(size_t i=0;i<full.size();i++) if( full[i]==1 && i<4 ) full[i]=N[i]; } MCLOG("full shape "<<str(full)); }
  mc::state(str(a.sh)+nm[op]+str(f.sh)+str(full)+std::to_string(mask)+(f.on?std::to_string(f.v[0])+std::to_string(f.v.back()):"")+(cx?"c":"r")+(neg?"-":"+"));
  Vells va=mk(a); Vells vf; if( f.on ) { vf=mkf(f); va.setDataFlags(new Vells(vf)); }
  Vells ra(va),r; bool threw=false;
  try
  {
    switch( op )
    { case 0: r=VellsMath::min(va,mask); break; case 1: r=VellsMath::max(va,mask); break; case 2: r=VellsMath::mean(va,mask); break;
      case 3: r=VellsMath::sum(va,lo(full),mask); break; case 4: r=VellsMath::product(va,lo(full),mask); break; case 5: r=VellsMath::nelements(va,lo(full),mask); break; }
  }
  catch( std::exception & ) { threw=true; }
  if( op<2 && cx ) { MC_CHECK(threw,"accepts-bad-operands",nm[op]<<"() accepted a complex operand"); return; }
  MC_CHECK(!threw,"refuses-good-operands",nm[op]<<"() failed");
  // oracle: over every point of the grid that is not flagged
  Sh grid = op>2 ? full : u; int n=0; C acc= op==4?1:0; bool first=true;
  for( auto &p : points(grid) ) if( !(f.on && (at(f,p)&mask)) )
  {
    C x=at(a,p); n++;
    if( op<2 ) acc = first ? x : op ? ( x.real()>acc.real()?x:acc ) : ( x.real()<acc.real()?x:acc ); 
    else if( op==4 ) acc*=x; else acc+=x;
    first=false;
  }
  if( op<2 && !n ) return;        // minimum of nothing is not specified
  if( op==2 ) acc = n ? acc/double(n) : 0;
  if( op==5 ) acc=n;
  MC_CHECK(r.isComplex()==(op==5?false:cx)&&r.isScalar(),"reduce-type",nm[op]<<"(): "<<r.elementType().toString()<<" of shape "<<str(un(r.shape())));
  C x=val(r,0); bool okv = std::abs(x-acc)<=1e-9*(1+std::abs(acc));
  MC_CHECK(okv,"reduce-value",nm[op]<<"() is "<<str(x)<<", expected "<<str(acc)<<" over "<<n<<" unflagged points");
  expect(va,a,"operand","reduced operand"); if( f.on ) expectf(va.dataFlags(),f,"operand","flags of the reduced operand");
  mc::outcome(nm[op]+str(x));
}

// ---- binary min and max with flags
MC_SCENARIO(minmax,8,8)
{
  int s1=mc::choose(mc::thorough()?shapes().size():14), s2=mc::choose(mc::thorough()?shapes().size():14); G a=gen(shapes()[s1],false,1,0), b=gen(shapes()[s2],false,2,0); MCLOG("a "<<str(a.sh)<<" b "<<str(b.sh));
  F fa=fcho(5,"flags of a"), fb=fcho(8,"flags of b"); Sh u,u1; 
  bool ok=join(u,a.sh,b.sh); u1=u; if( ok&&fa.on ) ok=join(u,u1,fa.sh); u1=u; if( ok&&fb.on ) ok=join(u,u1,fb.sh);
  if( !ok ) throw mc::Prune();
  int mi = mc::choose(mc::thorough()?4:2), ma=MASKS[mi], mb=MASKS[(mi*3+2)%4]; bool mx=mc::flip(); MCLOG((mx?"max":"min")<<" masks "<<ma<<" "<<mb);
  mc::state(str(a.sh)+str(b.sh)+str(fa.sh)+str(fb.sh)+(fa.on?std::to_string(fa.v[0]):"")+(fb.on?std::to_string(fb.v[0]):"")+std::to_string(mi)+(mx?"x":"n"));
  Vells va=mk(a),vb=mk(b); if( fa.on ) va.setDataFlags(new Vells(mkf(fa))); if( fb.on ) vb.setDataFlags(new Vells(mkf(fb)));
  Vells r = mx ? VellsMath::max(va,vb,ma,mb) : VellsMath::min(va,vb,ma,mb);
  Sh rs=un(r.shape()); MC_CHECK(rs==u,"minmax-shape","shape "<<str(rs)<<", expected "<<str(u));
  for( auto &p : points(u) )
  {
    double x=at(a,p).real(), y=at(b,p).real(), z=r.begin<double>()[lin(u,p)]; bool f1=fa.on&&(at(fa,p)&ma), f2=fb.on&&(at(fb,p)&mb);
    double e = f1 ? y : f2 ? x : mx ? std::max(x,y) : std::min(x,y); mc::op();
    MC_CHECK( (f1&&f2) ? z==x||z==y : z==e,"minmax-value","at "<<str(p)<<" got "<<z<<", expected "<<e<<" from "<<x<<(f1?" (flagged)":"")<<" and "<<y<<(f2?" (flagged)":""));
  }
}

// ---- flag operators, merging and replacing
MC_SCENARIO(flags,2,8)
{
  F a=fcho(1,"a",false),b=fcho(2,"b",false); Sh u; bool ok=join(u,a.sh,b.sh); int op=mc::choose(16);
  static const char *nm[]={"|","&","^","|=","&=","^=","~","|scalar","&scalar","^scalar","|=scalar","&=scalar","^=scalar","mergeFlags","whereEq","replaceFlaggedValues"}; MCLOG(nm[op]);
  mc::state(str(a.sh)+str(b.sh)+nm[op]+std::to_string(a.v[0])+std::to_string(a.v.back())+std::to_string(b.v[0])+std::to_string(b.v.back()));
  Vells va=mkf(a),vb=mkf(b),ra(va),rb(vb),r; bool threw=false; F m; m.sh=u; m.on=true; bool bad=!ok;
  if( op>=6&&op<13 || op==14 ) { bad=false; m.sh=a.sh; }
  int sc=1+mc::choose(3), mask=MASKS[sc-1];
  if( op==13||op==15 ) MCLOG("mask "<<mask); else MCLOG("scalar "<<sc);
  if( op==15 )
  {
    G g=gen(b.sh,mc::flip(),3,0); Vells vg=mk(g),rg(vg); if( ok && u!=b.sh ) bad=true;
    if( sc==3 ) { vg.setDataFlags(new Vells(va)); }
    try { if( g.cx ) vg.replaceFlaggedValues(va,make_dcomplex(9,9),mask); else vg.replaceFlaggedValues(va,9.,mask); } catch( std::exception & ) { threw=true; }
    MC_CHECK(threw==bad,"replace-flagged","replaceFlaggedValues "<<(threw?"failed":"succeeded")<<" for values "<<str(b.sh)<<" and flags "<<str(a.sh));
    G e=g; if( !bad ) for( auto &p : points(b.sh) ) if( at(a,p)&mask ) e.v[lin(b.sh,p)]=g.cx?C(9,9):C(9,0);
    expect(vg,e,"replace-flagged","replaceFlaggedValues"); expect(rg,g,"operand","other reference to the values"); expectf(va,a,"operand","flags");
    return;
  }
  if( op==13 )
  {
    Vells::Ref f0; bool empty=mc::flip(); Vells::Ref fa(new Vells(va)),fb(new Vells(vb)); if( !empty ) f0=fa;
    try { Vells::mergeFlags(f0,*fb,mask); } catch( std::exception & ) { threw=true; }
    if( !empty || !mask ) { MC_CHECK(threw==(bad&&mask),"merge-flags","mergeFlags "<<(threw?"failed":"succeeded")); }
    if( !threw && (!empty||mask) )
    {
      if( empty ) { m.sh=b.sh; for(int x:b.v) m.v.push_back(x&mask); } 
      else if( !mask ) m=a;
      else for( auto &p : points(u) ) m.v.push_back(at(a,p)|(at(b,p)&mask));
      expectf(*f0,m,"merge-flags","mergeFlags");
    }
    else if( empty && !mask ) MC_CHECK(!f0.valid(),"merge-flags","merging nothing made flags");
    expectf(*fb,b,"operand","merged flags"); expectf(*fa,a,"operand","other reference to the flags merged into"); expectf(va,a,"operand","flags merged into"); expectf(vb,b,"operand","merged flags");
    if( f0.valid() ) { scribble(f0()); expectf(*fb,b,"operand","merged flags after writing to the result"); expectf(*fa,a,"operand","other flags after writing to the result"); }
    return;
  }
  if( op==14 )
  {
    int rc=va.whereEq(r,VellsFlagType(sc-1),5,6); int n=0; for( int x : a.v ) { m.v.push_back(x==sc-1?5:6); n+=x==sc-1; }
    expectf(r,m,"where-eq","whereEq"); int e=n==int(a.v.size())?1:n?0:-1;
    MC_CHECK(rc==e,"where-eq","whereEq returns "<<rc<<", expected "<<e); return;
  }
  try
  {
    switch( op )
    {
      case 0: r=va|vb; break; case 1: r=va&vb; break; case 2: r=va^vb; break;
      case 3: r=va; r|=vb; break; case 4: r=va; r&=vb; break; case 5: r=va; r^=vb; break;
      case 6: r=~va; break; case 7: r=va|sc; break; case 8: r=va&sc; break; case 9: r=va^sc; break;
      case 10: r=va; r|=sc; break; case 11: r=va; r&=sc; break; case 12: r=va; r^=sc; break;
    }
  }
  catch( std::exception & ) { threw=true; }
  MC_CHECK(threw==bad,"flag-operands",nm[op]<<(threw?" failed":" succeeded")<<" for "<<str(a.sh)<<" and "<<str(b.sh));
  if( !bad )
  {
    for( auto &p : points(m.sh) ) { int x=at(a,p), y= op<6 ? at(b,p) : sc; m.v.push_back( op==6 ? ~x : op%3==(op<6?0:1) ? x|y : op%3==(op<6?1:2) ? x&y : x^y ); }
    expectf(r,m,"flags",nm[op]);
    scribble(r);
  }
  expectf(va,a,"operand","left flags"); expectf(vb,b,"operand","right flags"); expectf(ra,a,"operand","other reference to left flags"); expectf(rb,b,"operand","other reference to right flags");
}
MC_SCENARIO(flagtypes)   // flag operators on values, and arithmetic on flags, must be refused
{
  G a=gcho(1,"a"); F f=genf(a.sh,1,0); Vells va=mk(a),vf=mkf(f); int k=mc::choose(8); bool t=false; MCLOG("case "<<k);
  if( prod(a.sh)==1 ) throw mc::Prune();
  switch( k )
  { case 0: t=TRY_THROWS(va|vf); break; case 1: t=TRY_THROWS(vf&va); break; case 2: t=TRY_THROWS(~va); break; case 3: t=TRY_THROWS(Vells x(va); x|=vf); break;
    case 4: t=TRY_THROWS(vf-vf); break; case 5: t=TRY_THROWS(va/vf); break; case 6: t=TRY_THROWS(VellsMath::sin(vf)); break; case 7: t=TRY_THROWS(Vells x(va); x-=vf); break; }
  MC_CHECK(t,"accepts-bad-operands","case "<<k<<": mixing flags and values was accepted");
  expect(va,a,"operand","operand after a refused operation"); expectf(vf,f,"operand","flags after a refused operation");
}

// ---- histories of operations on three Vells that may share storage
static G gop (int o,const G &a,const G &b)
{
  G m; join(m.sh,a.sh,b.sh); m.cx=a.cx||b.cx;
  for( auto &p : points(m.sh) ) { C x=at(a,p),y=at(b,p); m.v.push_back( o==0?x+y : o==1?x-y : o==2? (m.cx?x*y:C(x.real()*y.real(),0)) : (m.cx?x/y:C(x.real()/y.real(),0)) ); }
  return m;
}
MC_SCENARIO(history,8,16)
{
  static const Sh init[3][3]={ {{2,3},{2,1},{1}}, {{2,3},{2,3},{1,3}}, {{1},{3},{1,1,2}} };
  int k=mc::choose(3), cxm=mc::choose(4); if( k==2 ) ; 
  static const Sh alt[3]={{2,2},{1,2},{1}}; (void)alt;
  G m[3]; Vells v[3]; const Sh *in=init[k]; 
  for(int i=0;i<3;i++) { Sh s=in[i]; if( k==2&&i==1 ) s={3,1,1}; m[i]=gen(s,cxm>>0&1 ? i!=1 : cxm==2&&i==1,i+1,0); v[i]=mk(m[i]); }
  MCLOG("shapes "<<str(m[0].sh)<<str(m[1].sh)<<str(m[2].sh)<<" types "<<cxm);
  int depth = mc::thorough()?4:3;
  for( int st=0; st<depth; st++ )
  {
    int o=mc::choose(9+18+9+6+3);
    if( o<9 ) { int x=o/3,y=o%3; if( x==y ) throw mc::Prune(); MCLOG("v"<<x<<" = v"<<y); v[x]=v[y]; m[x]=m[y]; }
    else if( o<27 ) { int q=o-9,x=q/9,y=q/3%3,z=q%3; static const int ops[3]={0,1,2}; MCLOG("v"<<(x?2:0)<<" "<<"+-*"[z]<<"= v"<<y); int X=x?2:0; G r=gop(ops[z],m[X],m[y]);
       switch( z ) { case 0: v[X]+=v[y]; break; case 1: v[X]-=v[y]; break; case 2: v[X]*=v[y]; break; } m[X]=r; }
    else if( o<36 ) { int q=o-27,y=q/3,z=q%3; MCLOG("v1 = v"<<y<<" * v"<<z); G r=gop(2,m[y],m[z]); v[1]=v[y]*v[z]; m[1]=r; }
    else if( o<42 ) { int q=o-36,x=q/2; MCLOG("write to v"<<x<<(q&1?" last":" first")); int i=q&1?int(m[x].v.size())-1:0;
       if( un(v[x].shape())!=m[x].sh || v[x].isComplex()!=m[x].cx ) throw mc::Prune();
       if( m[x].cx ) v[x].begin<dcomplex>()[i]=make_dcomplex(st,2); else v[x].begin<double>()[i]=st; m[x].v[i]=C(st,m[x].cx?2:0); }
    else { int x=o-42; MCLOG("v"<<x<<" = deep copy of v"<<(x+1)%3); v[x]=Vells(v[(x+1)%3],DMI::DEEP); m[x]=m[(x+1)%3]; }
    for(int i=0;i<3;i++) expect(v[i],m[i],"history","v"+std::to_string(i),true);
  }
  string s; for(int i=0;i<3;i++) { s+=str(m[i].sh); for( C x : m[i].v ) s+=str(x); } mc::state(s);
}

// ---- slicers
template<class T,int N> static void slices (const G &g,const Sh &axes,bool write)
{
  Vells v=mk(g),keep(v); LoShape ax=lo(axes); 
  Sh ssh; for( int a : axes ) ssh.push_back(a<int(g.sh.size())?g.sh[a]:1);
  Sh ns=g.sh; for( int a : axes ) if( a<int(ns.size()) ) ns[a]=1;
  vector<Sh> outer=points(ns), inner=points(ssh); size_t n=0; G e=g;
  auto index=[&](const Sh &o,const Sh &i) { Sh p=o; for(size_t k=0;k<axes.size();k++) if( axes[k]<int(p.size()) ) p[axes[k]]=i[k]; return p; };
  auto bz=[&](const Sh &i) { blitz::TinyVector<int,N> t; for(int k=0;k<N;k++) t(k)=i[k]; return t; };
  if( !write )
  {
    ConstVellsSlicer<T,N> sl(v,ax);
    for( bool more=sl.valid(); more; n++ )
    {
      MC_CHECK(n<outer.size(),"slice-count","more than "<<outer.size()<<" slices");
      MC_CHECK(un(sl.shape())==ssh,"slice-shape","slice shape "<<str(un(sl.shape()))<<", expected "<<str(ssh));
      for( auto &i : inner ) { mc::op(); C x=sl.array()(bz(i)); C y=at(g,index(outer[n],i)); MC_CHECK(x==y,"slice-value","slice "<<n<<" at "<<str(i)<<" is "<<str(x)<<", expected "<<str(y)); }
      more=sl.incr(); MC_CHECK(more==sl.valid(),"slice-count","incr() and valid() disagree");
    }
  }
  else
  {
    { VellsSlicer<T,N> sl(v,ax);
      for( bool more=sl.valid(); more; n++ )
      {
        MC_CHECK(n<outer.size(),"slice-count","more than "<<outer.size()<<" slices");
        for( auto &i : inner ) { mc::op(); double z=100*n+lin(ssh,i); sl.array()(bz(i))=T(z); e.v[lin(g.sh,index(outer[n],i))]=z; }
        more=sl.incr();
      } }
    expect(v,e,"slice-write","array written through slices");
  }
  MC_CHECK(n==outer.size(),"slice-count",n<<" slices, expected "<<outer.size());
  expect(keep,g,"operand","other reference to the sliced array");
}
static vector<Sh> axesets (int rank,int maxn)
{
  vector<Sh> r,cur(1,Sh()); for( int n=1;n<=maxn;n++ ) { vector<Sh> nx; for( auto &c : cur ) for(int a=0;a<rank;a++) if( std::find(c.begin(),c.end(),a)==c.end() ) { Sh d=c; d.push_back(a); nx.push_back(d); } r.insert(r.end(),nx.begin(),nx.end()); cur=nx; } return r;
}
static Sh slshape () { static const int N[4]={2,3,2,4}; int rank=1+mc::choose(4),m=mc::choose(1<<rank); Sh s(rank,1); for(int i=0;i<rank;i++) if( m>>i&1 ) s[i]=N[i]; return s; }
MC_SCENARIO(slicer,2,2)
{
  Sh s=slshape(); bool cx=mc::flip(), wr=mc::flip(); vector<Sh> as=axesets(s.size(),std::min<int>(s.size(),4)); const Sh &ax=as[mc::choose(as.size())];
  G g=gen(s,cx,2,0); for(size_t i=0;i<g.v.size();i++) g.v[i]=C(i+1,cx?-double(i):0); MCLOG((wr?"write ":"read ")<<(cx?"complex ":"real ")<<str(s)<<" axes "<<str(ax)); mc::state(str(s)+str(ax)+(cx?"c":"r")+(wr?"w":"r"));
#define SL(N) case N: cx ? slices<dcomplex,N>(g,ax,wr) : slices<double,N>(g,ax,wr); break
  switch( ax.size() ) { SL(1); SL(2); SL(3); SL(4); }
}
MC_SCENARIO(flagslicer,2,4)    // slices with flags, as used by the reductions along axes
{
  Sh s=slshape(); bool hasf=mc::flip(); Sh fs; F f; 
  if( hasf ) { fs=slshape(); Sh u; if( !join(u,s,fs) ) throw mc::Prune(); f=genf(fs,3,0); for(size_t i=0;i<f.v.size();i++) f.v[i]=i+1; }
  Sh u; join(u,s,hasf?fs:Sh{1}); vector<Sh> as=axesets(u.size()+1,std::min<int>(u.size()+1,3)); const Sh &ax=as[mc::choose(as.size())];
  G g=gen(s,false,2,0); for(size_t i=0;i<g.v.size();i++) g.v[i]=C(i+1,0); MCLOG(str(s)<<" flags "<<str(fs)<<" axes "<<str(ax)); mc::state(str(s)+str(fs)+str(ax));
  Vells v=mk(g); if( hasf ) v.setDataFlags(new Vells(mkf(f)));
  Sh ns=u; for( int a : ax ) if( a<int(ns.size()) ) ns[a]=1;   // axes beyond the rank are degenerate 
  ConstVellsSlicerWithFlags0 sl(v,lo(ax)); vector<Sh> outer=points(ns); size_t n=0;
  MC_CHECK(prod(un(sl.nonSlicedShape()))==prod(ns),"flagslice-shape","non-sliced shape "<<str(un(sl.nonSlicedShape()))<<", expected "<<str(ns));
  for( bool more=sl.valid(); more; n++ )
  {
    MC_CHECK(n<outer.size(),"flagslice-count","more than "<<outer.size()<<" slices");
    const Vells &x=sl.vells(); Sh vs=un(x.shape()); MC_CHECK(vs.size()==ax.size(),"flagslice-shape","slice of rank "<<vs.size());
    Sh fsh; if( hasf ) { MC_CHECK(x.hasDataFlags(),"flagslice-flags","slice has no flags"); fsh=un(x.dataFlags().shape()); }
    Sh full; for( int a : ax ) full.push_back(a<int(u.size())?u[a]:1); 
    for( auto &i : points(full) )
    {
      Sh p=outer[n]; for(size_t k=0;k<ax.size();k++) if( ax[k]<int(p.size()) ) p[ax[k]]=i[k]; mc::op();
      double z=x.begin<double>()[lin(vs,i)]; C y=at(g,p); MC_CHECK(z==y.real(),"flagslice-value","slice "<<n<<" at "<<str(i)<<" is "<<z<<", expected "<<str(y));
      if( hasf ) { int q=x.dataFlags().begin<VellsFlagType>()[lin(fsh,i)],e=at(f,p); MC_CHECK(q==e,"flagslice-flags","flag of slice "<<n<<" at "<<str(i)<<" is "<<q<<", expected "<<e); }
    }
    more=sl.incr();
  }
  MC_CHECK(n==outer.size(),"flagslice-count",n<<" slices, expected "<<outer.size());
}
MC_MAIN()
