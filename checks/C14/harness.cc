// C14: domains, cells and resampling against interval arithmetic and block averages.
#include "mc.h"
#include "../common/forest.h"
#include <MEQ/Domain.h>
#include <MEQ/Axis.h>
#include <DMI/Exception.h>
using namespace DMI; using namespace Meq; using std::string; using std::vector;
static bool near_ (double a,double b,double s=1) { return a==b || std::fabs(a-b)<=1e-11*std::max(s,std::max(std::fabs(a),std::fabs(b))); }
template<class F> static bool throws (F f) { try { f(); return false; } catch( std::exception & ) { return true; } }
static string S (double x) { char b[40]; snprintf(b,40,"%.12g",x); return b; }
static string SV (const vector<double> &v) { string r="["; for(double x:v) r+=S(x)+" "; return r+"]"; }
static vector<double> un (const LoVec_double &v) { vector<double> r; for(int i=0;i<v.extent(0);i++) r.push_back(v(i)); return r; }
static vector<int> un (const LoVec_int &v) { vector<int> r; for(int i=0;i<v.extent(0);i++) r.push_back(v(i)); return r; }
static LoVec_double lo (const vector<double> &v) { LoVec_double r(v.size()); for(size_t i=0;i<v.size();i++) r(i)=v[i]; return r; }

// ---- axis map: names and numbers are inverse to each other
static const char *NAMES[]={"Time","Freq","L","M","X.Y"};
static void setmap (int m)
{
  Axis::resetDefaultMap();
  if( m==1 ) { HIID n[]={HIID("Freq"),HIID("Time"),HIID("L")}; Axis::setAxisMap(n,3); }
  if( m==2 ) { vector<HIID> n={HIID("Time"),HIID("Freq"),HIID("L"),HIID("M"),HIID("X"),HIID("Y"),HIID("Z"),HIID("U.V")}; Axis::setAxisMap(n); }
}
static int NMAPS=3;

MC_SCENARIO(axes,1,1)
{
  int m=mc::choose(NMAPS); setmap(m);
  for( int i=0;i<Axis::MaxAxis;i++ )
  { mc::op(); int j=Axis::axis(Axis::axisId(i)); MC_CHECK(j==i,"axis-map","map "<<m<<": axis "<<i<<" is named "<<Axis::axisId(i).toString()<<", which names axis "<<j);
    MC_CHECK(Axis::axis(HIID(AtomicID(i)))==i,"axis-map","number "<<i<<" is not axis "<<i); }
  MC_CHECK(Axis::axisId(Axis::TIME)==HIID("Time")&&Axis::axisId(Axis::FREQ)==HIID("Freq"),"axis-map","map "<<m<<": TIME is axis "<<Axis::TIME<<", FREQ is axis "<<Axis::FREQ);
  MC_CHECK(Axis::axis(HIID("Z.Z"),true)==-1 && throws([&]{ Axis::axis(HIID("Z.Z")); }),"axis-unknown","unknown axis accepted");
  MC_CHECK(Axis::isDefaultMap()==(m==0),"axis-default","map "<<m<<" default="<<Axis::isDefaultMap());
  // new axes take free numbers and do not disturb the others
  vector<HIID> before; for(int i=0;i<8;i++) before.push_back(Axis::axisId(i));
  HIID nn("A.B"); bool t=throws([&]{ Axis::addAxis(nn); });
  int k=Axis::axis(nn,true);
  if( !t ) MC_CHECK(k>=0 && Axis::axisId(k)==nn && before[k]==HIID(AtomicID(k)),"axis-add","added axis became "<<k);
  else MC_CHECK(m==2,"axis-add","adding an axis failed though axes are free");
  for(int i=0;i<8;i++) MC_CHECK(i==k||Axis::axisId(i)==before[i],"axis-add","axis "<<i<<" renamed");
  mc::state(m); setmap(0);
}

// ---- domains
struct Ax { bool on; double a,b; };
typedef vector<Ax> Dm;
static const double RNG[][2]={{0,1},{0,2},{-1,1},{0.5,1.5},{1,2},{4.8e9,4.8e9+60},{2,1},{3,3}};
static Ax norm (double a,double b) { if(a>b) std::swap(a,b); return Ax{true,a,b}; }
static Ax mkax (int r) { if( r==0 ) return Ax{false,0,0}; Ax x=norm(RNG[r-1][0],RNG[r-1][1]); if( x.a==x.b ) x.a-=1e-6; return x; }
static void expect (const Domain &d,const Dm &m,const char *key,const string &what)
{
  for( int i=0;i<Axis::MaxAxis;i++ )
  {
    mc::op(); Ax x = i<int(m.size()) ? m[i] : Ax{false,0,0};
    MC_CHECK(d.isDefined(i)==x.on,string(key)+"-axes",what<<": axis "<<i<<" defined="<<d.isDefined(i));
    if( x.on ) MC_CHECK(d.start(i)==x.a&&d.end(i)==x.b,string(key)+"-range",what<<": axis "<<i<<" is "<<S(d.start(i))<<":"<<S(d.end(i))<<", expected "<<S(x.a)<<":"<<S(x.b));
    // the record view says the same
    const DMI::Record &r=d; DMI::Record::Hook h(r,Axis::axisId(i));
    MC_CHECK(h.exists()==x.on,string(key)+"-record",what<<": record field of axis "<<i<<" exists="<<h.exists());
    if( x.on ) { int n; const double *p=h.as_p<double>(n); MC_CHECK(n==2&&p[0]==x.a&&p[1]==x.b,string(key)+"-record",what<<": record field of axis "<<i); }
  }
}
static bool same (const Dm &a,const Dm &b) { for(int i=0;i<8;i++) { bool p=i<int(a.size())&&a[i].on,q=i<int(b.size())&&b[i].on; if( p!=q || ( p && (a[i].a!=b[i].a||a[i].b!=b[i].b) ) ) return false; } return true; }
static string str (const Dm &m) { string r; for(size_t i=0;i<m.size();i++) if(m[i].on) r+=std::to_string(i)+"="+S(m[i].a)+":"+S(m[i].b)+" "; return "<"+r+">"; }

static const int POS[3]={0,1,3};   // axes used
static Dm choose_domain (int nr) { Dm m(4,Ax{false,0,0}); for(int k=0;k<3;k++) m[POS[k]]=mkax(mc::choose(nr)); return m; }
static Domain * build (const Dm &m,int order) { Domain *d=new Domain; for(int k=0;k<4;k++) { int i=order?3-k:k; if(m[i].on) d->defineAxis(i,m[i].a,m[i].b); } return d; }

MC_SCENARIO(domain,1,1)
{
  int mp=mc::choose(NMAPS); setmap(mp);
  Dm m(4,Ax{false,0,0}); Domain::Ref ref; Domain &d = ref <<= new Domain;
  int n=mc::choose(4);
  string hist;
  for( int k=0;k<n;k++ )
  { int i=POS[mc::choose(3)],r=1+mc::choose(8); d.defineAxis(i,RNG[r-1][0],RNG[r-1][1]); m[i]=mkax(r); hist+=" "+std::to_string(i)+":"+std::to_string(r); }
  string what="domain"+hist;
  expect(d,m,"domain",what); mc::state(mc::hash(str(m)));
  { Domain c(d); expect(c,m,"domain-copy",what+" copied"); MC_CHECK(c==d&&!(c!=d),"domain-equal",what<<": copy differs"); }
  { Domain::Ref r2=ref; r2.privatize(DMI::DEEP); r2().defineAxis(0,17,18); expect(d,m,"domain-copy",what+" after writing to a copy"); }
  // rebuilt from a plain record
  { DMI::Record rec; for(int i=0;i<4;i++) if(m[i].on) rec[Axis::axisId(i)]=vector<double>{m[i].a,m[i].b};
    Domain c(rec); expect(c,m,"domain-rebuild",what+" rebuilt"); MC_CHECK(c==d,"domain-equal",what<<": rebuilt one differs"); }
  // bad axes are refused without effect
  MC_CHECK(throws([&]{ d.defineAxis(-1,0,1); })&&throws([&]{ d.defineAxis(8,0,1); }),"domain-bad-axis","illegal axis accepted");
  expect(d,m,"domain",what+" after refused axes");
  setmap(0);
}
MC_SCENARIO(domain_bad,1,1)
{
  setmap(0); int k=mc::choose(6); DMI::Record rec; rec[HIID("Time")]=vector<double>{0,1};
  if(k==0) rec[HIID("8")]=vector<double>{0,1}; if(k==1) rec[HIID("77")]=vector<double>{0,1}; if(k==2) rec[HIID("Z.Z")]=vector<double>{0,1};
  if(k==3) rec[HIID("Freq")]=vector<double>{0,1,2}; if(k==4) rec[HIID("Freq")]=vector<double>{1,0}; if(k==5) rec[HIID("Freq")]=vector<double>{1,1};
  static const char *w[]={"axis 8","axis 77","unknown axis","three numbers","reversed range","empty range"};
  std::streambuf *cb=std::cout.rdbuf(nullptr);
  bool t=throws([&]{ Domain d(rec); }); std::cout.rdbuf(cb);
  MC_CHECK(t,"domain-bad-record","a domain record with "<<w[k]<<" was accepted"); mc::state(k);
}
MC_SCENARIO(domain_pair,2,4)
{
  setmap(0); int nr = mc::thorough()?7:5;
  Dm a=choose_domain(nr),b=choose_domain(nr);
  Domain::Ref ra(build(a,0)),rb(build(b,1)); const Domain &da=*ra,&db=*rb;
  string what=str(a)+" and "+str(b); mc::state(mc::hash(what));
  MC_CHECK((da==db)==same(a,b)&&(da!=db)!=same(a,b),"domain-equal",what<<": equal="<<(da==db));
  bool sup=true; for(int i=0;i<4;i++) if( a[i].on && ( !b[i].on || a[i].a>b[i].a || a[i].b<b[i].b ) ) sup=false;
  MC_CHECK(da.supersetOfProj(db)==sup,"domain-superset",what<<": supersetOfProj="<<da.supersetOfProj(db)<<", expected "<<sup);
  Dm e(4,Ax{false,0,0}); for(int i=0;i<4;i++) { if(a[i].on&&b[i].on) e[i]=Ax{true,std::min(a[i].a,b[i].a),std::max(a[i].b,b[i].b)}; else if(a[i].on) e[i]=a[i]; else if(b[i].on) e[i]=b[i]; }
  expect(Domain::envelope(da,db),e,"domain-envelope","envelope of "+what); expect(da.envelope(db),e,"domain-envelope","envelope of "+what);
  ra().expandToEnvelope(db); expect(*ra,e,"domain-expand","expanding "+what); expect(db,b,"domain-expand","the other domain of "+what);
  // two domain references: the copy taken before is unaffected
}

// ---- cells
struct G { vector<double> c,w; };
static vector<std::pair<int,int>> segs (const G &g)   // greedy maximal runs of equal step and equal size
{
  vector<std::pair<int,int>> r; int n=g.c.size(); if( n<1 ) return r;
  double eps=std::fabs(g.c[0]-g.c[n-1])*1e-10;
  int s=0;
  for( int i=1;i<n;i++ )
  { bool ok = std::fabs(g.w[i]-g.w[s])<=eps && ( i-s<2 || std::fabs((g.c[i]-g.c[i-1])-(g.c[i-1]-g.c[i-2]))<=eps ); if( !ok ) { r.push_back({s,i-1}); s=i; } }
  r.push_back({s,n-1}); return r;
}
typedef std::map<int,G> Gm;
static string str (const Gm &m) { string r; for(auto &x:m) r+=std::to_string(x.first)+": centres "+SV(x.second.c)+" sizes "+SV(x.second.w)+"; "; return r; }
static void expect (const Cells &c,const Gm &m,const char *key,const string &what,bool loose=false)
{
  int rank = m.empty()?0:m.rbegin()->first+1;
  MC_CHECK(c.rank()==rank,string(key)+"-rank",what<<": rank "<<c.rank()<<", expected "<<rank);
  for( int i=0;i<Axis::MaxAxis;i++ )
  {
    mc::op(); auto it=m.find(i); bool on=it!=m.end();
    MC_CHECK(c.isDefined(i)==on && c.ncells(i)==(on?int(it->second.c.size()):0),string(key)+"-axes",what<<": axis "<<i<<" has "<<c.ncells(i)<<" cells");
    if( i<rank ) MC_CHECK(int(c.shape()[i])==(on?int(it->second.c.size()):1),string(key)+"-shape",what<<": shape of axis "<<i<<" is "<<c.shape()[i]);
    if( !on ) { MC_CHECK(c.center(i).size()==0&&c.cellSize(i).size()==0&&c.numSegments(i)==0,string(key)+"-undefined",what<<": undefined axis "<<i<<" has centres"); continue; }
    const G &g=it->second; vector<double> cc=un(c.center(i)),cw=un(c.cellSize(i)),cs=un(c.cellStart(i)),ce=un(c.cellEnd(i));
    LoVec_double s2,e2; c.getCellStartEnd(s2,e2,i); vector<double> ss=un(s2),ee=un(e2);
    MC_CHECK(cc.size()==g.c.size()&&cw.size()==g.c.size(),string(key)+"-size",what<<": axis "<<i<<" has "<<cc.size()<<" centres, "<<cw.size()<<" sizes");
    double sc=1; for(double x:g.c) sc=std::max(sc,std::fabs(x));
    for( size_t k=0;k<g.c.size();k++ )
    {
      MC_CHECK(near_(cc[k],g.c[k],sc)&&near_(cw[k],g.w[k],sc),string(key)+"-grid",what<<": axis "<<i<<" cell "<<k<<" is "<<S(cc[k])<<" size "<<S(cw[k])<<", expected "<<S(g.c[k])<<" size "<<S(g.w[k]));
      MC_CHECK(near_(cs[k],cc[k]-cw[k]/2,sc)&&near_(ce[k],cc[k]+cw[k]/2,sc)&&ss[k]==cs[k]&&ee[k]==ce[k],string(key)+"-edges",what<<": axis "<<i<<" cell "<<k<<" edges");
    }
    if( !loose )
    {
      auto sg=segs(g); vector<int> a=un(c.segmentStart(i)),b=un(c.segmentEnd(i)); bool ok=a.size()==sg.size()&&b.size()==sg.size()&&c.numSegments(i)==int(sg.size());
      string got; for(size_t k=0;k<a.size()&&k<b.size();k++) got+=std::to_string(a[k])+"-"+std::to_string(b[k])+" "; string ex; for(auto &x:sg) ex+=std::to_string(x.first)+"-"+std::to_string(x.second)+" ";
      if( ok ) for(size_t k=0;k<sg.size();k++) if( a[k]!=sg[k].first||b[k]!=sg[k].second ) ok=false;
      MC_CHECK(ok,string(key)+"-segments",what<<": axis "<<i<<" segments "<<got<<", expected "<<ex);
    }
    // the record view (what is serialized and sent to Python)
    const DMI::Record &r=c; int n1=0,n2=0,n3=0,n4=0;
    const double *p=r[HIID("Grid")].as<DMI::Record>()[Axis::axisId(i)].as_p<double>(n1),*q=r[HIID("Cell.Size")].as<DMI::Record>()[Axis::axisId(i)].as_p<double>(n2);
    const DMI::Record &rs=r[HIID("Segments")].as<DMI::Record>()[Axis::axisId(i)].as<DMI::Record>();
    const int *ps=rs[HIID("Start.Index")].as_p<int>(n3),*pe=rs[HIID("End.Index")].as_p<int>(n4);
    bool ok=n1==int(cc.size())&&n2==n1&&n3==c.numSegments(i)&&n4==n3; if(ok) for(int k=0;k<n1;k++) ok=ok&&p[k]==cc[k]&&q[k]==cw[k]; if(ok) for(int k=0;k<n3;k++) ok=ok&&ps[k]==c.segmentStart(i)(k)&&pe[k]==c.segmentEnd(i)(k);
    MC_CHECK(ok,string(key)+"-record",what<<": record fields of axis "<<i<<" do not match the grid");
  }
}
static Dm extent (const Gm &m) { Dm d(8,Ax{false,0,0}); for(auto &x:m) { const G &g=x.second; int n=g.c.size(); double a=g.c[0]-g.w[0]/2,b=g.c[n-1]+g.w[n-1]/2; d[x.first]=norm(a,b); if(a==b) d[x.first].a-=1e-6; } return d; }
static G regular (double a,double b,int n,double size=-1) { G g; double st=(b-a)/n; for(int i=0;i<n;i++) { g.c.push_back(a+st/2+st*i); g.w.push_back(size<0?st:size); } return g; }
// grids on one axis: regular, or every sequence of steps and sizes over a small alphabet
static G choose_grid (int which,int maxn)
{
  if( which==0 ) { int n=1+mc::choose(4); return regular(0,4,n); }
  if( which==1 ) { int n=1+mc::choose(3); G g; for(int i=0;i<n;i++) { g.c.push_back(i); g.w.push_back(0); } return g; }   // enumerated
  int n=1+mc::choose(maxn); G g; double x=0; double ST[]={1,2},W[]={1,0.5};
  for(int i=0;i<n;i++) { if(i) x+=ST[mc::choose(2)]; g.c.push_back(x); g.w.push_back(W[mc::choose(2)]); } return g;
}
static void put (Cells &c,int i,const G &g,int how)
{
  int n=g.c.size();
  if( how==0 ) c.setCells(i,0.,4.,n);
  else if( how==1 ) c.setEnumCells(i,n);
  else { bool eq=true; for(double w:g.w) if(w!=g.w[0]) eq=false; if( eq && n%2 ) c.setCells(i,lo(g.c),g.w[0]); else c.setCells(i,lo(g.c),lo(g.w)); }
}
MC_SCENARIO(segments,2,4)
{
  // a single axis: every sequence of up to N steps and sizes over an alphabet of three
  setmap(0); G g; int n=1+mc::choose(mc::thorough()?6:5); static const double ST[]={1,3,1+1e-13},W[]={1,0.5,1+1e-13}; double x=0;
  for(int i=0;i<n;i++) { if(i) x+=ST[mc::choose(3)]; g.c.push_back(x); g.w.push_back(W[mc::choose(i<4?3:2)]); }
  Cells::Ref ref; Cells &c=ref<<=new Cells; c.setCells(1,lo(g.c),lo(g.w)); c.recomputeDomain(); Gm m; m[1]=g;
  expect(c,m,"cells","cells "+str(m)); mc::state(mc::hash(str(m)));
}
MC_SCENARIO(cells,6,8)
{
  int n=1+mc::choose(3),mp=n<2?mc::choose(NMAPS):0; setmap(mp);
  Cells::Ref ref; Cells &c=ref<<=new Cells; Gm m; string hist;
  for( int k=0;k<n;k++ )
  { int i=POS[mc::choose(3)],how=mc::choose(k<2||mc::thorough()?3:2); G g=choose_grid(how,mc::thorough()?(k?3:5):(k?2:3)); put(c,i,g,how); m[i]=g; }
  c.recomputeDomain();
  string what="cells "+str(m); mc::state(mc::hash(what));
  expect(c,m,"cells",what); expect(c.domain(),extent(m),"cells-domain","domain of "+what);
  { Cells d(c); expect(d,m,"cells-copy","copy of "+what); MC_CHECK(d==c&&c==d&&!(d!=c)&&!c.compare(d)&&!d.compare(c),"cells-equal",what<<": copy differs"); }
  { Cells::Ref r2=ref; r2.privatize(DMI::DEEP); r2().setCells(0,7.,9.,5); r2().recomputeDomain(); expect(*ref,m,"cells-copy",what+" after writing to a copy"); expect(ref->domain(),extent(m),"cells-copy-domain",what); Gm m2=m; m2[0]=regular(7,9,5); expect(*r2,m2,"cells-write","changed copy of "+what); expect(r2->domain(),extent(m2),"cells-write-domain",what); MC_CHECK(!(*r2==*ref)&&*r2!=*ref,"cells-equal",what<<": equal to a changed copy"); }
  { DMI::Record rec; rec[HIID("Domain")]<<=new Domain(c.domain()); const DMI::Record &r=c; for(const char *f:{"Grid","Cell.Size","Segments"}) rec[HIID(f)]<<=new DMI::Record(r[HIID(f)].as<DMI::Record>(),DMI::DEEP);
    Cells d(rec); expect(d,m,"cells-rebuild","rebuilt "+what); MC_CHECK(d==c&&c==d,"cells-equal",what<<": rebuilt one differs"); }
  { Cells d(c.domain()); MC_CHECK(d.rank()==0&&d.domain()==c.domain(),"cells-from-domain",what); }
  Cells e; MC_CHECK(!(e==c)&&!(c==e)&&e.compare(c)&&c.compare(e),"cells-equal-empty",what<<" equals cells without any axis"); Cells e2; MC_CHECK(e==e2&&!e.compare(e2),"cells-equal-empty","two empty cells differ");
  setmap(0);
}
// changing an axis of cells that exist
MC_SCENARIO(cells_pair,2,4)
{
  setmap(0); Cells::Ref ra,rb; Gm m[2];
  for( int k=0;k<2;k++ )
  {
    Cells &c=(k?rb:ra)<<=new Cells;
    for( int p=0;p<3;p++ ) { int ch=mc::choose(5); if(!ch) continue; static const double X[5][3]={{0},{0,4,1},{0,4,2},{1,4,2},{0,4,4}}; G g=regular(X[ch][0],X[ch][1],X[ch][2]); c.setCells(POS[p],X[ch][0],X[ch][1],X[ch][2]); m[k][POS[p]]=g; }
    if( m[k].empty() ) throw mc::Prune(); c.recomputeDomain();
  }
  const Cells &a=*ra,&b=*rb; string what=str(m[0])+" | "+str(m[1]); mc::state(mc::hash(what));
  bool eq=m[0].size()==m[1].size(); if(eq) for(auto &x:m[0]) if( !m[1].count(x.first)||m[1][x.first].c!=x.second.c||m[1][x.first].w!=x.second.w ) eq=false;
  MC_CHECK((a==b)==eq&&(b==a)==eq&&(a!=b)==!eq,"cells-equal",what<<": equal="<<(a==b)<<", expected "<<eq);
  if( eq ) MC_CHECK(!a.compare(b),"cells-compare",what<<": equal cells compare as different");
  // superset: exists exactly if the common axes agree
  bool ok=true; for(auto &x:m[0]) if( m[1].count(x.first) && (m[1][x.first].c!=x.second.c||m[1][x.first].w!=x.second.w) ) ok=false;
  Cells::Ref s; Cells::superset(s,a,b);
  MC_CHECK(s.valid()==ok,"cells-superset",what<<": superset exists="<<s.valid());
  if( ok ) { Gm u=m[0]; for(auto &x:m[1]) u.insert(x); expect(*s,u,"cells-superset","superset of "+what); expect(s->domain(),extent(u),"cells-superset-domain","superset of "+what); }
  expect(a,m[0],"cells-operand",what); expect(b,m[1],"cells-operand",what);
}
MC_SCENARIO(cells_make,1,2)
{
  // constructors: regular grids over a domain, refined and coarsened grids, combinations
  setmap(0); static const double R[3][2]={{0,4},{-1,1},{4.8e9,4.8e9+60}};
  Domain::Ref dr; Domain &d=dr<<=new Domain; int r0=mc::choose(3),r1=mc::choose(3); d.defineAxis(0,R[r0][0],R[r0][1]); d.defineAxis(1,R[r1][0],R[r1][1]);
  int nx=1+mc::choose(mc::thorough()?6:4),ny=1+mc::choose(mc::thorough()?6:4); Gm m; m[0]=regular(R[r0][0],R[r0][1],nx); m[1]=regular(R[r1][0],R[r1][1],ny);
  string what=std::to_string(nx)+"x"+std::to_string(ny)+" cells over "+S(R[r0][0])+":"+S(R[r0][1])+","+S(R[r1][0])+":"+S(R[r1][1]); mc::state(mc::hash(what));
  Cells::Ref c1(new Cells(d,nx,ny)),c2(new Cells(&d,nx,ny)); expect(*c1,m,"cells-regular",what,true); expect(*c2,m,"cells-regular",what,true); MC_CHECK(*c1==*c2&&c1->domain()==d,"cells-regular-domain",what);
  for(int i=0;i<2;i++) MC_CHECK(c1->numSegments(i)==1&&c1->segmentStart(i)(0)==0&&c1->segmentEnd(i)(0)==(i?ny:nx)-1,"cells-regular-segments",what<<": axis "<<i);
  bool three=mc::flip(); if( three ) { c1().setCells(3,0.,6.,2); c1().recomputeDomain(); m[3]=regular(0,6,2); }
  int ops[8]={0},args[8]={0}; Gm u=m; bool bad=false; string w2=what;
  for( int i=0;i<2;i++ )
  {
    ops[i]=mc::choose(4); args[i]=1+mc::choose(4); int np=m[i].c.size(),nn=np,a=args[i];
    if( ops[i]==Cells::SET_NCELLS ) { if( a>np ? a%np : np%a ) bad=true; nn=a; }
    if( ops[i]==Cells::INTEGRATE ) { if( np%a ) throw mc::Prune(); nn=np/a; }
    if( ops[i]==Cells::UPSAMPLE ) nn=np*a;
    u[i]=regular(i?R[r1][0]:R[r0][0],i?R[r1][1]:R[r0][1],nn); w2+=" op "+std::to_string(ops[i])+","+std::to_string(a);
  }
  Cells::Ref c3; bool t=throws([&]{ c3<<=new Cells(*c1,ops,args); });
  MC_CHECK(t==bad,"cells-resample-refuse",w2<<": refused="<<t);
  if( bad ) return;
  expect(*c3,u,"cells-resample",w2,true); MC_CHECK(c3->domain()==c1->domain(),"cells-resample-domain",w2);
  if( u[0].c.size()==m[0].c.size() && u[1].c.size()==m[1].c.size() ) MC_CHECK((ops[0]>1||ops[1]>1||*c3==*c1)&&!c3->compare(*c1)&&!c1->compare(*c3),"cells-resample-equal",w2<<": unchanged grid is not equal to the original");
  expect(*c1,m,"cells-operand",w2,true);
  // combination of the two grids
  for( int rs=-1;rs<=1;rs+=2 )
  { Gm v; for(auto &x:m) { int i=x.first; bool up=(m[i].c.size()>u[i].c.size()); v[i]= (rs>0)==up ? m[i] : u[i]; } Cells::Ref c4(new Cells(*c1,*c3,rs)); expect(*c4,v,"cells-combine",w2+" combined "+std::to_string(rs),true); }
}

// ---- resampling node
struct Grid2 { int nx,ny; vector<std::complex<double>> v; vector<int> f; bool fl; };
static Vells vells (int sx,int sy,bool cx,const std::vector<std::complex<double>> &v)
{ LoShape s; s.resize(2); s[0]=sx; s[1]=sy; if( cx ) { Vells r(make_dcomplex(0,0),s,false); for(int i=0;i<sx*sy;i++) r.begin<dcomplex>()[i]=v[i]; return r; } Vells r(0.,s,false); for(int i=0;i<sx*sy;i++) r.begin<double>()[i]=v[i].real(); return r; }
static std::complex<double> val (const Vells &v,int i,int j) { const LoShape &s=v.shape(); int nx=s.size()>0?s[0]:1,ny=s.size()>1?s[1]:1; int k=(nx>1?i:0)*ny+(ny>1?j:0); return v.isComplex()?std::complex<double>(v.begin<dcomplex>()[k]):std::complex<double>(v.begin<double>()[k],0); }
static int fval (const Vells &v,int i,int j) { const LoShape &s=v.shape(); int nx=s.size()>0?s[0]:1,ny=s.size()>1?s[1]:1; return v.begin<VellsFlagType>()[(nx>1?i:0)*ny+(ny>1?j:0)]; }
static Cells * grid (int nx,int ny) { Domain::Ref d(new Domain(0,4,0,6)); return new Cells(*d,nx,ny); }

// integration: nx,ny to mx,my by integer factors in either direction on each axis
static void integrate (int nx,int ny,int mx,int my,bool dx,bool dy,bool cx,int fmode,int fbits,int dens,int mask,int bit)
{
  mcf::Forest1 F; int sx=dx?nx:1,sy=dy?ny:1; vector<std::complex<double>> v; for(int i=0;i<sx*sy;i++) v.push_back(std::complex<double>(1+i*i+(i%3),cx?2.5*i-1:0));
  // flags: fmode 0 none, 1 full shape, 2 along x only, 3 along y only, 4 scalar
  int gx=(fmode==1||fmode==2)?nx:1,gy=(fmode==1||fmode==3)?ny:1;
  Result::Ref rr; Result &res=rr<<=new Result(1); VellSet &vs=res.setNewVellSet(0); vs.setValue(new Vells(vells(sx,sy,cx,v)));
  vector<int> fl(nx*ny,0);
  if( fmode ) { LoShape s; s.resize(2); s[0]=gx; s[1]=gy; Vells::Ref fr; Vells &f=fr<<=new Vells(s,VellsFlagType(0),false); for(int k=0;k<gx*gy;k++) f.begin<VellsFlagType>()[k] = fbits>>k&1 ? (k&1?2:1) : 0; vs.setDataFlags(fr); for(int i=0;i<nx;i++) for(int j=0;j<ny;j++) fl[i*ny+j]=fval(*fr,gx>1?i:0,gy>1?j:0); }
  Cells::Ref cin(grid(nx,ny)),cout_(grid(mx,my)); res.setCells(*cin,DMI::AUTOCLONE);
  bool hascells=res.hasCells();
  DMI::Record ex; ex[HIID("Mode")]=2; static const double D[]={0.5,0.0,0.99}; static const int M[]={-1,1,0}; ex[HIID("Flag.Density")]=D[dens]; ex[HIID("Flag.Mask")]=M[mask]; ex[HIID("Flag.Bit")]=bit?8:0;
  int s=F.src("s",rr); int n=F.add("MeqResampler","r",{s},ex);
  Request::Ref rq(new Request(*cout_,HIID("ev.1"))); Result::Ref out; int code=F.exec(n,out,*rq);
  std::ostringstream w; w<<"integrating "<<nx<<"x"<<ny<<" to "<<mx<<"x"<<my<<", data shape "<<sx<<"x"<<sy<<(cx?" complex":" real")<<", flag shape "<<(fmode?std::to_string(gx)+"x"+std::to_string(gy):string("none"))<<" bits "<<fbits<<", density "<<D[dens]<<", mask "<<M[mask]<<", bit "<<bit; string what=w.str();
  MC_CHECK(!(code&Meq::Node::RES_FAIL)&&out.valid()&&out->numVellSets()==1&&!out->vellSet(0).isFail()&&out->vellSet(0).hasValue(),"resample-fail",what<<": failed "<<(out.valid()&&out->numVellSets()&&out->vellSet(0).isFail()?out->vellSet(0).getFailMessage():string()));
  if( !hascells ) return;
  const VellSet &ov=out->vellSet(0); const Vells &val_=ov.getValue();
  MC_CHECK(val_.nelements()==1||(out->hasCells()&&out->cells()==*cout_),"resample-cells",what<<": result cells differ from the request");
  const LoShape &os=val_.shape(); for(size_t k=0;k<os.size();k++) MC_CHECK(os[k]==1||os[k]==(k==0?mx:my),"resample-shape",what<<": result shape");
  for( int i=0;i<mx;i++ ) for( int j=0;j<my;j++ )
  {
    mc::op(); std::complex<double> sum=0; int cnt=0,tot=0,nf=0,acc=0; int x0=mx<=nx?i*nx/mx:i/(mx/nx),x1=mx<=nx?(i+1)*nx/mx:x0+1,y0=my<=ny?j*ny/my:j/(my/ny),y1=my<=ny?(j+1)*ny/my:y0+1;
    for(int a=x0;a<x1;a++) for(int b=y0;b<y1;b++) { tot++; int f=fl[a*ny+b]&M[mask]; if( f ) { nf++; acc|=f; } else { cnt++; sum+=v[(dx?a:0)*sy+(dy?b:0)]; } }
    if( cnt ) sum/=double(cnt);
    bool same=mx==nx&&my==ny;
    int ef = same ? fl[i*ny+j] : ( float(nf)/tot>float(D[dens]) ? (bit?8:acc) : 0 );
    int of = ov.hasDataFlags() ? fval(ov.dataFlags(),i,j) : 0;
    MC_CHECK(of==ef,"resample-flags",what<<": flag of cell "<<i<<","<<j<<" is "<<of<<", expected "<<ef);
    if( cnt && !same ) { std::complex<double> o=val(val_,i,j); MC_CHECK(std::abs(o-sum)<1e-9*(1+std::abs(sum)),"resample-value",what<<": cell "<<i<<","<<j<<" is "<<S(o.real())<<","<<S(o.imag())<<", expected "<<S(sum.real())<<","<<S(sum.imag())); }
    if( same ) MC_CHECK(val(val_,i,j)==v[(dx?i:0)*sy+(dy?j:0)],"resample-value",what<<": same grid, value changed");
  }
}
static int other (int n) { static const int K[]={1,2,3,4,6}; vector<int> r; for(int k:K) if( k%n==0||n%k==0 ) r.push_back(k); return r[mc::choose(r.size())]; }
MC_SCENARIO(integrate,8,8)
{
  static const int K[]={1,2,4,6}; int nx=K[mc::choose(3)],ny=K[mc::choose(4)],mx=other(nx),my=other(ny);
  bool cx=mc::flip(); int sh=mc::choose(4); if( (nx==1&&!(sh&1))||(ny==1&&!(sh&2)) ) throw mc::Prune();
  int fmode=mc::choose(5); int nb=fmode==1?nx*ny:fmode==2?nx:fmode==3?ny:fmode==4?1:0; if( fmode && nb>6 && nb>(mc::thorough()?8:4) ) { /* a set of patterns */ }
  int fb=0; if( fmode ) fb = nb<=4 ? mc::choose(1<<nb) : (int[]){0,1,3,5,0x0f,0xf0,0x55,0x7fffffff,0x33}[mc::choose(9)];
  int d=0,mk=0,bt=0; if( fmode && mc::choose(2) ) { d=mc::choose(3); mk=mc::choose(3); bt=mc::choose(2); }
  mc::state((((((nx*7+ny)*7+mx)*7+my)*4+sh)*5+fmode)*1024+fb);
  integrate(nx,ny,mx,my,sh&1,sh&2,cx,fmode,fb,d,mk,bt);
}
// interpolation: constants and linear functions are reproduced on any grid, the same grid gives the same values
MC_SCENARIO(interpolate,2,4)
{
  mcf::Forest1 F; int pat=mc::choose(3); bool cx=mc::flip(); int gi[2],go[2];
  static const vector<double> GR[]={{2},{1,3},{.5,1.5,2.5,3.5},{.25,.75,2,3.5},{0.1,3,3.2},{1,2,3},{.5,1,1.5,2,2.5}};
  Cells::Ref ci,co; Cells &a=ci<<=new Cells,&b=co<<=new Cells;
  for( int k=0;k<2;k++ ) { gi[k]=mc::choose(6); go[k]=mc::choose(7); a.setCells(k,lo(GR[gi[k]]),0.25); b.setCells(k,lo(GR[go[k]]),0.25); }
  a.recomputeDomain(); b.recomputeDomain(); int nx=GR[gi[0]].size(),ny=GR[gi[1]].size(),mx=GR[go[0]].size(),my=GR[go[1]].size();
  auto f=[&](double x,double y)->std::complex<double> { double r = pat==0 ? 7 : pat==1 ? 2+3*x-y : (nx>1?x:0)*2*(ny>1?y+1:1); return std::complex<double>(r,cx?1-2*r:0); };
  bool vx=nx>1&&pat,vy=ny>1&&pat; if( pat==2 && (nx==1||ny==1) ) throw mc::Prune();
  // linear along an axis with a single cell: the value at that cell stands for the axis
  int sx=vx?nx:1,sy=vy?ny:1; vector<std::complex<double>> v; for(int i=0;i<sx;i++) for(int j=0;j<sy;j++) v.push_back(f(GR[gi[0]][i],GR[gi[1]][j]));
  Result::Ref rr; Result &res=rr<<=new Result(1); VellSet &vs=res.setNewVellSet(0); vs.setValue(new Vells(vells(sx,sy,cx,v))); res.setCells(a,DMI::AUTOCLONE);
  DMI::Record ex; ex[HIID("Mode")]=1; int s=F.src("s",rr),n=F.add("MeqResampler","r",{s},ex); Request::Ref rq(new Request(b,HIID("ev.1"))); Result::Ref out; int code=F.exec(n,out,*rq);
  string what="interpolating pattern "+std::to_string(pat)+(cx?" complex":" real")+" from "+SV(GR[gi[0]])+SV(GR[gi[1]])+" to "+SV(GR[go[0]])+SV(GR[go[1]]); mc::state(mc::hash(what));
  MC_CHECK(!(code&Meq::Node::RES_FAIL)&&out->numVellSets()==1&&out->vellSet(0).hasValue(),"interpolate-fail",what);
  const Vells &o=out->vellSet(0).getValue(); const LoShape &os=o.shape(); for(size_t k=0;k<os.size();k++) MC_CHECK(os[k]==1||os[k]==(k==0?mx:my),"interpolate-shape",what);
  if( !o.isScalar() ) MC_CHECK(out->hasCells()&&out->cells()==b,"interpolate-cells",what);
  for(int i=0;i<mx;i++) for(int j=0;j<my;j++) { mc::op(); std::complex<double> e=f(vx?GR[go[0]][i]:GR[gi[0]][0],vy?GR[go[1]][j]:GR[gi[1]][0]),g=val(o,i,j); MC_CHECK(std::abs(e-g)<1e-9*(1+std::abs(e)),"interpolate-value",what<<": at "<<i<<","<<j<<" got "<<S(g.real())<<", expected "<<S(e.real())); }
}
// interpolation between the points of a monotonic function stays between its values, and the same points give the same values
MC_SCENARIO(monotonic,1,2)
{
  mcf::Forest1 F; int ax=mc::flip(); bool cx=mc::flip(); int n=3+mc::choose(mc::thorough()?4:3); vector<double> x={0.5},y={1}; for(int i=1;i<n;i++) { x.push_back(x.back()+1+mc::choose(2)); static const double DY[]={0,1,5}; y.push_back(y.back()+DY[mc::choose(3)]); }
  vector<double> q; vector<int> iv; for(int i=0;i<n;i++) { q.push_back(x[i]); iv.push_back(i); if(i+1<n) { q.push_back(x[i]+.25*(x[i+1]-x[i])); iv.push_back(-1-i); q.push_back(x[i]+.7*(x[i+1]-x[i])); iv.push_back(-1-i); } }
  Cells::Ref ci,co; Cells &a=ci<<=new Cells,&b=co<<=new Cells; a.setCells(ax,lo(x),0.25); b.setCells(ax,lo(q),0.25); a.setCells(1-ax,0.,1.,1); b.setCells(1-ax,0.,1.,1); a.recomputeDomain(); b.recomputeDomain();
  vector<std::complex<double>> v; for(double t:y) v.push_back(std::complex<double>(t,cx?-2*t:0));
  Result::Ref rr; Result &res=rr<<=new Result(1); VellSet &vs=res.setNewVellSet(0); vs.setValue(new Vells(vells(ax?1:n,ax?n:1,cx,v))); res.setCells(a,DMI::AUTOCLONE);
  DMI::Record ex; ex[HIID("Mode")]=1; int s=F.src("s",rr),nd=F.add("MeqResampler","r",{s},ex); Request::Ref rq(new Request(b,HIID("ev.1"))); Result::Ref out; int code=F.exec(nd,out,*rq);
  string what="interpolating "+SV(y)+" at "+SV(x)+(cx?" complex":""); mc::state(mc::hash(what)*2+ax); MC_CHECK(!(code&Meq::Node::RES_FAIL)&&out->numVellSets()==1&&out->vellSet(0).hasValue(),"interpolate-fail",what);
  const Vells &o=out->vellSet(0).getValue();
  for( size_t k=0;k<q.size();k++ ) { mc::op(); std::complex<double> g=ax?val(o,0,k):val(o,k,0); double r=g.real(); if( cx ) MC_CHECK(std::fabs(g.imag()+2*r)<1e-9*(1+std::fabs(r)),"interpolate-complex",what<<": at "<<S(q[k])<<" got "<<S(r)<<"+i"<<S(g.imag()));
    if( iv[k]>=0 ) MC_CHECK(std::fabs(r-y[iv[k]])<1e-9*(1+std::fabs(r)),"interpolate-point",what<<": at the grid point "<<S(q[k])<<" got "<<S(r));
    else { int i=-1-iv[k]; if( i>0&&i+2<n ) MC_CHECK(r>=y[i]-1e-9&&r<=y[i+1]+1e-9,"interpolate-monotonic",what<<": at "<<S(q[k])<<" got "<<S(r)<<", not between "<<S(y[i])<<" and "<<S(y[i+1])); } }
}
MC_MAIN()
