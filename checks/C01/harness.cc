// C01: hierarchical identifiers: text, order, pack, slicing and wildcard algebra.
#include "mc.h"
#include <DMI/HIID.h>
#include <DMI/AID-DMI.h>
using namespace DMI; using std::string; using std::vector;

static const AtomicID FRESH(7777);      // an atom that occurs in no pattern
typedef vector<int> Seq;                // reference representation: sequence of atom numbers
static HIID mk (const Seq &s) { HIID h; for(int a:s) h.add(AtomicID(a)); return h; }
static Seq seq (const HIID &h) { Seq s; for( auto a:h ) s.push_back(int(a)); return s; }
static string str (const Seq &s) { string o="<"; for(int a:s) o+=std::to_string(a)+" "; return o+">"; }
static int A () { return AidObject.id(); } static int B () { return AidMessage.id(); }

// ---- reference wildcard semantics, by definition: the language of a pattern over concrete identifiers
static bool inlang (const Seq &pat,const Seq &c)
{
  for( size_t i=0;;i++ )
  {
    if( i<pat.size() && pat[i]==-2 ) return true;          // "*": everything from here on
    if( i==pat.size() || i==c.size() ) return i==pat.size() && i==c.size();
    if( pat[i]!=-1 && pat[i]!=c[i] ) return false;
  }
}
static vector<Seq> & universe ()    // all concrete ids up to length 4 over {A,B,1,0,fresh}
{
  static vector<Seq> u;
  if( u.empty() ) { int al[]={A(),B(),1,0,FRESH.id()}; vector<Seq> lv(1); u.push_back(Seq());
    for(int d=0;d<(mc::thorough()?5:4);d++){ vector<Seq> nx; for(auto&s:lv) for(int a:al){ Seq t=s; t.push_back(a); nx.push_back(t); u.push_back(t);} lv=nx; } }
  return u;
}
static Seq pick (int maxlen,const vector<int> &al,bool wild)
{
  Seq s; int n=mc::choose(maxlen+1);
  for( int i=0;i<n;i++ ) s.push_back(al[mc::choose(al.size())]);
  if( wild && mc::flip() ) s.push_back(-2);
  return s;
}

MC_SCENARIO(wildcards,2,8)
{
  vector<int> al={A(),B(),1,-1};
  int L = mc::thorough()?3:2;
  Seq p=pick(L,al,true), q=pick(L,al,true);
  MCLOG("patterns "<<str(p)<<" and "<<str(q));
  HIID hp=mk(p), hq=mk(q);
  // reference: intersection and inclusion of languages over the concrete universe
  bool meet=false, sub=true;
  for( auto &c:universe() ) { bool a=inlang(p,c), b=inlang(q,c); if(a&&b) meet=true; if(a&&!b) sub=false; }
  mc::op(3); mc::state(str(p)+str(q));
  MC_CHECK(hp.matches(hq)==meet,"matches","matches("<<str(p)<<","<<str(q)<<")="<<hp.matches(hq)<<", languages meet: "<<meet);
  MC_CHECK(hp.subsetOf(hq)==sub,"subset","subsetOf("<<str(p)<<","<<str(q)<<")="<<hp.subsetOf(hq)<<", language inclusion: "<<sub);
  bool prefix = true; // concrete prefix test, only for concrete ids
  bool concrete=true; for(int a:p) if(a<0) concrete=false; for(int a:q) if(a<0) concrete=false;
  if( concrete )
  {
    prefix = q.size()<=p.size() && std::equal(q.begin(),q.end(),p.begin());
    MC_CHECK(hp.prefixedBy(hq)==prefix,"prefix","prefixedBy("<<str(p)<<","<<str(q)<<")="<<hp.prefixedBy(hq));
  }
  mc::outcome(string(meet?"m":"-")+(sub?"s":"-")+(concrete?(prefix?"p":"n"):"w"));
}

MC_SCENARIO(wildcard_vs_concrete,1,4)
{
  vector<int> al={A(),B(),1,0,-1};
  Seq p=pick(mc::thorough()?4:3,al,true);
  MCLOG("pattern "<<str(p)<<" against the concrete universe of "<<universe().size());
  HIID hp=mk(p);
  for( auto &c:universe() )
  {
    HIID hc=mk(c); bool r=inlang(p,c); mc::op(3);
    MC_CHECK(hp.matches(hc)==r && hc.matches(hp)==r,"matches","pattern "<<str(p)<<" vs "<<str(c)<<": "<<hp.matches(hc)<<hc.matches(hp)<<" expected "<<r);
    MC_CHECK(hc.subsetOf(hp)==r,"subset","id "<<str(c)<<" subsetOf "<<str(p)<<": "<<hc.subsetOf(hp)<<" expected "<<r);
  }
  mc::state(str(p));
}

MC_SCENARIO(order,1,4)
{
  vector<int> al={A(),B(),0,3,-1,-2,-5};
  int L=2;
  Seq a=pick(L,al,false), b=pick(L,al,false);
  MCLOG("compare "<<str(a)<<" "<<str(b));
  HIID x=mk(a), y=mk(b);
  mc::op(6); mc::state(str(a)+str(b));
  bool eq = a==b;
  MC_CHECK((x==y)==eq && (x!=y)==!eq,"equality","== of "<<str(a)<<str(b)<<" is "<<(x==y));
  MC_CHECK(int(x<y)+int(y<x)+int(eq)==1,"trichotomy",str(a)<<str(b)<<" lt="<<(x<y)<<" gt="<<(y<x)<<" eq="<<eq);
  // transitivity through every third id up to length 1 (and 2 in the thorough tier)
  vector<int> al2={A(),B(),0,3,-1,-2,-5};
  vector<Seq> third(1); for(int i:al2){ third.push_back(Seq(1,i)); for(int j:al2){ third.push_back(Seq{i,j}); } }
  for( auto &c:third ) { HIID z=mk(c); mc::op(); if( x<y && y<z ) MC_CHECK(x<z,"transitivity",str(a)<<"<"<<str(b)<<"<"<<str(c)); }
  if( x==y ) for( auto &c:third ) { HIID z=mk(c); MC_CHECK((x<z)==(y<z)&&(z<x)==(z<y),"order-congruence",str(a)); }
  // a map keyed by ids must hold each id once
  std::map<HIID,int> m; m[x]=1; m[y]=2;
  MC_CHECK(m.size()==(eq?1u:2u) && m[y]==2 && m[x]==(eq?2:1),"map","map of "<<str(a)<<str(b));
  mc::outcome(string(x<y?"<":eq?"=":">"));
}

MC_SCENARIO(sequence_ops,2,8)
{
  vector<int> al={A(),B(),0,5,-3};
  Seq s=pick(mc::thorough()?4:3,al,false);
  HIID h=mk(s); string opn;
  int nops=mc::thorough()?3:2;
  MCLOG("start "<<str(s));
  for( int k=0;k<nops;k++ )
  {
    int o=mc::choose(13); mc::op();
    switch(o)
    {
      case 0: return;
      case 1: { int n=1+mc::choose(3); MCLOG("pop_front "<<n); h.pop_front(n); s.erase(s.begin(),s.begin()+std::min<size_t>(n,s.size())); break; }
      case 2: { int n=1+mc::choose(2); MCLOG("push_front B x"<<n); h.push_front(AtomicID(B()),n); s.insert(s.begin(),n,B()); break; }
      case 3: { int f=mc::choose(4), l=mc::choose(5)-1; MCLOG("subId "<<f<<","<<l); if( f>(int)s.size() || l>=(int)s.size() ) return;
                Seq r; int last = l<0 ? (int)s.size()-1 : l; for(int i=f;i<=last;i++) r.push_back(s[i]);
                h = h.subId(f,l); s=r; break; }
      case 4: { int f=-1-mc::choose(3), l=-1-mc::choose(3); MCLOG("subId "<<f<<","<<l); int n=s.size(); if( n+f<0 || n+l<-1 ) return;
                Seq r; for(int i=n+f;i<=n+l;i++) r.push_back(s[i]); 
                HIID g=h.subId(f,l); h=g; s=r; break; }
      case 5: { MCLOG("concat |A|B.1"); h |= AtomicID(A()); h |= (HIID(AtomicID(B()))|1); s.push_back(A()); s.push_back(B()); s.push_back(1); break; }
      case 6: { MCLOG("self concat"); HIID c=h; h = c|c; Seq t=s; s.insert(s.end(),t.begin(),t.end()); break; }
      case 7: { MCLOG("popLeadIndex"); int r=h.popLeadIndex(), e=0; if( !s.empty() && s[0]>=0 ) { e=s[0]; s.erase(s.begin()); }
                MC_CHECK(r==e,"popLeadIndex","got "<<r<<" expected "<<e); break; }
      case 8: { MCLOG("popTrailIndex"); int r=h.popTrailIndex(), e=0; if( !s.empty() && s.back()>=0 ) { e=s.back(); s.pop_back(); }
                MC_CHECK(r==e,"popTrailIndex","got "<<r<<" expected "<<e); break; }
      case 9: { MCLOG("popLeadSlashes"); int r=h.popLeadSlashes(), e=0; while( !s.empty() && s[0]==-3 ) { s.erase(s.begin()); e++; }
                MC_CHECK(r==e,"popLeadSlashes","got "<<r<<" expected "<<e); break; }
      case 10:{ MCLOG("splitAtSlash"); HIID r=h.splitAtSlash(); Seq e; size_t p=0; while( p<s.size() && s[p]!=-3 ) p++;
                e.assign(s.begin(),s.begin()+p); s.erase(s.begin(),s.begin()+std::min(p+1,s.size()));
                MC_CHECK(seq(r)==e,"splitAtSlash","got "<<str(seq(r))<<" expected "<<str(e)); break; }
      case 11:{ MCLOG("findFirstSlash"); int e=-1; for(size_t i=0;i<s.size();i++) if(s[i]==-3){e=i;break;}
                MC_CHECK(h.findFirstSlash()==e,"findFirstSlash","got "<<h.findFirstSlash()<<" expected "<<e); break; }
      case 12:{ MCLOG("pack/unpack"); char buf[512]; memset(buf,0x5a,sizeof(buf)); size_t left=h.packSize()+8; size_t n=h.pack(buf,left);
                MC_CHECK(n==h.packSize() && n==s.size()*sizeof(int) && left==8,"pack","packed "<<n<<" left "<<left);
                for( size_t i=n;i<sizeof(buf);i++ ) MC_CHECK(buf[i]==0x5a,"pack-overrun","byte "<<i);
                HIID u(buf,n); MC_CHECK(u==h && seq(u)==s,"unpack",str(seq(u))<<" from "<<str(s));
                HIID v=HIID(AtomicID(B()))|A(); v.unpack(buf,n); MC_CHECK(v==h,"unpack-over","");
                if( n ) { size_t small=n-1; bool thrown=false; try { char b2[512]; h.pack(b2,small); } catch( std::exception & ) { thrown=true; } MC_CHECK(thrown,"pack-small","pack into a short block accepted"); }
                bool bad=false; try { HIID w(buf,3); } catch( std::exception & ) { bad=true; } MC_CHECK(bad,"unpack-bad","3-byte block accepted");
                h=u; break; }
    }
    MCLOG("  -> "<<str(s));
    mc::state(str(s));
    MC_CHECK(seq(h)==s,"sequence","identifier is "<<str(seq(h))<<", sequence model "<<str(s));
    MC_CHECK(h.length()==(int)s.size() && h.empty()==s.empty(),"length","");
    HIID c(h); MC_CHECK(c==h && !(c<h) && !(h<c),"copy",""); 
    HIID d=HIID(AtomicID(B()))|3|A()|B(); d=h; MC_CHECK(seq(d)==s,"assign","");
  }
  mc::outcome(str(s));
}

// text: what a text of the grammar denotes, and format/parse round trip
MC_SCENARIO(text,2,8)
{
  static const char *names[]={"Object","message","12","","?","*","0","$Lit","$Four","$x","Bogus_x","9999999999","4294967295","-1"};
  static const char seps[]={'.','_','/',':'};
  int nn=sizeof(names)/sizeof(*names);
  int n=1+mc::choose(mc::thorough()?4:3);
  string t; Seq exp; bool bad=false, lit=false;
  auto addlit=[&](const string &l){ lit=true; size_t w=(l.size()+3)/4; exp.push_back(0x7FFF0000|l.size()); string b=l; b.resize(w*4,'\xff'); for(size_t i=0;i<w;i++){ int x; memcpy(&x,b.data()+4*i,4); exp.push_back(x);} };
  for( int i=0;i<n;i++ )
  {
    int k = mc::choose(n>3?10:nn);
    string nm=names[k]; if( nm=="Bogus_x" ) nm="bogusname";
    t+=nm;
    if( nm=="" ) exp.push_back(-5); 
    else if( nm=="Object" ) exp.push_back(A()); else if( nm=="message" ) exp.push_back(B()); else if( nm=="12" ) exp.push_back(12);
    else if( nm=="?" ) exp.push_back(-1); else if( nm=="*" ) exp.push_back(-2); else if( nm=="0" ) exp.push_back(0);
    else if( nm=="$Lit" ) addlit("lit"); else if( nm=="$Four" ) addlit("four"); else if( nm=="$x" ) addlit("x");
    else { if( !lit ) bad=true; else throw mc::Prune(); }  // unknown names after a literal are literals: not specified
    if( i+1<n ) { char c=seps[mc::choose(n>2?3:4)]; t+=c; if(c=='/') exp.push_back(-3); if(c==':') exp.push_back(-4); }
  }
  if( t=="" ) exp.clear();
  mc::op(); mc::state(t);
  MCLOG("text \""<<t<<"\""<<(bad?" (malformed)":""));
  HIID h; bool thrown=false;
  try { h = HIID(t); } catch( std::exception &e ) { thrown=true; }
  MC_CHECK(thrown==bad,"malformed","text \""<<t<<"\" "<<(thrown?"refused":"accepted as "+str(seq(h))));
  mc::outcome(bad?"bad":str(exp));
  if( bad ) return;
  MC_CHECK(seq(h)==exp,"parse","\""<<t<<"\" parsed as "<<str(seq(h))<<" expected "<<str(exp));
  if( exp.empty() ) return;
  for( char sep : {'_','.'} )
  {
    string s=h.toString(sep); HIID g; bool th=false;
    try { g=HIID(s); } catch( std::exception & ) { th=true; }
    mc::op();
    MC_CHECK(!th && g==h,"roundtrip","\""<<t<<"\" formats to \""<<s<<"\" which parses to "<<(th?"(error)":str(seq(g)))<<" not "<<str(seq(h)));
  }
  // case does not matter, and a custom separator set only changes the separators
  string up=t; for( char &c:up ) c=toupper(c);
  MC_CHECK(HIID(up)==h,"case","\""<<up<<"\"");
}

// every registered atom: name <-> number
MC_SCENARIO(registry,1,1)
{
  int id=-mc::choose(3000);
  if( id==0 || (id<-6 && id>-1000) ) return;  // -7..-999: abstract type codes, which are no identifier atoms
  AtomicID a(id); string s=a.toString(); mc::op();
  if( s.substr(0,2)=="[?" || s=="" ) return;
  mc::state(s); mc::count("registered_atoms");
  AtomicID b(s); MC_CHECK(b==a && b.id()==id,"registry","atom "<<id<<" is \""<<s<<"\" which is atom "<<b.id());
  MC_CHECK(a.index()==-1,"index","");
  MC_CHECK(AtomicID(id).matches(a) && AtomicID(-1).matches(a) && a.matches(AtomicID(-1)),"match","");
  if( id<-6 ) { HIID h=HIID(a)|AtomicID(5)|a; HIID g; bool th=false; if( s.find_first_of("._/:")==string::npos ) { try { g=HIID(h.toString('.')); } catch(std::exception&) { th=true; }
     MC_CHECK(!th&&g==h,"roundtrip","\""<<h.toString('.')<<"\""); } }
}
MC_MAIN()
