// C03: containers. Operation histories on trees of Record/List/Vec/NumArray held by two refs against a plain
// value model; array sub-indexing against plain index arithmetic; scalar conversions.
#include "mc.h"
#include "../common/canon.h"
#include <memory>
#include <functional>
using namespace DMI; using std::string; using std::vector; using std::to_string;

// ------------------------------------------------------------------ value model
struct V { char k='n'; long i=0; string s; vector<V> v; std::map<string,V> f; std::map<string,bool> prot; vector<int> shape; };
static V vint (long i) { V x; x.k='i'; x.i=i; return x; }
static V vstr (string s) { V x; x.k='s'; x.s=s; return x; }
static V vdbl (long i) { V x; x.k='d'; x.i=i; return x; }
static V vvec (vector<int> a) { V x; x.k='v'; for(int i:a) x.v.push_back(vint(i)); return x; }
static V varr (int n,int m,vector<int> a) { V x; x.k='a'; x.shape={n,m}; for(int i:a) x.v.push_back(vint(i)); return x; }
static V vrec () { V x; x.k='r'; return x; }
static V vlist () { V x; x.k='l'; return x; }
static string text (const V &x)
{
  string s;
  switch(x.k)
  {
    case 'i': return "Vec<int,scalar>("+to_string(x.i)+")";
    case 'd': return "Vec<double,scalar>("+to_string(x.i)+".5)";
    case 's': return "Vec<string,scalar>('"+x.s+"')";
    case 'v': s="Vec<int>("; for(size_t i=0;i<x.v.size();i++) s+=(i?",":"")+to_string(x.v[i].i); return s+")";
    case 'a': s="Array<int>["+to_string(x.shape[0])+"x"+to_string(x.shape[1])+"]("; for(size_t i=0;i<x.v.size();i++) s+=(i?",":"")+to_string(x.v[i].i); return s+")";
    case 'r': s="DMIRecord{"; for(auto &k:x.f) s+=k.first+"="+text(k.second)+"; "; return s+"}";
    case 'l': s="DMIList["; for(auto &k:x.v) s+=text(k)+"; "; return s+"]";
  }
  return "null";
}
static string low (string s) { for(auto&c:s) c=tolower(c); return s; }

// ------------------------------------------------------------------ histories
enum Exp { OK, FAIL, EITHER, PROT };   // PROT: must be refused, nested write below a protected field
struct World { Record::Ref r[2]; V m[2]; };
struct Op { string name; std::function<void(World&)> real; std::function<Exp(World&)> model; };
static const char *FN[2]={"A","B"};

static BObj * mkobj (int k)
{
  switch(k) {
    case 0: { Record *p=new Record; (*p)["A"]=int(5); return p; }
    case 1: { List *l=new List; l->addBack(new Vec(Tpint,-1)); l->addBack(new Record); return l; }
    case 2: { Vec *v=new Vec(Tpint,3); for(int i=0;i<3;i++) (*v)[i]=10+i; return v; }
    default:{ NumArray *a=new NumArray(Tpint,LoShape(2,2)); for(int i=0;i<4;i++) ((int*)a->getDataPtr())[i]=20+i; return a; }
  }
}
static V mkval (int k)
{
  switch(k) { case 0: { V x=vrec(); x.f["A"]=vint(5); return x; } case 1: { V x=vlist(); x.v={vint(0),vrec()}; return x; }
    case 2: return vvec({10,11,12}); default: return varr(2,2,{20,21,22,23}); }
}
static V * fld (V &r,const string &n) { auto i=r.f.find(n); return i==r.f.end()?0:&i->second; }
static Exp assign (V &rec,const string &X,const V &val,bool replace)
{
  if( rec.prot[X] ) return FAIL;
  V *p=fld(rec,X);
  if( !p || replace ) { rec.f[X]=val; return OK; }
  if( p->k==val.k ) { *p=val; return OK; }
  return EITHER;
}
static vector<Op> makeops ()
{
  vector<Op> o;
  for( int ri=0;ri<2;ri++ )
  {
    string R=ri?"b":"a";
    // b gets fewer operations (the two are symmetric)
    for( int fi=0;fi<(ri?1:2);fi++ )
    {
      string X=FN[fi];
      auto add=[&](string n,std::function<void(World&)> f,std::function<Exp(World&)> g){ o.push_back({R+n,f,g}); };
      add("["+X+"]=7",[=](World&w){ w.r[ri][X]=int(7); },[=](World&w){ return assign(w.m[ri],X,vint(7),false); });
      add("["+X+"].replace()='xy'",[=](World&w){ w.r[ri][X].replace()=string("xy"); },[=](World&w){ return assign(w.m[ri],X,vstr("xy"),true); });
      for( int k=0;k<4;k++ )
        add("["+X+"].replace()<<=new"+to_string(k),[=](World&w){ w.r[ri][X].replace() <<= mkobj(k); },[=](World&w){ return assign(w.m[ri],X,mkval(k),true); });
      add("["+X+"][B]=8",[=](World&w){ w.r[ri][X]["B"]=int(8); },[=](World&w){ V*p=fld(w.m[ri],X); if(!p) return FAIL; if(w.m[ri].prot[X]) return PROT; if(p->k!='r') return EITHER; return assign(*p,"B",vint(8),false); });
      add("["+X+"][A].replace()<<=rec",[=](World&w){ w.r[ri][X]["A"].replace() <<= mkobj(0); },[=](World&w){ V*p=fld(w.m[ri],X); if(!p) return FAIL; if(w.m[ri].prot[X]) return PROT; if(p->k!='r') return EITHER; return assign(*p,"A",mkval(0),true); });
      add("["+X+"][A][A]=9",[=](World&w){ w.r[ri][X]["A"]["A"]=int(9); },[=](World&w){ V*p=fld(w.m[ri],X); if(!p) return FAIL; if(w.m[ri].prot[X]) return PROT; if(p->k!='r') return EITHER; V*q=fld(*p,"A"); if(!q) return FAIL; if(q->k!='r') return EITHER; return assign(*q,"A",vint(9),false); });
      add(".remove("+X+")",[=](World&w){ string before = w.r[ri]->hasField(HIID(X)) ? canon::of(w.r[ri]->get(HIID(X))) : ""; ObjRef r=w.r[ri]().removeField(HIID(X)); MC_CHECK(r.valid() && canon::of(r)==before,"removed","removeField returned "<<(r.valid()?canon::of(r):"nothing")<<" for "<<before); },
          [=](World&w){ if(!fld(w.m[ri],X)) return FAIL; if( w.m[ri].prot[X] ) return FAIL; w.m[ri].f.erase(X); return OK; });
      add("["+X+"].remove()",[=](World&w){ w.r[ri][X].remove(); },[=](World&w){ if(!fld(w.m[ri],X)) return EITHER; if( w.m[ri].prot[X] ) return FAIL; w.m[ri].f.erase(X); return OK; });
      // sharing: field of one put into the other
      add("."+X+" shared with other.B",[=](World&w){ ObjRef r=w.r[ri]->get(HIID(X)); w.r[1-ri]().add(AtomicID("B"),r,DMI::REPLACE); },
          [=](World&w){ V*p=fld(w.m[ri],X); if(!p) return FAIL; if(w.m[1-ri].prot["B"]) return FAIL; V c=*p; w.m[1-ri].f["B"]=c; return OK; });
      // lists
      auto lst=[=](World&w)->V*{ V*p=fld(w.m[ri],X); return p && !w.m[ri].prot[X] && p->k=='l' ? p : 0; };
      auto rl=[=](World&w)->List&{ return w.r[ri]().as<List>(HIID(X)); };
      for( int pos : {0,1,-1,-2} )
      {
        add("."+X+".put("+to_string(pos)+")",[=](World&w){ rl(w).put(pos,mkobj(2)); },[=](World&w){ V*p=lst(w); if(!p) return FAIL; int n=p->v.size(), at = pos>=0?pos:n+1+pos; if( at<0||at>n ) return FAIL; p->v.insert(p->v.begin()+at,mkval(2)); return OK; });
        if( pos!=1 )
        {
        add("."+X+".replace("+to_string(pos)+")",[=](World&w){ rl(w).replace(pos,mkobj(0)); },[=](World&w){ V*p=lst(w); if(!p) return FAIL; int n=p->v.size(), at = pos>=0?pos:n+pos; if( at<0||at>=n ) return FAIL; p->v[at]=mkval(0); return OK; });
        add("."+X+".remove("+to_string(pos)+")",[=](World&w){ rl(w).remove(pos); },[=](World&w){ V*p=lst(w); if(!p) return FAIL; int n=p->v.size(), at = pos>=0?pos:n+pos; if( at<0||at>=n ) return FAIL; p->v.erase(p->v.begin()+at); return OK; });
        }
      }
      add("."+X+".append(same)",[=](World&w){ List::Ref c=w.r[ri]->get(HIID(X)); rl(w).append(*c); },[=](World&w){ V*p=lst(w); if(!p) return FAIL; V c=*p; for(auto &x:c.v) p->v.push_back(x); return OK; });
      if( !ri ) add("["+X+"][1][A]=3",[=](World&w){ w.r[ri][X][1]["A"]=int(3); },[=](World&w){ V*p=fld(w.m[ri],X); if(!p) return FAIL; if(w.m[ri].prot[X]) return PROT; if( p->k!='l' || p->v.size()<2 || p->v[1].k!='r' ) return EITHER; return assign(p->v[1],"A",vint(3),false); });
      // vectors and arrays
      add("["+X+"][2]=6",[=](World&w){ w.r[ri][X][2]=int(6); },[=](World&w){ V*p=fld(w.m[ri],X); if(!p) return FAIL; if(w.m[ri].prot[X]) return PROT; 
        if( p->k=='v' && p->v.size()>2 ) { p->v[2]=vint(6); return OK; } if( p->k=='v' && p->v.size()==2 ) { p->v.push_back(vint(6)); return OK; }
        if( p->k=='l' && p->v.size()==2 ) { p->v.push_back(vint(6)); return OK; } if( p->k=='l' && p->v.size()<2 ) return FAIL;
        if( p->k=='a' ) return FAIL; return EITHER; });
      if( !ri )
      {
        add("["+X+"][3]=4",[=](World&w){ w.r[ri][X][3]=int(4); },[=](World&w){ V*p=fld(w.m[ri],X); if(!p) return FAIL; if(w.m[ri].prot[X]) return PROT; if( p->k=='v' && p->v.size()==3 ) { p->v.push_back(vint(4)); return OK; } if( p->k=='v' && p->v.size()<3 ) return FAIL; return EITHER; });
        add("["+X+"][-1 of vec].remove",[=](World&w){ int n=((const Record&)*w.r[ri])[X].size(Tpint); w.r[ri][X][n>0?n-1:0].remove(); },[=](World&w){ V*p=fld(w.m[ri],X); if(!p) return FAIL; if(w.m[ri].prot[X]) return PROT; if( p->k=='v' && p->v.size()>1 ) { p->v.pop_back(); return OK; } return EITHER; });
      }
      add(".as_wp["+X+"][0]=1",[=](World&w){ int n; int *p=w.r[ri][X].as_wp<int>(n); p[0]=1; },[=](World&w){ V*p=fld(w.m[ri],X); if(!p) return FAIL; if(w.m[ri].prot[X]) return PROT; 
        if( p->k=='i' ) { *p=vint(1); return OK; } if( p->k=='v' || p->k=='a' ) { p->v[0]=vint(1); return OK; } return EITHER; });
      add("["+X+"]['0.1']=5",[=](World&w){ w.r[ri][X][HIID("0.1")]=int(5); },[=](World&w){ V*p=fld(w.m[ri],X); if(!p) return FAIL; if(w.m[ri].prot[X]) return PROT; if( p->k=='a' ) { p->v[1]=vint(5); return OK; } return EITHER; });
      add(".protect("+X+")",[=](World&w){ w.r[ri]().protectField(HIID(X)); },[=](World&w){ if(!fld(w.m[ri],X)) return FAIL; w.m[ri].prot[X]=true; return OK; });
      if( !ri ) add(".unprotect("+X+")",[=](World&w){ w.r[ri]().unprotectField(HIID(X)); },[=](World&w){ if(!fld(w.m[ri],X)) return FAIL; w.m[ri].prot[X]=false; return OK; });
      add(".insert("+X+")",[=](World&w){ w.r[ri]().insert(AtomicID(X),mkobj(0)); },[=](World&w){ if(fld(w.m[ri],X)) return FAIL; w.m[ri].f[X]=mkval(0); w.m[ri].prot[X]=false; return OK; });
    }
    for( int ov=0;ov<2;ov++ )
      o.push_back({R+(ov?".merge(other,overwrite)":".merge(other)"),[=](World&w){ w.r[ri]().merge(*w.r[1-ri],ov); },
        [=](World&w){ V &d=w.m[ri],&s=w.m[1-ri]; if( ov ) for( auto &k:s.f ) if( fld(d,k.first) && d.prot[k.first] ) return FAIL;
          for( auto &k:s.f ) if( !fld(d,k.first) || ov ) { d.f[k.first]=k.second; d.prot[k.first]=s.prot[k.first]; } return OK; }});
    o.push_back({R+"=copy of the other",[=](World&w){ w.r[ri].copy(w.r[1-ri]); },[=](World&w){ w.m[ri]=V(w.m[1-ri]); return OK; }});
    if( !ri ) o.push_back({"a=deep copy",[=](World&w){ w.r[0].privatize(DMI::DEEP); },[=](World&w){ return OK; }});
  }
  return o;
}
static void initial (World &w,int k)
{
  for( int i=0;i<2;i++ ) { w.r[i] <<= new Record; w.m[i]=vrec(); }
  auto put=[&](const char *x,int j){ w.r[0]()[x] <<= mkobj(j); w.m[0].f[x]=mkval(j); };
  if( k==1 ) { put("A",0); put("B",1); }
  if( k==2 ) { put("A",1); put("B",2); w.r[1].copy(w.r[0]); w.m[1]=w.m[0]; }
  if( k==3 ) { put("A",3); put("B",0); w.r[1].copy(w.r[0]); w.m[1]=w.m[0]; }
  if( k==4 ) { put("A",0); w.r[0]()["A"]["B"] <<= mkobj(1); w.m[0].f["A"].f["B"]=mkval(1); w.r[0]()["B"]=2.5; w.m[0].f["B"]=vdbl(2); w.r[1].copy(w.r[0]); w.m[1]=w.m[0]; }
  if( k==5 )     // both rebuilt from blocks, fields not unpacked yet
  { 
    put("A",0); put("B",1);
    auto put1=[&](const char *x,int j){ w.r[1]()[x] <<= mkobj(j); w.m[1].f[x]=mkval(j); };
    put1("A",2); put1("B",0);
    for( int i=0;i<2;i++ ) { BlockSet set; w.r[i]->toBlock(set); Record *p=new Record; p->fromBlock(set); w.r[i].detach(); w.r[i]<<=p; }
  }
}
static void compare (World &w,const string &hist)
{
  for( int i=0;i<2;i++ )
  {
    string got=canon::of(ObjRef(w.r[i])), want=text(w.m[i]);
    MC_CHECK(low(got)==low(want),"content","after "<<hist<<": "<<(i?"b":"a")<<" is\n  "<<got<<"\nexpected\n  "<<want);
    const Record &r=*w.r[i]; int n=0;
    for( int f=0;f<2;f++ )
    {
      const V *p=fld(w.m[i],FN[f]); bool has=p!=0; n+=has;
      MC_CHECK(r.hasField(HIID(FN[f]))==has && r[FN[f]].exists()==has,"exists","after "<<hist<<": existence of "<<FN[f]);
      if( p && p->k=='i' ) { MC_CHECK(r[FN[f]].as<int>()==p->i && r[FN[f]].as<double>()==p->i,"read","after "<<hist<<": as<int> of "<<FN[f]); }
      if( p && p->k=='l' ) { const List &l=r.as<List>(HIID(FN[f])); int s=p->v.size(); MC_CHECK(l.numItems()==s && r[FN[f]].size(TpDMIObjRef)==s,"listsize","after "<<hist<<": size");
        for( int j=-s-1;j<=s;j++ ) { bool ok=true; string t; try { t=canon::of(l.get(j)); } catch( std::exception & ) { ok=false; }
          bool wok = j<s && j>=-s; MC_CHECK(ok==wok,"listget","after "<<hist<<": get("<<j<<") of "<<s<<" items "<<(ok?"succeeded":"failed")); 
          if( wok ) { string wt=text(p->v[j<0?j+s:j]); MC_CHECK(low(t)==low(wt),"listget","after "<<hist<<": get("<<j<<") = "<<t<<" expected "<<wt); } } }
      if( p && p->k=='v' ) { int s=p->v.size(); MC_CHECK(r[FN[f]].size(Tpint)==s,"vecsize","after "<<hist); for( int j=0;j<s;j++ ) MC_CHECK(r[FN[f]][j].as<int>()==p->v[j].i,"vecget","after "<<hist); 
        vector<int> vv=r[FN[f]].as_vector<int>(); MC_CHECK(int(vv.size())==s,"asvector","after "<<hist<<": as_vector size "<<vv.size()); }
    }
    MC_CHECK(r.size()==n,"size","after "<<hist<<": record size "<<r.size()<<" expected "<<n);
    // "#n" visits every field once
    std::map<string,int> seen; for( int j=0;j<n;j++ ) { string t=low(canon::of(r[AidHash|AtomicID(j)].ref())); seen[t]++; }
    std::map<string,int> wseen; for( auto &k:w.m[i].f ) wseen[low(text(k.second))]++;
    MC_CHECK(seen==wseen,"hashindex","after "<<hist<<": #n access");
  }
}
static void history (const vector<Op> &ops,int init,int depth,const vector<int> &sub)
{
  World w; initial(w,init); string hist="init"+to_string(init);
  for( int d=0;d<depth;d++ )
  {
    int c=mc::choose(sub.size()); const Op &op=ops[sub[c]]; mc::op();
    World before; before.m[0]=w.m[0]; before.m[1]=w.m[1];
    hist+="; "+op.name; MCLOG(op.name);
    Exp e=op.model(w);
    if( e!=OK ) { w.m[0]=before.m[0]; w.m[1]=before.m[1]; }
    bool ok=true; string what;
    try { op.real(w); } catch( mc::Prune & ) { throw; } catch( std::exception &x ) { ok=false; what=canon::what(x); }
    if( e==OK ) MC_CHECK(ok,"refused","after "<<hist<<": operation failed: "<<what);
    if( e==FAIL ) MC_CHECK(!ok,"accepted","after "<<hist<<": operation should have been refused");
    if( e==PROT && ok ) { mc::fail("nested-write-protected","after "+hist+": nested write below a protected field was accepted"); throw mc::Prune(); }
    if( e==EITHER && ok ) throw mc::Prune();
    if( init!=5 || d+1==depth || !ok ) compare(w,hist);     // comparing unpacks fields
    if( !ok && d+1<depth ) { mc::outcome("refused"); throw mc::Prune(); }   // nothing changed: same as a shorter history
    mc::state(text(w.m[0])+text(w.m[1]));
  }
  mc::outcome(text(w.m[0])+text(w.m[1]));
}
MC_SCENARIO(trees,32,64)
{
  static vector<Op> ops=makeops(); static vector<int> all; if( all.empty() ) for( size_t i=0;i<ops.size();i++ ) all.push_back(i);
  int init=mc::choose(6);
  history(ops,init,3,all);
}
// longer histories of the operations that share and modify
MC_SCENARIO(sharing,16,64)
{
  static vector<Op> ops=makeops(); static vector<int> sub;
  if( sub.empty() ) for( size_t i=0;i<ops.size();i++ ) { const string &n=ops[i].name;
    for( const char *s : {"a[A]=7","a[A][B]=8","a[A][A].replace()<<=rec","a[A][A][A]=9","a.remove(A)","a.A shared","a.B shared","a.protect(A)","b[A][B]=8","b[A][A][A]=9","b=copy","a=copy","b.merge(other)","a.merge(other,overwrite)","a.A.put(0)","a[B][1][A]=3","b.A shared","a[A][2]=6","a.as_wp[A]"} )
      if( n.compare(0,strlen(s),s)==0 ) { sub.push_back(i); break; } }
  int init=1+mc::choose(5);
  history(ops,init,mc::thorough()?5:4,sub);
}

// ------------------------------------------------------------------ array sub-indexing
struct Sel { string txt; bool bad; vector<int> idx; bool keep; };
static vector<Sel> selectors (int len)
{
  vector<Sel> r; 
  for( int i=0;i<=len;i++ ) r.push_back({to_string(i),i>=len,{i},false});
  vector<int> all; for( int i=0;i<len;i++ ) all.push_back(i);
  r.push_back({"*",false,all,true});
  for( int s=0;s<=len;s++ ) for( int e=0;e<=len;e++ ) for( int inc=0;inc<=3;inc++ )
  {
    Sel x; x.txt=to_string(s)+":"+to_string(e)+(inc?":"+to_string(inc):string()); x.keep=true; x.bad = s>=len || e>=len || e<s;
    for( int i=s;i<=e;i+=(inc?inc:1) ) x.idx.push_back(i);
    r.push_back(x);
  }
  return r;
}
template<int N> static string arrtext (const blitz::Array<int,N> &a) { string s="["; for( int i=0;i<N;i++ ) s+=to_string(a.extent(i))+" "; s+="]"; for( auto i=a.begin();i!=a.end();++i ) s+=to_string(*i)+","; return s; }
MC_SCENARIO(subarrays,8,16)
{
  static const vector<vector<int>> shapes={{1},{5},{2,3},{3,1},{2,3,2},{1,4,2}};
  const vector<int> &sh=shapes[mc::choose(shapes.size())]; int nd=sh.size();
  int given = 1+mc::choose(nd);          // number of axes mentioned
  string txt; bool bad=false; vector<vector<int>> idx; vector<bool> keep; int nk=0;
  for( int i=0;i<nd;i++ )
  {
    vector<Sel> s=selectors(sh[i]); 
    int c = i<given ? (i==2?mc::choose(std::min<int>(s.size(),mc::thorough()?99:12)):mc::choose(s.size())) : sh[i]+1;
    if( i<given ) txt+=(i?".":"")+s[c].txt;
    bad = bad||s[c].bad; idx.push_back(s[c].idx); keep.push_back(s[c].keep); nk+=s[c].keep;
  }
  mc::op(); mc::state(to_string(nd)+"/"+txt+"/"+to_string(sh[0]));
  LoShape shape(LoShape::SETRANK|nd); int tot=1; for( int i=0;i<nd;i++ ) { shape[i]=sh[i]; tot*=sh[i]; }
  ObjRef ref; NumArray *a=new NumArray(Tpint,shape); ref<<=a; for( int i=0;i<tot;i++ ) ((int*)a->getDataPtr())[i]=100+i;
  Record::Ref rec; rec<<=new Record; rec["A"]<<=ref; Record::Ref other; other.copy(rec);
  const Record &cr=*rec; HIID id(txt);
  // expected elements in order
  vector<int> pos; string want="[";
  if( !bad )
  {
    for( int i=0;i<nd;i++ ) if( keep[i] ) want+=to_string(idx[i].size())+" ";
    want+="]";
    std::function<void(int,int)> walk=[&](int ax,int off){ if( ax==nd ) { pos.push_back(off); return; } for( int x:idx[ax] ) walk(ax+1,off*sh[ax]+x); };
    walk(0,0);
    for( int p:pos ) want+=to_string(100+p)+",";
  }
  string got; bool ok=true; string what;
  MCLOG("array "<<nd<<"d, index "<<txt<<(bad?" (bad)":""));
  try {
    if( !bad && nk==0 ) got="[]"+to_string(cr["A"][id].as<int>())+",";
    else if( nk==1 ) got=arrtext<1>(cr["A"][id].as<blitz::Array<int,1> >());
    else if( nk==2 ) got=arrtext<2>(cr["A"][id].as<blitz::Array<int,2> >());
    else if( nk==3 ) got=arrtext<3>(cr["A"][id].as<blitz::Array<int,3> >());
    else got="[]"+to_string(cr["A"][id].as<int>());
  } catch( std::exception &x ) { ok=false; what=canon::what(x); }
  if( bad ) { MC_CHECK(!ok,"index-accepted","index "<<txt<<" outside the array was accepted: "<<got); mc::outcome("bad"); return; }
  MC_CHECK(ok,"index-refused","index "<<txt<<" refused: "<<what);
  MC_CHECK(got==want,"index-read","index "<<txt<<" gives "<<got<<" expected "<<want);
  // write through the index; the shared copy must not change
  if( nk==0 ) rec["A"][id]=int(7);
  else if( nk==1 ) { blitz::Array<int,1> x(int(idx[0].size())); int n=1; for( int i=0;i<nd;i++ ) if( keep[i] ) n=idx[i].size(); x.resize(n); x=7; rec["A"][id]=x; }
  else if( nk==2 ) { vector<int> e; for( int i=0;i<nd;i++ ) if( keep[i] ) e.push_back(idx[i].size()); blitz::Array<int,2> x(e[0],e[1]); x=7; rec["A"][id]=x; }
  else { blitz::Array<int,3> x(int(idx[0].size()),int(idx[1].size()),int(idx[2].size())); x=7; rec["A"][id]=x; }
  vector<int> w(tot); for( int i=0;i<tot;i++ ) w[i]=100+i; for( int p:pos ) w[p]=7;
  ObjRef r1=rec["A"].ref(), r2=other["A"].ref();
  const int *p1=(const int*)static_cast<const NumArray&>(*r1).getConstDataPtr(), *p2=(const int*)static_cast<const NumArray&>(*r2).getConstDataPtr();
  for( int i=0;i<tot;i++ )
  {
    MC_CHECK(p1[i]==w[i],"index-write","after writing index "<<txt<<" element "<<i<<" is "<<p1[i]<<" expected "<<w[i]);
    MC_CHECK(p2[i]==100+i,"index-shared","writing index "<<txt<<" changed the shared copy at "<<i);
  }
  mc::outcome(got);
}

// ------------------------------------------------------------------ scalar conversions
template<class T> static void putconv (Record &r,int v) { r["A"]=T(v); }
template<class S,class T> static void conv1 (int v)
{
  Record::Ref r; r<<=new Record; r["A"]=S(v); 
  T got=T(); bool ok=true; try { got=r["A"].as<T>(); } catch( std::exception & ) { ok=false; }
  T want=static_cast<T>(S(v));
  mc::op(); mc::state(string(typeid(S).name())+typeid(T).name()+to_string(v));
  MC_CHECK(ok,"conv","conversion "<<typeid(S).name()<<"->"<<typeid(T).name()<<" refused");
  MC_CHECK(got==want,"conv","conversion "<<typeid(S).name()<<"->"<<typeid(T).name()<<" of "<<v<<" gives "<<got<<" expected "<<want);
  // assignment of a T to an existing S field keeps the field's type and converts the value, in a shared record too
  Record::Ref r2; r2.copy(r); TypeId t0=r["A"].type();
  r2["A"]=T(v?v-1:3); 
  MC_CHECK(r["A"].as<T>()==want,"conv-shared","assignment changed the shared copy");
  MC_CHECK(r2["A"].type()==t0,"conv-type","assignment changed the type of the field");
  S w2=static_cast<S>(T(v?v-1:3)); MC_CHECK(r2["A"].as<S>()==w2,"conv-assign","assigning "<<typeid(T).name()<<" to a "<<typeid(S).name()<<" field");
}
template<class S> static void conv (int t,int v)
{
  switch(t) { case 0: conv1<S,bool>(v); break; case 1: conv1<S,char>(v); break; case 2: conv1<S,short>(v); break; case 3: conv1<S,int>(v); break; case 4: conv1<S,long>(v); break;
    case 5: conv1<S,float>(v); break; case 6: conv1<S,double>(v); break; case 7: conv1<S,unsigned char>(v); break; case 8: conv1<S,unsigned>(v); break; case 9: conv1<S,long long>(v); break; }
}
MC_SCENARIO(conversions,1,1)
{
  static const int vals[]={0,1,2,100};
  int s=mc::choose(10), t=mc::choose(10), v=vals[mc::choose(4)];
  switch(s) { case 0: conv<bool>(t,v); break; case 1: conv<char>(t,v); break; case 2: conv<short>(t,v); break; case 3: conv<int>(t,v); break; case 4: conv<long>(t,v); break;
    case 5: conv<float>(t,v); break; case 6: conv<double>(t,v); break; case 7: conv<unsigned char>(t,v); break; case 8: conv<unsigned>(t,v); break; case 9: conv<long long>(t,v); break; }
}
MC_MAIN()
