// C04: any object tree survives serialization to blocks.
#include "mc.h"
#include "../common/canon.h"
#include <DMI/DynamicTypeManager.h>
#include <OCTOPUSSY/Message.h>
#include <OCTOPUSSY/AID-OCTOPUSSY.h>
#include <MEQ/Result.h>
#include <MEQ/Request.h>
#include <MEQ/VellSet.h>
#include <MEQ/Vells.h>
#include <MEQ/Cells.h>
#include <MEQ/Domain.h>
#include <MEQ/Polc.h>
#include <MEQ/PolcLog.h>
#include <MEQ/ComposedPolc.h>
using namespace DMI; using std::string; using std::vector; using Octopussy::Message;

// typed view: what the class interface reports (not only the record fields)
static string D (double x) { char b[40]; snprintf(b,40,"%.17g",x); return b; }
static string view (const BObj &o,int depth)
{
  std::ostringstream s;
  if( const Message *m=dynamic_cast<const Message*>(&o) )
  {
    s<<"Message("<<m->id().toString()<<","<<m->from().toString()<<"->"<<m->to().toString()<<" p"<<m->priority()<<" s"<<m->state()<<" h"<<m->hops()<<" f"<<m->flags_
     <<" pay="<<canon::of(m->payload(),depth+1)<<" blk="<<(m->block().valid()?canon::hexd(m->data(),m->datasize()):string("none"))<<")";
    return s.str();
  }
  if( const Meq::VellSet *v=dynamic_cast<const Meq::VellSet*>(&o) )
  {
    s<<"VellSet(shape"; for(size_t i=0;i<v->shape().size();i++) s<<","<<v->shape()[i];
    s<<" val="<<(v->hasValue()?canon::arr(v->getValue()):string("-"))<<(v->hasValue()&&v->getValue().hasDataFlags()?"+fl:"+canon::arr(v->getValue().dataFlags()):string(""))<<" sp"<<v->numSpids()<<"x"<<(v->numSpids()?v->numPertSets():0);
    for(int i=0;i<v->numSpids();i++) { s<<" "<<v->getSpid(i); for(int j=0;j<v->numPertSets();j++) { s<<"/"<<D(v->getPerturbation(i,j)); s<<"="<<canon::arr(v->getPerturbedValue(i,j)); } }
    s<<" fl="<<(v->hasDataFlags()?canon::arr(v->dataFlags()):string("-"))<<" w="<<(v->hasDataWeights()?canon::arr(v->dataWeights()):string("-"))<<" fails"<<(v->isFail()?v->numFails():0);
    if( v->isFail() ) for(int i=0;i<v->numFails();i++) s<<":"<<v->getFailMessage(i);
    s<<")"; return s.str();
  }
  if( const Meq::Domain *d=dynamic_cast<const Meq::Domain*>(&o) )
  { s<<"Domain("; for(int i=0;i<Meq::Axis::MaxAxis;i++) if( d->isDefined(i) ) s<<i<<":"<<D(d->start(i))<<".."<<D(d->end(i))<<" "; s<<")"; return s.str(); }
  if( const Meq::Cells *c=dynamic_cast<const Meq::Cells*>(&o) )
  {
    s<<"Cells("<<view(c->domain(),depth)<<" rank"<<c->rank(); 
    for(int i=0;i<Meq::Axis::MaxAxis;i++) if( c->isDefined(i) ) { s<<" ax"<<i<<"["; for(int k=0;k<c->ncells(i);k++) s<<D(c->center(i)(k))<<"/"<<D(c->cellSize(i)(k))<<" "; 
       s<<"] seg"; for(int k=0;k<c->numSegments(i);k++) s<<c->segmentStart(i)(k)<<"-"<<c->segmentEnd(i)(k)<<" "; }
    s<<")"; return s.str();
  }
  if( const Meq::Result *r=dynamic_cast<const Meq::Result*>(&o) )
  {
    s<<"Result(dims"; for(size_t i=0;i<r->dims().size();i++) s<<","<<r->dims()[i];
    if( r->hasCells() ) s<<" "<<view(r->cells(),depth); 
    for(int i=0;i<r->numVellSets();i++) s<<" "<<view(r->vellSet(i),depth);
    s<<")"; return s.str();
  }
  if( const Meq::Request *q=dynamic_cast<const Meq::Request*>(&o) )
  { s<<"Request("<<q->id().toString()<<" next "<<q->nextId().toString()<<" "<<(q->hasCells()?view(q->cells(),depth):string("-"))<<" rider "<<(q->hasRider()?canon::of(q->rider(),depth+1):string("-"))<<")"; return s.str(); }
  if( const Meq::Funklet *f=dynamic_cast<const Meq::Funklet*>(&o) )
  {
    // axes along which there is only one coefficient, and an empty domain, mean the same as absent ones
    s<<f->objectType().toString()<<"("; for(int i=0;i<f->rank();i++) if( f->ncoeff() && i<f->coeff().rank() && f->coeff().shape()[i]>1 ) s<<" "<<f->getAxis(i)<<":"<<D(f->getOffset(i))<<":"<<D(f->getScale(i));
    s<<" p"<<D(f->getPerturbation())<<" w"<<D(f->getWeight())<<" db"<<f->getDbId()<<" c"<<(f->ncoeff()?canon::arr(f->coeff()):string("-"))<<" "<<(f->hasDomain()&&(f->domain().isDefined(0)||f->domain().isDefined(1))?view(f->domain(),depth):string("-"))<<")";
    return s.str();
  }
  return "";
}
static struct Init { Init () { canon::extra()=view; } } init_;

// changes one stored value somewhere inside the object; false if there is nothing to change
static bool mutate (BObj &o)
{
  // classes with shortcuts into their own fields change through their own interface
  if( Meq::VellSet *v=dynamic_cast<Meq::VellSet*>(&o) ) { if( v->isFail() ) return false; v->setValue(new Meq::Vells(77.25)); return true; }
  if( Meq::Result *q=dynamic_cast<Meq::Result*>(&o) ) { for(int i=0;i<q->numVellSets();i++) if( !q->vellSet(i).isFail() ) return mutate(q->vellSetWr(i)); return false; }
  if( Meq::Cells *c=dynamic_cast<Meq::Cells*>(&o) ) { c->setCells(0,5.,11.,3); return true; }
  if( Meq::Domain *d=dynamic_cast<Meq::Domain*>(&o) ) { d->defineAxis(0,100,200); return true; }
  if( Meq::Funklet *f=dynamic_cast<Meq::Funklet*>(&o) ) { f->setPerturbation(0.125); return true; }
  if( Meq::Request *q=dynamic_cast<Meq::Request*>(&o) ) { q->setNextId(HIID("7.7.7")); return true; }
  if( Record *r=dynamic_cast<Record*>(&o) )
  {
    vector<HIID> ids; for( Record::const_iterator i=((const Record*)r)->begin(); i!=((const Record*)r)->end(); i++ ) ids.push_back(i.id());
    for( auto &id:ids ) 
    { 
      Record::iterator i=r->begin(); while( i!=r->end() && i.id()!=id ) i++;
      if( i.field().valid() && mutate(i.field().ref().dewr()) ) return true;
    }
    return false;
  }
  if( List *l=dynamic_cast<List*>(&o) )
  { for( List::iterator i=l->begin(); i!=l->end(); i++ ) if( i->valid() && mutate(i->dewr()) ) return true; return false; }
  if( Vec *v=dynamic_cast<Vec*>(&o) )
  {
    if( !v->valid() ) return false;
    TypeInfo ti=TypeInfo::find(v->type());
    if( ti.category==TypeInfo::DYNAMIC ) 
    { 
      for(int i=0;i<v->mysize();i++) if( v->isValid(i) && v->type()==TpDMIRecord ) { if( mutate(v->as<Record>(i)) ) return true; }
      return false; 
    }
    if( v->type()==Tpstring ) { (*v)[0]=string("mutant"); return true; }
    if( v->type()==TpDMIHIID ) { (*v)[0]=HIID("M.5"); return true; }
    if( v->type()==Tpint ) { (*v)[0]=int(-77); return true; }
    if( v->type()==Tpdouble ) { (*v)[0]=double(-77.25); return true; }
    if( v->type()==Tpbool ) { (*v)[0]=!(*v)[0].as<bool>(); return true; }
    return false;
  }
  if( NumArray *a=dynamic_cast<NumArray*>(&o) )
  { 
    if( !a->valid() || !a->size() ) return false; 
    if( a->elementType()==Tpstring ) { *(string*)a->getDataPtr()="mutant"; return true; }
    ((char*)a->getDataPtr())[0]^=1; return true; 
  }
  if( Message *m=dynamic_cast<Message*>(&o) )
  { if( m->block().valid() && m->datasize() ) { ((char*)m->data())[0]^=1; return true; } return m->payload().valid() && mutate(m->payload().dewr()); }
  return false;
}
static bool raw_bool_safe (const BObj &) { return true; }

static string sizes (BlockSet &set) { std::ostringstream s; for( auto i=set.begin(); i!=set.end(); i++ ) s<<(*i)->size()<<" "; return s.str(); }
static bool normalizes = false;  // object adds default fields to itself when rebuilt
// the property itself
static void roundtrip (const ObjRef &orig)
{
  const BObj &o=*orig;
  string before=canon::of(o);
  MCLOG("object "<<before);
  BlockSet set;
  const char *S1="sentinel";
  { SmartBlock *b=new SmartBlock(8); memcpy(b->data(),S1,8); set.pushNew()<<=b; }   // something already in the set
  int n=o.toBlock(set); mc::op();
  MC_CHECK(set.size()==n+1,"count","toBlock() returned "<<n<<" but pushed "<<set.size()-1<<" for "<<before);
  string after=canon::of(o);
  MC_CHECK(after==before,"side-effect","serializing changed the object:\n"<<before<<"\n"<<after);
  { BlockRef r; set.pop(r); MC_CHECK(r->size()==8 && !memcmp(r->data(),S1,8),"count","foreign block disturbed"); }
  const BObj::Header *hdr=(const BObj::Header*)set.front()->data();
  MC_CHECK(hdr->blockcount==n && hdr->tid==o.objectType(),"header","block header says "<<hdr->blockcount<<" blocks of "<<TypeId(hdr->tid).toString());
  { BlockSet again; int n2=o.toBlock(again); MC_CHECK(n2==n && sizes(again)==sizes(set),"repeat","serializing twice gives "<<sizes(again)<<", first "<<sizes(set)<<" for "<<before); }
  // 1. as received over a wire: byte copies, followed by blocks of the next object
  BlockSet wire; 
  for( auto i=set.begin(); i!=set.end(); i++ ) { SmartBlock *b=new SmartBlock((*i)->size()); memcpy(b->data(),(*i)->data(),(*i)->size()); wire.pushNew()<<=b; }
  { SmartBlock *b=new SmartBlock(8); memcpy(b->data(),S1,8); wire.pushNew()<<=b; }
  ObjRef r1 = DynamicTypeManager::construct(0,wire); mc::op();
  MC_CHECK(r1.valid(),"rebuild","no object from blocks of "<<before);
  MC_CHECK(wire.size()==1 && wire.front()->size()==8 && !memcmp(wire.front()->data(),S1,8),"consume","rebuilding "<<before<<" left "<<wire.size()<<" blocks instead of 1");
  // serialize the rebuilt object before its contents are ever looked at (contents may still be in blocks)
  BlockSet early; int ne=r1->toBlock(early);
  string got=canon::of(r1);
  MC_CHECK(got==before,"equal","rebuilt object differs:\n"<<before<<"\n"<<got);
  MC_CHECK(ne==n || normalizes,"count","rebuilt object serializes into "<<ne<<" blocks, the original into "<<n<<": "<<before);
  ObjRef r2=DynamicTypeManager::construct(0,early);
  string got2=canon::of(r2);
  MC_CHECK(early.size()==0,"consume","blocks left over after second rebuild");
  MC_CHECK(got2==before,"equal","object rebuilt twice (contents untouched in between) differs:\n"<<before<<"\n"<<got2);
  BlockSet late; int nl=r1->toBlock(late);
  MC_CHECK(nl==n || normalizes,"count","rebuilt and read object serializes into "<<nl<<" blocks, original "<<n);
  ObjRef r3=DynamicTypeManager::construct(0,late); string got3=canon::of(r3);
  MC_CHECK(got3==before,"equal","object rebuilt twice (contents read in between) differs:\n"<<before<<"\n"<<got3);
  // 2. rebuilt from the same blocks, which the original (and other sets) may still share
  BlockSet keep(set);
  ObjRef r4=DynamicTypeManager::construct(0,set);
  MC_CHECK(set.size()==0,"consume","blocks left over");
  MC_CHECK(canon::of(r4)==before,"equal","rebuilt from shared blocks differs");
  bool m = mutate(r4.dewr()); mc::op();
  string mut=canon::of(r4);
  if( m ) { mc::count("mutated"); MC_CHECK(mut!=before,"mutate","internal: mutation had no effect on "<<before); }
  MC_CHECK(canon::of(o)==before,"sharing","writing to the rebuilt object changed the original:\n"<<before<<"\n"<<canon::of(o));
  ObjRef r5=DynamicTypeManager::construct(0,keep);
  MC_CHECK(canon::of(r5)==before,"sharing","writing to the rebuilt object changed the blocks it was built from:\n"<<before<<"\n"<<canon::of(r5));
  if( m )   // the changed object serializes as changed
  { BlockSet s; r4->toBlock(s); ObjRef r6=DynamicTypeManager::construct(0,s); MC_CHECK(canon::of(r6)==mut,"equal","object changed after rebuilding serializes as\n"<<canon::of(r6)<<"\ninstead of\n"<<mut); }
  mc::state(before); mc::outcome(std::to_string(n)+"/"+std::to_string(m));
}

// ---- leaves
static string nulstr () { return string("a\0b",3); }
template<class T> static Vec * scalarvec (TypeId t,T x) { return new Vec(t,-1,&x); }
static const int NLEAF=48;
static ObjRef leaf (int k)
{
  ObjRef r; 
  switch(k)
  {
    case 0: r<<=scalarvec<int>(Tpint,-5); break;            case 1: r<<=scalarvec<string>(Tpstring,"abc"); break;
    case 2: r<<=new Record; break;                          case 3: { NumArray *a=new NumArray(Tpdouble,LoShape(2,3)); r<<=a; for(int i=0;i<6;i++) ((double*)a->getDataPtr())[i]=i+0.5; break; }
    case 4: { HIID h("A.1.*"); r<<=new Vec(TpDMIHIID,-1,&h); break; }
    case 5: r<<=new List; break;
    case 6: r<<=scalarvec<bool>(Tpbool,true); break;        case 7: r<<=scalarvec<char>(Tpchar,'x'); break;
    case 8: r<<=scalarvec<unsigned char>(Tpuchar,200); break; case 9: r<<=scalarvec<short>(Tpshort,-3); break;
    case 10: r<<=scalarvec<unsigned short>(Tpushort,60000); break; case 11: r<<=scalarvec<unsigned>(Tpuint,4000000000u); break;
    case 12: r<<=scalarvec<long>(Tplong,-(1L<<40)); break;  case 13: r<<=scalarvec<unsigned long>(Tpulong,1UL<<63); break;
    case 14: r<<=scalarvec<float>(Tpfloat,1.25f); break;    case 15: r<<=scalarvec<double>(Tpdouble,-1e300); break;
    case 16: r<<=scalarvec<fcomplex>(Tpfcomplex,fcomplex(1,-2)); break; case 17: r<<=scalarvec<dcomplex>(Tpdcomplex,dcomplex(3,-4)); break;
    case 18: r<<=scalarvec<string>(Tpstring,""); break;     case 19: r<<=scalarvec<string>(Tpstring,nulstr()); break;
    case 20: { HIID h; r<<=new Vec(TpDMIHIID,-1,&h); break; }
    case 21: r<<=new Vec; break;                            case 22: { int d[]={1,2,3}; r<<=new Vec(Tpint,3,d); break; }
    case 23: { int d[]={9}; r<<=new Vec(Tpint,1,d); break; }
    case 24: { string d[]={"x","","longer string than sixteen bytes"}; r<<=new Vec(Tpstring,3,d); break; }
    case 25: { string d[]={"one"}; r<<=new Vec(Tpstring,1,d); break; }
    case 26: { HIID d[]={HIID("A.2"),HIID(),HIID("Q")}; r<<=new Vec(TpDMIHIID,3,d); break; }
    case 27: { Vec *v=new Vec(TpDMIRecord,-1); r<<=v; Record *q=new Record; (*q)["X"]=1; v->put(0,q); break; }
    case 28: { Vec *v=new Vec(TpDMIRecord,2); r<<=v; Record *q=new Record; (*q)["X"]=string("v"); v->put(1,q); break; }
    case 29: { Vec *v=new Vec(TpDMIRecord,3); r<<=v; break; }
    case 30: { Vec *v=new Vec(TpDMINumArray,1); r<<=v; v->put(0,new NumArray(Tpint,LoShape(2))); break; }
    case 31: r<<=new NumArray; break;
    case 32: { NumArray *a=new NumArray(Tpbool,LoShape(3)); r<<=a; ((bool*)a->getDataPtr())[1]=true; break; }
    case 33: { NumArray *a=new NumArray(Tpint,LoShape(1)); r<<=a; ((int*)a->getDataPtr())[0]=77; break; }
    case 34: { NumArray *a=new NumArray(Tpfloat,LoShape(2,1)); r<<=a; ((float*)a->getDataPtr())[1]=7.5; break; }
    case 35: { NumArray *a=new NumArray(Tpdcomplex,LoShape(1,2)); r<<=a; ((dcomplex*)a->getDataPtr())[1]=dcomplex(1,2); break; }
    case 36: { NumArray *a=new NumArray(Tpfcomplex,LoShape(2)); r<<=a; ((fcomplex*)a->getDataPtr())[1]=fcomplex(1,2); break; }
    case 37: { NumArray *a=new NumArray(Tpdouble,LoShape(0)); r<<=a; break; }
    case 38: { LoShape s(LoShape::SETRANK|3); s[0]=2; s[1]=1; s[2]=2; NumArray *a=new NumArray(Tpint,s); r<<=a; for(int i=0;i<4;i++) ((int*)a->getDataPtr())[i]=i; break; }
    case 39: { LoShape s(LoShape::SETRANK|4); s[0]=1; s[1]=2; s[2]=1; s[3]=2; NumArray *a=new NumArray(Tpdouble,s); r<<=a; for(int i=0;i<4;i++) ((double*)a->getDataPtr())[i]=i; break; }
    case 40: r<<=scalarvec<long long>(Tplonglong,-(1LL<<50)); break; case 41: r<<=scalarvec<unsigned long long>(Tpulonglong,1ULL<<60); break;
    case 42: { double d[]={1,-0.0,1e-300}; r<<=new Vec(Tpdouble,3,d); break; }
    case 43: { bool d[]={true,false}; r<<=new Vec(Tpbool,2,d); break; }
    case 44: { dcomplex d[]={dcomplex(1,2),dcomplex(0,-1)}; r<<=new Vec(Tpdcomplex,2,d); break; }
    case 45: { List *l=new List; r<<=l; l->addBack(ObjRef()); l->addBack(new Record); break; }
    case 46: { Vec *v=new Vec(TpDMIList,2); r<<=v; List *l=new List; l->addBack(new Record); v->put(0,l); break; }
    case 47: { string d[]={"r","s"}; Vec *v=new Vec(Tpstring,2,d); r<<=v; v->resize(3); break; }
  }
  return r;
}
// places for an object: alone, in a record, in a list, as message payload, two levels down, twice
static ObjRef place (int w,const ObjRef &x)
{
  ObjRef r;
  if( w==0 ) return x;
  if( w==1 ) { Record *p=new Record; r<<=p; p->add("F",x); }
  else if( w==2 ) { List *l=new List; r<<=l; l->addBack(new Record); l->addBack(x); }
  else if( w==3 ) { Message *m=new Message("M.Id.3"); m->flags_=0; r<<=m; m->payload()=x; }
  else if( w==4 ) { Record *p=new Record; r<<=p; Record *q=new Record; (*p)["B.C"]<<=q; q->add("F.1",x); (*p)["Z"]=3; }
  else { Record *p=new Record; r<<=p; p->add("F",x); p->add("G",x); (*p)["H"]=string("z"); }
  return r;
}
MC_SCENARIO(leaves,2,2)
{
  int k=mc::choose(NLEAF), w=mc::choose(6); MCLOG("leaf "<<k<<" place "<<w);
  ObjRef x=leaf(k);
  roundtrip(place(w,x));
}
static const int tleaf[]={0,1,2,3,4,27,45,21,37,24};
static ObjRef tree (int depth,int nl)
{
  // 0..nl-1: leaf; then record of 0..2 fields, list of 1..2 items
  if( depth==0 ) return leaf(tleaf[mc::choose(nl)]);
  int c=mc::choose(nl+5);
  if( c<nl ) return leaf(tleaf[c]);
  c-=nl; ObjRef r;
  if( c<2 ) { Record *p=new Record; r<<=p; for(int i=0;i<=c;i++) { ObjRef x=tree(depth-1,nl); p->add(i?"B.2":"A",x); } }
  else if( c<4 ) { List *l=new List; r<<=l; for(int i=0;i<c-1;i++) { ObjRef x=tree(depth-1,nl); l->addBack(x); } }
  else { Vec *v=new Vec(TpDMIRecord,2); r<<=v; Record *p=new Record; v->put(0,p); ObjRef x=tree(depth-1,nl); p->add("V",x); }
  return r;
}
MC_SCENARIO(trees,8,16) { int nl=mc::thorough()?8:4; ObjRef r=tree(2,nl); int w=mc::choose(mc::thorough()?4:2); roundtrip(place(w?w+2:0,r)); }

MC_SCENARIO(messages,4,4)
{
  Message *m; ObjRef r;
  int pay=mc::choose(5), blk=mc::choose(4), how=mc::choose(4);
  ObjRef p; if( pay==1 ) p=leaf(2); else if( pay==2 ) p=leaf(3); else if( pay==3 ) p=leaf(28); else if( pay==4 ) { Message *in=new Message("I"); in->flags_=1; p<<=in; in->payload()=leaf(0); }
  static const char ids[4][12]={"","A","A.1.*","Xyz.2.B"};
  HIID id(ids[mc::choose(4)]);
  int flags=0;
  if( how==0 ) { m=new Message(id); m->payload()=p; }
  else if( how==1 ) { m=new Message(id,p,0,7); }
  else if( how==2 ) { if( !p.valid() ) throw mc::Prune(); m=new Message(id,(const BObj*)p.deref_p(),0,-3); }
  else { if( !p.valid() ) throw mc::Prune(); m=new Message(id,p.dewr_p(),0,100000); }
  r<<=m;
  MC_CHECK(m->flags_==0,"flags","a newly made message has flags "<<m->flags_<<" (constructor form "<<how<<")");
  MC_CHECK(m->state()==0 && m->hops()==0,"init","a newly made message has state "<<m->state());
  if( blk ) { SmartBlock *b=new SmartBlock(blk==1?0:blk==2?5:3000); memset(b->data(),blk,b->size()); (*m)<<=b; }
  if( mc::flip() ) { m->setFrom(Octopussy::MsgAddress(AtomicID(5),AtomicID(2),AtomicID(3),AtomicID(4))); m->setTo(Octopussy::MsgAddress(AidPublish)); m->setState(-9); m->addHop(); m->addHop(); m->flags_=0x7f00ff01; }
  roundtrip(r);
}
static Meq::Cells * cells (int k)
{
  using namespace Meq;
  Meq::Cells *c;
  if( k==0 ) c=new Meq::Cells(Meq::Domain(0,1,-2,4),2,3);
  else if( k==1 ) { Meq::Domain d; d=Meq::Domain(); c=new Meq::Cells(Meq::Domain(0,1,0,1),1,4); LoVec_double x(3),s(3); x=1.,2.,5.; s=1.,1.,2.; c->setCells(1,x,s); c->recomputeDomain(); }
  else { c=new Meq::Cells(Meq::Domain(0,8,0,1),8,1); c->setCells(3,0.,6.,3); c->recomputeDomain(1,2,3,4,5,6,7,8); }
  return c;
}
static Meq::Vells * vells (int k)
{
  Meq::Vells *v; LoShape s(2,3);
  switch(k)
  {
    case 0: return new Meq::Vells(2.5);
    case 1: v=new Meq::Vells(0.,LoShape(2,3),true); { double *d=v->begin<double>(); for(int i=0;i<6;i++) d[i]=i-0.5; } return v;
    case 2: v=new Meq::Vells(dcomplex(0,0),LoShape(2,1),true); { dcomplex *d=v->begin<dcomplex>(); d[0]=dcomplex(1,2); d[1]=dcomplex(-1,0); } return v;
    case 3: return new Meq::Vells;
    case 4: v=new Meq::Vells(0.,LoShape(1,3),true); v->begin<double>()[2]=4; return v;
    case 5: v=new Meq::Vells(dcomplex(0,3)); return v;
  }
  return 0;
}
static Meq::Vells * flags (int k)
{ Meq::Vells *v=new Meq::Vells(k==0?LoShape(2,3):k==1?LoShape(2,1):LoShape(1,1),Meq::VellsFlagType(0),true); v->begin<int>()[0]=5; return v; }
static Meq::VellSet * vellset ()
{
  using namespace Meq;
  int nsp=mc::choose(3), nps = nsp?1+mc::choose(2):1;
  Meq::VellSet *vs=new Meq::VellSet(nsp,nps);
  int val=mc::choose(8);
  if( val==6 || val==7 ) { delete vs; vs=new Meq::VellSet(0,1); for(int i=6;i<=val;i++) vs->addFail(LOFAR::Exception("failure "+std::to_string(i),"fn",3)); 
    MC_CHECK(vs->numFails()==val-5,"fails","VellSet with "<<val-5<<" fails added reports "<<vs->numFails()); return vs; }
  if( val<6 ) vs->setValue(vells(val));
  if( nsp ) { vector<int> sp; for(int i=0;i<nsp;i++) sp.push_back(10*i+3); vs->setSpids(sp); 
    for(int j=0;j<nps;j++) for(int i=0;i<nsp;i++) { vs->setPerturbation(i,j?-0.5:0.25*(i+1),j); vs->setPerturbedValue(i,vells(i==0?1:4),j); } }
  int fl=mc::choose(3); if( fl ) vs->setDataFlags(flags(fl-1));
  if( mc::flip() ) vs->setDataWeights(vells(1));
  return vs;
}
MC_SCENARIO(meqvellsets,4,4) { ObjRef r; r<<=vellset(); int w=mc::choose(2); roundtrip(place(w,r)); }
MC_SCENARIO(meqobjects,4,8)
{
  using namespace Meq;
  normalizes=false; ObjRef r; int kind=mc::choose(6);
  if( kind==0 ) { if( mc::flip() ) r<<=vells(mc::choose(6)); else r<<=flags(mc::choose(3)); }
  else if( kind==1 ) r<<=cells(mc::choose(3));
  else if( kind==2 ) { Meq::Domain *d; if( mc::flip() ) d=new Meq::Domain(1,2,3,4.5); else { d=new Meq::Domain; d->defineAxis(mc::choose(Meq::Axis::MaxAxis),-1,1); } r<<=d; }
  else if( kind==3 )
  {
    static const char ids[4][14]={"","1.2.3","ev.0.1.0.7","e2.4"};
    HIID id(ids[mc::choose(4)]);
    Meq::Request *q; int c=mc::choose(3);
    q = c ? new Meq::Request(cells(c-1),id) : new Meq::Request; r<<=q; if( !c ) q->setId(id);
    if( mc::flip() ) q->setNextId(HIID("9.8"));
    if( mc::flip() ) { Record *p=new Record; (*p)["State"]=2; (*q)["Rider"]<<=p; q->validateRider(); }
  }
  else if( kind==4 )
  {
    int n=mc::choose(4); Meq::Result *x; 
    if( n<3 ) x=new Meq::Result(n); else { x=new Meq::Result(LoShape(2,1)); n=2; }
    r<<=x;
    bool variable=false;
    for(int i=0;i<n;i++) { int v=mc::choose(4); Meq::VellSet *vs=new Meq::VellSet(0,1); if( v<2 ) vs->setValue(vells(v)); else if( v==2 ) { vs->setValue(vells(2)); vs->setDataFlags(flags(1)); } else vs->addFail(LOFAR::Exception("oops","fn",1)); 
      variable |= v==1 || v==2; x->setVellSet(i,vs); }
    // a Result holds cells exactly when it has variable vellsets
    if( variable ) x->setCells(cells(0));
  }
  else
  {
    int t=mc::choose(4); 
    LoMat_double c(2,3); c=1,2,3,4,5,6; int ax[]={1,0}; double off[]={0.5,-1}, sc[]={2,4};
    normalizes = t==0;
    if( t==0 ) r<<=new Meq::Polc(1.5,1e-6,1.);
    else if( t==1 ) r<<=new Meq::Polc(c,ax,off,sc,1e-3,2.,77);
    else if( t==2 ) { LoVec_double c1(3); c1=1,0,-2; r<<=new Meq::Polc(c1,1,3.,0.25); }
    else r<<=new Meq::PolcLog(c,ax,off,sc,1e-3,2.,5,std::vector<double>(2,1.5));
    if( mc::flip() ) r.as<Meq::Funklet>().setDomain(Meq::Domain(1,2,3,4));
  }
  int w=mc::choose(4); roundtrip(place(w,r)); normalizes=false;
}
MC_MAIN()
