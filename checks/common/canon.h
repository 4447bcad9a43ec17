// Canonical text of a DMI object tree, obtained through the public read interfaces only.
// Two objects with the same content have the same text (used as deep equality).
#ifndef VERIF_CANON_H
#define VERIF_CANON_H
#include <DMI/Record.h>
#include <DMI/List.h>
#include <DMI/Vec.h>
#include <DMI/NumArray.h>
#include <DMI/HIID.h>
#include <DMI/Exception.h>
#include <DMI/TypeInfo.h>
#include <map>
#include <sstream>
#include <cstring>
namespace canon {
using namespace DMI; using std::string;
inline string hexd (const void *p,size_t n) { static const char h[]="0123456789abcdef"; string o; const unsigned char *c=(const unsigned char*)p; for(size_t i=0;i<n;i++){o+=h[c[i]>>4];o+=h[c[i]&15];} return o; }
inline string num (TypeId t,const void *p)
{
  std::ostringstream s; s.precision(17);
  if( t==Tpbool ) s<<int(*(const bool*)p); else if( t==Tpchar ) s<<int(*(const char*)p); else if( t==Tpuchar ) s<<int(*(const unsigned char*)p);
  else if( t==Tpshort ) s<<*(const short*)p; else if( t==Tpushort ) s<<*(const unsigned short*)p;
  else if( t==Tpint ) s<<*(const int*)p; else if( t==Tpuint ) s<<*(const unsigned*)p;
  else if( t==Tplong ) s<<*(const long*)p; else if( t==Tpulong ) s<<*(const unsigned long*)p;
  else if( t==Tplonglong ) s<<*(const long long*)p; else if( t==Tpulonglong ) s<<*(const unsigned long long*)p;
  else if( t==Tpfloat ) s<<*(const float*)p; else if( t==Tpdouble ) s<<*(const double*)p; 
  else if( t==Tpfcomplex ) s<<((const float*)p)[0]<<"+"<<((const float*)p)[1]<<"i"; else if( t==Tpdcomplex ) s<<((const double*)p)[0]<<"+"<<((const double*)p)[1]<<"i";
  else if( t==Tpstring ) s<<'\''<<*(const string*)p<<'\'';
  else s<<"?"<<t.toString();
  return s.str();
}
string of (const BObj &o,int depth=0);
inline string of (const ObjRef &r,int depth=0) { return r.valid() ? of(r.deref(),depth) : string("null"); }
inline string vec (const Vec &v,int depth)
{
  if( !v.valid() ) return "Vec{}";
  string o="Vec<"+v.type().toString()+(v.isScalar()?",scalar":"")+">(";
  TypeInfo ti = TypeInfo::find(v.type());
  for( int i=0;i<v.mysize();i++ )
  {
    if( i ) o+=",";
    if( ti.category==TypeInfo::DYNAMIC ) o += v.isValid(i) ? of(v.getObj(i),depth+1) : string("unset");
    else if( v.type()==Tpstring ) o += "'"+v[i].as<string>()+"'";
    else if( v.type()==TpDMIHIID ) o += v[i].as<HIID>().toString();
    else 
    {
      #define VCASE(tp,T) if( v.type()==tp ) { T x = v[i].as<T>(); o += num(tp,&x); continue; }
      VCASE(Tpbool,bool) VCASE(Tpchar,char) VCASE(Tpuchar,unsigned char) VCASE(Tpshort,short) VCASE(Tpushort,unsigned short)
      VCASE(Tpint,int) VCASE(Tpuint,unsigned) VCASE(Tplong,long) VCASE(Tpulong,unsigned long) VCASE(Tpfloat,float) VCASE(Tpdouble,double)
      VCASE(Tplonglong,long long) VCASE(Tpulonglong,unsigned long long)
      VCASE(Tpfcomplex,fcomplex) VCASE(Tpdcomplex,dcomplex)
      if( v.type()==TpDMIAtomicID ) { o += AtomicID(v[i].as<AtomicID>()).toString(); continue; }
      #undef VCASE
      o += "?";
    }
  }
  return o+")";
}
inline string arr (const NumArray &a)
{
  if( !a.valid() ) return "Array{}";
  string o="Array<"+a.elementType().toString()+">[";
  int n=1; for( int i=0;i<a.rank();i++ ) { o+=(i?"x":"")+std::to_string(a.shape()[i]); n*=a.shape()[i]; }
  o+="](";
  const char *p=(const char*)a.getConstDataPtr();
  int es = a.elementType()==Tpstring ? sizeof(string) : a.elementSize();
  for( int i=0;i<n;i++ ) o += (i?",":"")+num(a.elementType(),p+i*es);
  return o+")";
}
// extension point for other classes
inline string (*&extra ()) (const BObj &,int) { static string (*f)(const BObj &,int) = 0; return f; }
inline string of (const BObj &o,int depth)
{
  if( depth>20 ) return "...";
  if( extra() ) { string x = extra()(o,depth); if( !x.empty() ) return x; }
  string head = o.objectType().toString();
  if( const Record *r = dynamic_cast<const Record*>(&o) )
  {
    std::map<string,string> m;
    for( Record::const_iterator i=r->begin(); i!=r->end(); i++ ) m[i.id().toString()] = i.field().valid() ? of(i.ref(),depth+1) : string("unset");
    string s=head+"{"; for( auto &k:m ) s+=k.first+"="+k.second+"; "; return s+"}";
  }
  if( const List *l = dynamic_cast<const List*>(&o) )
  {
    string s=head+"["; for( List::const_iterator i=l->begin(); i!=l->end(); i++ ) s += of(*i,depth+1)+"; "; return s+"]";
  }
  if( const Vec *v = dynamic_cast<const Vec*>(&o) ) return vec(*v,depth);
  if( const NumArray *a = dynamic_cast<const NumArray*>(&o) ) return arr(*a);
  // anything else by its blocks
  BlockSet set; o.toBlock(set); string s=head+"#";
  for( auto i=set.begin(); i!=set.end(); i++ ) s+=hexd((*i)->data(),(*i)->size())+"|";
  return s;
}
inline string what (const std::exception &x)
{
  return DMI::exceptionToString(x);
}
#ifdef VERIF_MC_H
static struct ExcInit { ExcInit () { mc::exc_text()=what; } } exc_init_;
#endif
inline string blocks (const BlockSet &set0) { BlockSet &set=const_cast<BlockSet&>(set0); string s; for( auto i=set.begin(); i!=set.end(); i++ ) s+=std::to_string((*i)->size())+":"+string((const char*)(*i)->data(),(*i)->size())+"|"; return s; }
}
#endif
