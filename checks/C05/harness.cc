// C05: object files (BOIO): histories of write/append/reopen/read/rewind/seek, and every truncation point.
#include "mc.h"
#include "../common/canon.h"
#include <DMI/BOIO.h>
#include <DMI/DynamicTypeManager.h>
#include <sys/stat.h>
#include <fcntl.h>
using namespace DMI; using std::string; using std::vector;

// an object with any number of blocks of any sizes (as messages and user classes may have)
const int TpBlob_id = 7790;
class Blob : public BObj
{
  public:
    vector<string> parts;
    TypeId objectType () const { return TypeId(TpBlob_id); }
    CountedRefTarget * clone (int,int) const { return new Blob(*this); }
    int toBlock (BlockSet &set) const
    {
      for( size_t i=0;i<parts.size();i++ )
      { SmartBlock *b = new SmartBlock(parts[i].size()); if( parts[i].size() ) memcpy(b->data(),parts[i].data(),parts[i].size()); set.pushNew() <<= b; }
      return parts.size();
    }
    int fromBlock (BlockSet &set)
    { 
      parts.clear();
      while( set.size() ) { BlockRef r; set.pop(r); parts.push_back(string((const char*)r->data(),r->size())); }
      return parts.size();
    }
};
static BObj * mkblob (int n) { return n ? (BObj*)new Blob[n] : (BObj*)new Blob; }
static DynamicTypeManager::Register regblob(TypeId(TpBlob_id),mkblob);
static string blobcanon (const BObj &o,int)
{ const Blob *b=dynamic_cast<const Blob*>(&o); if(!b) return ""; string s="Blob("; for(auto&p:b->parts) s+=canon::hexd(p.data(),p.size())+","; return s+")"; }

static const int NOBJ=7;
static ObjRef object (int k)
{
  ObjRef r;
  switch(k)
  {
    case 0: { Record *p=new Record; r<<=p; (*p)["A"]=int(7); (*p)["B"]=string("xy"); Record *q=new Record; (*q)["Z.1"]=2.5; (*p)["C"]<<=q; break; }
    case 1: { r<<=new Blob; break; }                                      // zero blocks
    case 2: { Blob *b=new Blob; r<<=b; b->parts={"hello","","\x01\x02\x03"}; break; }   // empty block in the middle
    case 3: { r<<=new Record; break; }
    case 4: { List *l=new List; r<<=l; l->addBack(new Vec(Tpint,3)); l->addBack(new Record); break; }
    case 5: { Blob *b=new Blob; r<<=b; b->parts={string(5000,'x'),""}; break; }         // large, empty block at the end
    case 6: { NumArray *a=new NumArray(Tpdouble,LoShape(2,2)); r<<=a; ((double*)a->getDataPtr())[3]=1.5; break; }
  }
  return r;
}
static const string & canonical (int k) { static string c[NOBJ]; if( c[k].empty() ) c[k]=canon::of(object(k)); return c[k]; }
static const BObj & constobj (int k) { static ObjRef o[NOBJ]; if( !o[k].valid() ) o[k]=object(k); return *o[k]; }
static off_t fsize (const string &f) { struct stat st; return stat(f.c_str(),&st)<0 ? -1 : st.st_size; }
static struct Init { Init () { canon::extra()=blobcanon; } } init_;

MC_SCENARIO(history,8,16)
{
  const string F="h.boio"; unlink(F.c_str());
  int objs[]={0,1,2,4,6}; int NO = mc::thorough()?5:3;
  vector<int> content; int mode=0; size_t pos=0; bool exists=false; // mode 0 closed 1 read 2 write 3 append
  vector<long> start;                                                // offsets of objects
  BOIO io; off_t total=0;
  int depth = mc::thorough()?8:7;
  string hist;
  for( int d=0;d<depth;d++ )
  {
    // operations possible now
    int nops = mode==0 ? 4 : mode==1 ? 7 : NO+3;
    int c = mc::choose(nops); mc::op();
    auto openf=[&](int m){
      MCLOG("open "<<(m==1?"READ":m==2?"WRITE":"APPEND"));
      hist+="o"+std::to_string(m);
      bool threw=false;
      try { io.open(F,m==1?BOIO::READ:m==2?BOIO::WRITE:BOIO::APPEND); } catch( std::exception &e ) { threw=true; }
      if( m==1 && !exists ) { MC_CHECK(threw,"open","opening a missing file for reading did not fail"); mode=0; throw mc::Prune(); }
      MC_CHECK(!threw,"open","open failed after "<<hist);
      MC_CHECK(io.isOpen(),"open","not open after open()");
      if( m==2 ) { content.clear(); start.clear(); total=0; } 
      exists=true; mode=m; pos=0; };
    if( mode==0 )
    {
      if( c<3 ) openf(c+1);
      else throw mc::Prune();
    }
    else if( mode==1 )
    {
      if( c==0 )
      {
        ObjRef r; bool ok = io.readAny(r)!=0; string got = ok ? canon::of(r) : "EOF";
        string want = pos<content.size() ? canonical(content[pos]) : "EOF";
        MCLOG("read -> "<<got); hist+="r";
        MC_CHECK(got==want,"read","after "<<hist<<": read "<<got<<" expected "<<want);
        if( pos<content.size() ) pos++;
        mc::outcome(got);
      }
      else if( c==1 )
      {
        TypeId t=io.nextType(); hist+="n"; MCLOG("nextType -> "<<t.toString());
        TypeId want = pos<content.size() ? constobj(content[pos]).objectType() : TypeId(0);
        MC_CHECK(t==want,"nexttype","after "<<hist<<": next type "<<t.toString()<<" expected "<<want.toString());
      }
      else if( c==2 ) { io.rewind(); pos=0; hist+="w"; MCLOG("rewind"); }
      else if( c==3 ) { io.close(); mode=0; hist+="c"; MCLOG("close"); }
      else if( c==4 ) openf(3);            // open over an open file
      else if( c==5 ) { if( content.empty() ) throw mc::Prune(); size_t k=content.size()-1; io.fseek(start[k]); pos=k; hist+="s"; MCLOG("seek to object "<<k); }
      else { // wrong-mode operation is refused and changes nothing
        bool threw=false; try { io.write(constobj(0)); } catch( std::exception &e ) { threw=true; } hist+="x"; MCLOG("write while reading");
        MC_CHECK(threw,"mode","write to a file open for reading was accepted"); }
    }
    else
    {
      if( c<NO )
      {
        int k=objs[c]; hist+="W"+std::to_string(k); MCLOG("write object "<<k);
        size_t n = io.write(constobj(k)); io.flush();
        off_t now = fsize(F);
        MC_CHECK(off_t(n)==now-total,"written","write() returned "<<n<<" bytes, file grew by "<<(now-total));
        start.push_back(total); total=now; content.push_back(k);
      }
      else if( c==NO ) { io.close(); mode=0; hist+="c"; MCLOG("close"); }
      else if( c==NO+1 ) openf(1);
      else { bool threw=false; ObjRef r; try { io.readAny(r); } catch( std::exception &e ) { threw=true; } hist+="x"; MCLOG("read while writing");
        MC_CHECK(threw,"mode","read from a file open for writing was accepted"); }
    }
    MC_CHECK(io.isOpen()==(mode!=0),"state","isOpen "<<io.isOpen()<<" in mode "<<mode);
    string st=std::to_string(mode)+"/"+std::to_string(pos)+"/"; for(int k:content) st+=std::to_string(k); mc::state(st);
  }
  // final: everything written is there
  io.close();
  if( exists )
  {
    BOIO in(F,BOIO::READ); ObjRef r; size_t n=0;
    while( in.readAny(r)!=0 ) { string g=canon::of(r); MC_CHECK(n<content.size() && g==canonical(content[n]),"final","object "<<n<<" of final file is "<<g<<" after "<<hist); n++; r.detach(); }
    MC_CHECK(n==content.size(),"final","final file has "<<n<<" objects, expected "<<content.size()<<" after "<<hist);
  }
}

// any prefix of a file gives exactly the objects whose bytes are all there
MC_SCENARIO(torn,8,16)
{
  const string F="t.boio", G="u.boio"; 
  int n = 1+mc::choose(mc::thorough()?3:2); vector<int> seq; vector<off_t> ends;
  int maxo = mc::thorough()?7:6; 
  unlink(F.c_str());
  for( int i=0;i<n;i++ ) seq.push_back(mc::choose(maxo));
  { BOIO io(F,BOIO::WRITE); for(int k:seq) { io.write(constobj(k)); io.flush(); ends.push_back(fsize(F)); }
    io.close(); }
  string data; { std::ifstream f(F,std::ios::binary); std::stringstream b; b<<f.rdbuf(); data=b.str(); }
  bool peek = mc::flip();
  // every cut (inside the long constant block only a few, its bytes are alike)
  off_t bigfrom=-1, bigto=-1;
  for( size_t i=0;i<seq.size();i++ ) if( seq[i]==5 ) { bigto=ends[i]-16; bigfrom=bigto-4900; }
  for( size_t cut=0; cut<=data.size(); cut++ )
  {
    if( bigfrom>0 && (off_t)cut>bigfrom && (off_t)cut<bigto && cut%977 ) continue;
    { std::ofstream g(G,std::ios::binary|std::ios::trunc); g.write(data.data(),cut); }
    size_t want=0; while( want<ends.size() && ends[want]<=(off_t)cut ) want++;
    BOIO in(G,BOIO::READ); size_t got=0; int ended=0; string trace;
    for( int step=0; step<n+4; step++ )
    {
      try
      {
        mc::op();
        if( peek ) { TypeId t=in.nextType(); if( t!=0 && ended ) mc::fail("after-eof","cut at "+std::to_string(cut)+": nextType() reports an object after end of file"); }
        ObjRef r; bool ok = in.readAny(r)!=0;
        if( ok )
        {
          MC_CHECK(!ended,"after-eof","cut at "<<cut<<": object read after end of file or error: "<<canon::of(r));
          MC_CHECK(got<want,"torn","file cut at byte "<<cut<<" of "<<data.size()<<" gave object #"<<got<<" though only "<<want<<" are complete");
          string c=canon::of(r); MC_CHECK(c==canonical(seq[got]),"torn","file cut at byte "<<cut<<": object #"<<got<<" is "<<c);
          got++;
        }
        else ended=1;
      }
      catch( std::exception &e ) { ended=2; }
    }
    MC_CHECK(ended,"torn","no end of file");
    MC_CHECK(got==want,"torn","file cut at byte "<<cut<<" of "<<data.size()<<": "<<got<<" objects read, "<<want<<" complete");
    mc::state(std::to_string(seq[0])+"/"+std::to_string(cut)+"/"+std::to_string(got));
    mc::outcome(std::to_string(got)+"/"+std::to_string(ended)); mc::count("truncation points");
  }
  MCLOG("objects "<<seq.size()<<", "<<data.size()<<" bytes, all truncation points checked");
}
MC_MAIN()
