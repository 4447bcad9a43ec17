#ifndef VERIF_FOREST_H
#define VERIF_FOREST_H 1
// A small forest of real nodes with scripted leaf nodes of class "A" (type registered by the harness).
#include <MEQ/Meq.h>
#include <MEQ/TID-Meq.h>
#include <MEQ/Forest.h>
#include <MEQ/Node.h>
#include <MEQ/Result.h>
#include <MEQ/VellSet.h>
#include <MEQ/Request.h>
#include <MEQ/Cells.h>
#include <MEQ/MeqVocabulary.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/Exception.h>
#include <DMI/Vec.h>
#include <functional>
#include <map>
#include <memory>
int aidRegistry_MeqNodes ();
namespace mcf {
using namespace DMI; using namespace Meq; using std::string; using std::vector;
typedef std::function<int(Meq::Node &,Result::Ref &,const Request &)> SrcFunc;
inline std::map<string,SrcFunc> & sources () { static std::map<string,SrcFunc> m; return m; }
class Src : public Meq::Node
{
  public:
    Src () : Meq::Node(-1) {}
    virtual TypeId objectType () const { return TypeId("A"); }
    vector<Result::Ref> last;   // child results of the last execution
    using Meq::Node::setDependMask;
  protected:
    virtual int getResult (Result::Ref &ref,const vector<Result::Ref> &ch,const Request &req,bool)
    { last=ch; auto it=sources().find(name()); if( it==sources().end() ) { ref <<= new Result(0); return 0; } return it->second(*this,ref,req); }
};
inline BObj * makeSrc (int) { return new Src; }
inline void once () { static int d=aidRegistry_MeqNodes()+TypeInfoReg::addToRegistry(TypeId("A").id(),TypeInfo(TypeInfo::DYNAMIC,0))+DynamicTypeManager::addToRegistry(TypeId("A").id(),makeSrc); (void)d; }
// every execution gets its own forest
struct Forest1
{
  Meq::Forest forest;
  Forest1 () { once(); sources().clear(); forest.setCachePolicy(Meq::Node::CACHE_NEVER); forest.enableProfiling(false); }
  ~Forest1 () { forest.clear(); sources().clear(); }
  // creates and initializes a node; children are indices of nodes already created
  int add (const string &cls,const string &name,const vector<int> &children,const DMI::Record &extra=DMI::Record())
  {
    DMI::Record::Ref rec; rec <<= new DMI::Record(extra);
    rec()[AidClass]=cls; rec()[AidName]=name; if( !children.empty() ) rec()[AidChildren] <<= new DMI::Vec(Tpint,children.size(),&children[0]);
    int ni=-1;
    try { NodeFace &nf = forest.create(ni,rec); nf.init(); nf.checkChildren(); }
    catch( std::exception &e ) { throw std::runtime_error("creating "+cls+": "+DMI::exceptionToString(e)); }
    return ni;
  }
  int src (const string &name,SrcFunc f) { sources()[name]=f; return add("A",name,{}); }
  // a source always returning this result
  int src (const string &name,const Result::Ref &res) { Result::Ref r(res); return src(name,[r](Meq::Node &,Result::Ref &ref,const Request &) { ref=r; return 0; }); }
  Meq::Node & node (int i) { return dynamic_cast<Meq::Node&>(forest.get(i)); }
  int exec (int i,Result::Ref &ref,const Request &req) { return forest.get(i).execute(ref,req,0); }
};
}
#endif
