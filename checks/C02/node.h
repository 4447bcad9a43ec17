#ifndef C02_NODE_H
#define C02_NODE_H
#include <DMI/CountedRef.h>
#include <DMI/CountedRefTarget.h>
struct Node;
typedef DMI::CountedRef<Node> Ref;
struct Node : public DMI::CountedRefTarget
{
  int val; unsigned canary; Ref child;
  static int live;
  explicit Node (int v) : val(v),canary(0xC0FFEE) { live++; }
  Node (const Node &o,int flags,int depth) : DMI::CountedRefTarget(o),val(o.val),canary(0xC0FFEE)
  {
    live++;
    if( o.child.valid() )
    {
      child.copy(o.child,0,-1);
      if( flags&DMI::DEEP || depth>0 ) child.privatize(flags,depth-1);
    }
  }
  virtual ~Node ();
  virtual DMI::CountedRefTarget * clone (int flags=0,int depth=0) const { return new Node(*this,flags,depth); }
  static void * operator new (size_t n);
  static void operator delete (void *p);
};
// instrumented wrappers (ops.tsan.cc)
int  t_read (const Ref &r);
void t_write (Ref &r,int v);
void t_copy (Ref &a,const Ref &b);
void t_detach (Ref &a);
void t_xfer (Ref &a,Ref &b);
void t_privatize (Ref &a,int flags);
#endif
