#include "node.h"
int  t_read (const Ref &r) { return r->val; }
void t_write (Ref &r,int v) { Node *p=r.dewr_p(); p->val=v; }
void t_copy (Ref &a,const Ref &b) { a.copy(b,0,-1); }
void t_detach (Ref &a) { a.detach(); }
void t_xfer (Ref &a,Ref &b) { a.xfer(b,0,-1); }
void t_privatize (Ref &a,int flags) { a.privatize(flags); }
