From 084de65b8ebb89eede2c981af8c7d5562e92705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 01/91] fix: HIID::push_front() shifted bytes instead of atoms

memmove was given the number of atoms as a byte count, so that prepending to
a non-empty id left garbage behind the new atoms.
---
 DMI/src/HIID.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DMI/src/HIID.h b/DMI/src/HIID.h
index 6cce12f..1b19be8 100644
--- a/DMI/src/HIID.h
+++ b/DMI/src/HIID.h
@@ -411,7 +411,8 @@ inline void HIID::push_front (AtomicID aid,uint n)
   {
     int sz0 = size();
     resize(sz0+n);
-    memmove(&(*this)[n],&(front()),sz0);
+    if( sz0 )
+      memmove(&(*this)[n],&(front()),sz0*sizeof(AtomicID));
     iterator iter = begin();
     for( uint i=0; i < n; i++,iter++ )
       *iter = aid;
-- 
2.43.0


From 506ddbb2a0c4940f3f6a8ebb14f0fe44c990a52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 02/91] fix: HIID::subId() with negative positions read past
 the end

---
 DMI/src/HIID.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DMI/src/HIID.cc b/DMI/src/HIID.cc
index d57ea1e..dbb8326 100644
--- a/DMI/src/HIID.cc
+++ b/DMI/src/HIID.cc
@@ -44,8 +44,9 @@ HIID::HIID (const void* block, int sz)
 //##ModelId=3C55695F00CC
 HIID HIID::subId (int first, int last) const
 {
-  const_iterator iter1 = first >= 0 ? begin()+first : end()-first;
-  const_iterator iter2 = last >= 0 ? begin()+(last+1) : end()-(last+1);
+  // negative positions count from the end, -1 being the last atom
+  const_iterator iter1 = first >= 0 ? begin()+first : end()+first;
+  const_iterator iter2 = last >= 0 ? begin()+(last+1) : end()+(last+1);
   if( iter1 >= iter2 )
     return HIID();
   else
-- 
2.43.0


From f664dad39f59b72dcd97edafadf9393177cd0b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 03/91] fix: HIID::toString() of empty atoms did not parse back
 to the same id

An empty atom was written as "_", so A.<empty>.B became "A___B", which is
parsed as two empty atoms.
---
 DMI/src/HIID.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DMI/src/HIID.cc b/DMI/src/HIID.cc
index dbb8326..612afec 100644
--- a/DMI/src/HIID.cc
+++ b/DMI/src/HIID.cc
@@ -209,7 +209,10 @@ string HIID::toString (char separator,bool mark_lit) const
       bool newsep = ( *iter == AidSlash || *iter == AidRange );
       if( !sep && !newsep )
         result += separator;
-      result += (*iter).toString();
+      // an empty atom is written as nothing between two separators: this is
+      // what addString() parses back to a single empty atom
+      if( *iter != AidEmpty )
+        result += (*iter).toString();
       sep = newsep;
     }
   }
-- 
2.43.0


From bd9ba1b9091add2faf6dc75ee701137ff56ed33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 04/91] fix: AtomicID::findName() turned out-of-range numbers
 into other atoms

E.g. "4294967295" became the "any" wildcard.
---
 DMI/src/AtomicID.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/DMI/src/AtomicID.cc b/DMI/src/AtomicID.cc
index c04710c..db634da 100644
--- a/DMI/src/AtomicID.cc
+++ b/DMI/src/AtomicID.cc
@@ -93,7 +93,17 @@ bool AtomicID::findName (int &aid,const string &str)
 #endif
       return aid != 0;
     }
-  aid = atoi(str.c_str());
+  // numbers outside the index range (which ends where the literal marker of
+  // HIID begins) must not wrap around to some other atom
+  const long maxindex = 0x7FFEFFFF;
+  long index = 0;
+  for( size_t i=0; i<str.length(); i++ )
+  {
+    index = index*10 + (str[i]-'0');
+    if( index > maxindex )
+      return false;
+  }
+  aid = int(index);
   return true;
 }
 
-- 
2.43.0


From 608663b8b2f75fbe530a1b2256aad354167bbe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 05/91] fix: BOIO could not write or read objects with no
 blocks or with empty blocks

---
 DMI/src/BOIO.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DMI/src/BOIO.cc b/DMI/src/BOIO.cc
index 1f010f1..d799c43 100644
--- a/DMI/src/BOIO.cc
+++ b/DMI/src/BOIO.cc
@@ -128,7 +128,7 @@ TypeId BOIO::readAny (ObjRef &ref)
   have_header = false;
   // read array of block sizes
   size_t sizes[header.nblocks];
-  if( fread(&sizes,sizeof(sizes),1,fp) != 1 )
+  if( header.nblocks && fread(&sizes,sizeof(sizes),1,fp) != 1 )
   {
     FailWhen(ferror(fp),"error reading boio file "+fname+": "+strerror(errno));
     Throw("error reading file "+fname+": unexpected EOF");
@@ -139,7 +139,7 @@ TypeId BOIO::readAny (ObjRef &ref)
   {
     SmartBlock *block = new SmartBlock(sizes[i]);
     set.pushNew() <<= block;
-    if( fread(block->data(),sizes[i],1,fp) != 1 )
+    if( sizes[i] && fread(block->data(),sizes[i],1,fp) != 1 )
     {
       FailWhen(ferror(fp),"error reading boio file "+fname+": "+strerror(errno));
       Throw("error reading file "+fname+": unexpected EOF");
@@ -196,12 +196,12 @@ size_t BOIO::write (const DMI::BObj &obj)
   for( int i=0; i<set.size(); i++,iter++ )
     sizes[i] = (*iter)->size();
   DbgAssert(iter == set.end());
-  FailWhen( fwrite(&sizes,sizeof(sizes),1,fp) != 1,"error writing boio file "+fname+": "+strerror(errno));
+  FailWhen( hdr.nblocks && fwrite(&sizes,sizeof(sizes),1,fp) != 1,"error writing boio file "+fname+": "+strerror(errno));
   // write out the blocks
   iter = set.begin();
   for( int i=0; i<set.size(); i++,iter++ )
   {
-    FailWhen( fwrite((*iter)->data(),sizes[i],1,fp) != 1,"error writing boio file "+fname+": "+strerror(errno));
+    FailWhen( sizes[i] && fwrite((*iter)->data(),sizes[i],1,fp) != 1,"error writing boio file "+fname+": "+strerror(errno));
     written += sizes[i];
   }
   DbgAssert(iter == set.end());
-- 
2.43.0


From 343804b3a135a1abb123e43633e2f35aff73fbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 06/91] fix: BOIO::nextType() returned an object from a torn
 header on the second call

---
 DMI/src/BOIO.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DMI/src/BOIO.cc b/DMI/src/BOIO.cc
index d799c43..1684c3e 100644
--- a/DMI/src/BOIO.cc
+++ b/DMI/src/BOIO.cc
@@ -160,18 +160,18 @@ TypeId BOIO::nextType ()
   if( have_header )
     return header.tid;
   //  else, read it in
-  header.tid = 0;
-  have_header = true;
   if( feof(fp) )
     return 0;
   else if( fread(&header,sizeof(header),1,fp) != 1 )
   {
+    // NB: a partial header may have been read here, so don't mark it as valid
     FailWhen(ferror(fp),"error reading boio file "+fname+": "+strerror(errno));
     // check for EOF again
     if( feof(fp) )
       return 0;
     Throw("unknown error reading file "+fname);
   }
+  have_header = true;
   return header.tid;
 }
 
-- 
2.43.0


From 007b60b73c51a1640d6926b45dc71842434c24f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 07/91] fix: BOIO::rewind() and fseek() kept the header read by
 nextType()

---
 DMI/src/BOIO.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DMI/src/BOIO.cc b/DMI/src/BOIO.cc
index 1684c3e..ff91a6d 100644
--- a/DMI/src/BOIO.cc
+++ b/DMI/src/BOIO.cc
@@ -102,12 +102,14 @@ void BOIO::fseek (long offset)
 {
   FailWhen(!fp,"boio file not open");
   ::fseek(fp,offset,SEEK_SET);
+  have_header = false;
 }
 
 void BOIO::rewind ()
 {
   FailWhen(!fp,"boio file not open");
   ::rewind(fp);
+  have_header = false;
 }
 
 void BOIO::flush ()
-- 
2.43.0


From c22bae993d055c45cce58d58d835253d60611ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 08/91] fix: BOIO::write() did not count the block sizes in the
 bytes written

---
 DMI/src/BOIO.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DMI/src/BOIO.cc b/DMI/src/BOIO.cc
index ff91a6d..6d32728 100644
--- a/DMI/src/BOIO.cc
+++ b/DMI/src/BOIO.cc
@@ -199,6 +199,7 @@ size_t BOIO::write (const DMI::BObj &obj)
     sizes[i] = (*iter)->size();
   DbgAssert(iter == set.end());
   FailWhen( hdr.nblocks && fwrite(&sizes,sizeof(sizes),1,fp) != 1,"error writing boio file "+fname+": "+strerror(errno));
+  written += sizeof(sizes);
   // write out the blocks
   iter = set.begin();
   for( int i=0; i<set.size(); i++,iter++ )
-- 
2.43.0


From 30511d4c27493a8d274d60369cec91ca34ed9898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 09/91] fix: some Message constructors left the message flags
 uninitialized

---
 OCTOPUSSY/src/Message.cc | 4 ++--
 OCTOPUSSY/src/Message.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/OCTOPUSSY/src/Message.cc b/OCTOPUSSY/src/Message.cc
index b318469..9d8e868 100755
--- a/OCTOPUSSY/src/Message.cc
+++ b/OCTOPUSSY/src/Message.cc
@@ -91,13 +91,13 @@ Message::Message (const HIID &id1, const char *data, size_t sz, int pri)
 
 //##ModelId=3DB936B40140
 Message::Message (const HIID &id1, const DMI::BObj *pload, int flags, int pri)
-   : priority_(pri),state_(0),hops_(0),id_(id1),payload_(pload,flags)
+   : flags_(0),priority_(pri),state_(0),hops_(0),id_(id1),payload_(pload,flags)
 {
 }
 
 //##ModelId=3DB936B80024
 Message::Message (const HIID &id1, const SmartBlock *bl, int flags, int pri)
-   : priority_(pri),state_(0),hops_(0),id_(id1),block_(bl,flags)
+   : flags_(0),priority_(pri),state_(0),hops_(0),id_(id1),block_(bl,flags)
 {
 }
 
diff --git a/OCTOPUSSY/src/Message.h b/OCTOPUSSY/src/Message.h
index f739aa4..a931f64 100755
--- a/OCTOPUSSY/src/Message.h
+++ b/OCTOPUSSY/src/Message.h
@@ -320,7 +320,7 @@ class Message : public DMI::BObj
 
 //##ModelId=3C7B9D0A01FB
 inline Message::Message (const HIID &id1, int pri)
-   : priority_(pri),state_(0),hops_(0),id_(id1)
+   : flags_(0),priority_(pri),state_(0),hops_(0),id_(id1)
 {
 }
 
-- 
2.43.0


From 1c23be1d883f7acc744a5339f4752a9aba4f6491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 10/91] fix: Cells rebuilt from a record had wrong numbers of
 segments

---
 MEQ/src/Cells.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index 779809b..3afead7 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -431,10 +431,14 @@ void Cells::validateContent (bool)
         // now, the axis must be present in all other records, and shapes must match
         cell_size_[iaxis].reference(LoVec_double(const_cast<double*>(rcs[id].as_p<double>(np)),shape,blitz::neverDeleteData));
         Assert(np==shape[0]);
+        // the number of segments is normally less than the number of cells
         int np1,np2;
-        seg_start_[iaxis].reference(LoVec_int(const_cast<int*>(rseg[id][FStartIndex].as_p<int>(np1)),shape,blitz::neverDeleteData));
-        seg_end_[iaxis].reference(LoVec_int(const_cast<int*>(rseg[id][FEndIndex].as_p<int>(np2)),shape,blitz::neverDeleteData));
+        const int * pstart = rseg[id][FStartIndex].as_p<int>(np1);
+        const int * pend   = rseg[id][FEndIndex].as_p<int>(np2);
         Assert(np1==np2);
+        LoShape1 segshape(np1);
+        seg_start_[iaxis].reference(LoVec_int(const_cast<int*>(pstart),segshape,blitz::neverDeleteData));
+        seg_end_[iaxis].reference(LoVec_int(const_cast<int*>(pend),segshape,blitz::neverDeleteData));
       }
       protectField(FDomain);
       protectField(FGrid);
-- 
2.43.0


From 71e6a3583e1609df81d5244ca4c2e78ae1730b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 11/91] fix: a VellSet whose values are smaller than its shape
 could not be rebuilt

---
 MEQ/src/VellSet.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index b22f9d7..a2c25c6 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -351,7 +351,8 @@ void VellSet::validateContent (bool)
         numspids_ = 0;
         pset_.resize(0);
       }
-      verifyShape();
+      // check that everything conforms to the shape, but keep the shape itself
+      verifyShape(false);
     }
   }
   catch( std::exception &err )
-- 
2.43.0


From 24c58a1c4dab79899455091c8ac2cd7a0d9bae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 12/91] fix: copies of failed VellSets had uninitialized
 shortcuts

---
 MEQ/src/VellSet.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index a2c25c6..2d73091 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -107,6 +107,9 @@ void VellSet::init ()
 //##ModelId=400E53550322
 VellSet::VellSet (const DMI::Record &other,int flags,int depth)
 : Record(),
+  pvalue_       (0),
+  pflags_       (0),
+  pweights_     (0),
   default_pert_ (0.),
   pset_         (0),
   spids_        (0),
@@ -380,6 +383,7 @@ void VellSet::clear()
   pset_.clear();
   pvalue_ = 0;
   pflags_ = 0;
+  pweights_ = 0;
   is_fail_ = false;
 }
 
-- 
2.43.0


From e062cf79186ac2dc4566ecbe58412aa288c53c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 13/91] fix: VellSet::addFail() dropped the fails added before

---
 MEQ/src/VellSet.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index 2d73091..238404d 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -594,7 +594,9 @@ void VellSet::setPerturbedValue (int i,Vells::Ref &ref,int iset,int flags)
 void VellSet::addFail (const ObjRef &ref)
 {
   Thread::Mutex::Lock lock(mutex());
-  clear();
+  // first fail replaces any content, further fails are added to it
+  if( !is_fail_ )
+    clear();
   is_fail_ = true;
   // clear out the DR
   Record::removeField(FValue,true,0);
-- 
2.43.0


From ee1d66f9d29834c2490d292184ee59ab85e3a43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 14/91] fix: CountedRef cloning by the only ref to an anonymous
 target no longer leaks the target

---
 DMI/src/CountedRefBase.cc | 19 +++++++++++++++++++
 DMI/src/CountedRefBase.h  |  5 ++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/DMI/src/CountedRefBase.cc b/DMI/src/CountedRefBase.cc
index 9baa38c..05ba3c4 100644
--- a/DMI/src/CountedRefBase.cc
+++ b/DMI/src/CountedRefBase.cc
@@ -156,6 +156,7 @@ void CountedRefBase::copy (const CountedRefBase& other, int flags, int depth)
     {
       // clear all properties (privatize() will set them up according to flags)
       locked_ = false;
+      other_target_lock.release(); // privatize() may delete the target
       privatize(flags,depth);
     }
     // else use remaining flags to set up ref properties
@@ -222,6 +223,7 @@ void CountedRefBase::xfer (CountedRefBase& other,int flags,int depth)
     {
       // clear all properties (privatize() will set them up according to flags)
       locked_ = false;
+      other_target_lock.release(); // privatize() may delete the target
       privatize(flags,depth);
     }
   }
@@ -243,7 +245,24 @@ bool CountedRefBase::privatize (int flags, int depth)
   // no cloning is done if the object is anon_ and writable_ and we are the only ref
   bool res = true;
   if( !isAnonTarget() || !isOnlyRef() || !writable_ || depth>0 || flags&DMI::DEEP)
+  {
+    CountedRefTarget *oldtarget = target_;
     cloneTarget(flags&~mask_local_flags,depth-1);
+    // if we were the only ref to the old target, and it is anon_, delete it
+    // (see detach() below)
+    if( !oldtarget->isTargetAttached() && oldtarget->isAnonTarget() )
+    {
+  #ifdef USE_THREADS
+      Thread::Mutex *pmutex = &( oldtarget->crefMutex() );
+  #endif
+      oldtarget->deleted_ = true;
+      delete oldtarget;
+      target_lock.release();
+  #ifdef USE_THREADS
+      CountedRefTarget::deleteMutex(pmutex);
+  #endif
+    }
+  }
   else
     res = false;
   // now change ref properties if asked to
diff --git a/DMI/src/CountedRefBase.h b/DMI/src/CountedRefBase.h
index 2e024eb..6545637 100644
--- a/DMI/src/CountedRefBase.h
+++ b/DMI/src/CountedRefBase.h
@@ -142,7 +142,10 @@ class CountedRefBase
         FailWhen( !valid(),"dereferencing invalid ref");
         Thread::Mutex::Lock target_lock(target_->crefMutex());
         Assert1(!target_->deleted_);
-        if( !isDirectlyWritable() )
+        bool direct = isDirectlyWritable();
+        // privatize() may delete the target (and its mutex), so let go of it
+        target_lock.release();
+        if( !direct )
           privatize();  // do COW
         return target_;
       }
-- 
2.43.0


From 908f9113a77b6750bc51637fa820312173fceede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:25 +0000
Subject: [PATCH 15/91] fix: allocate the mutex of a cloned CountedRef target
 before the target becomes visible

---
 DMI/src/CountedRefBase.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DMI/src/CountedRefBase.cc b/DMI/src/CountedRefBase.cc
index 05ba3c4..114aa68 100644
--- a/DMI/src/CountedRefBase.cc
+++ b/DMI/src/CountedRefBase.cc
@@ -79,6 +79,9 @@ void CountedRefBase::cloneTarget (int flags,int depth) const
   target_->ref_count_--;
   newtarget_->ref_count_ = 1;
 #endif
+  // allocate the new target's mutex now, while no-one else can see it: this
+  // ref may be copy()d by several threads at once
+  newtarget_->crefMutex();
   target_ = newtarget_;
   target_->anon_ = true;
   locked_   = flags&DMI::LOCKED;
-- 
2.43.0


From 945bd13677ed40f81c4e257dc2943bbca5a28574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 16/91] fix: Record::removeField() returned an empty ref for
 fields holding an object

---
 DMI/src/Record.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DMI/src/Record.h b/DMI/src/Record.h
index 9f28179..f41d169 100644
--- a/DMI/src/Record.h
+++ b/DMI/src/Record.h
@@ -135,7 +135,8 @@ class Record : public Container
           // clears the field, but xfers the ref into out
           void xfer (ObjRef &out)
           {
-            makeObject();
+            if( !ref_.valid() )
+              makeObject();
             out.xfer(ref_);
             clear();
           }
-- 
2.43.0


From a12f8a70ca441f049ee9dabea19e027a6bb3334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 17/91] fix: List::get() was off by one for negative indices
 and read past the end of an empty list

---
 DMI/src/List.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/DMI/src/List.cc b/DMI/src/List.cc
index 41c23d0..1a768a9 100644
--- a/DMI/src/List.cc
+++ b/DMI/src/List.cc
@@ -63,7 +63,6 @@ DMI::List::ItemList::const_iterator DMI::List::applyIndexConst (int n) const
   if( n<0 )
   {
     ItemList::const_reverse_iterator riter = items.rbegin();
-    n++;
     while( n<0 && riter != items.rend() )
       ++n,++riter;
     FailWhen(n,"index out of range"); 
@@ -72,12 +71,9 @@ DMI::List::ItemList::const_iterator DMI::List::applyIndexConst (int n) const
   else 
   {
     ItemList::const_iterator iter = items.begin();
-    while( n>0 )
-    {
-      n--;
-      iter++;
-      FailWhen(iter == items.end(),"index out of range"); 
-    }
+    while( n>0 && iter != items.end() )
+      --n,++iter;
+    FailWhen(iter == items.end(),"index out of range"); 
     return iter;
   }
 }
-- 
2.43.0


From 3895949e995622d4ca142d8912417b79be9c84f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 18/91] fix: Record "#n" access started from an uninitialised
 iterator

---
 DMI/src/Record.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/Record.cc b/DMI/src/Record.cc
index 1aa3da2..0ce1d48 100644
--- a/DMI/src/Record.cc
+++ b/DMI/src/Record.cc
@@ -336,7 +336,7 @@ int DMI::Record::get (const HIID &id,ContentInfo &info,
   FailWhen(!id.size(),"null field id");
   bool writing = flags&DMI::WRITE;
   Assert1(nonconst || !writing);
-  CFMI iter;
+  CFMI iter = fields.begin();
   // "AidHash" followed by a single numeric index is field #
   if( id.size() == 2 && id[0] == AidHash && id[1].index() >= 0 )
   {
-- 
2.43.0


From c74e0275e3e3af5ca107a1ccf4ca03dc1f4a47f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 19/91] fix: Record::merge() refused because of a protected
 field left the record half merged

---
 DMI/src/Record.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/DMI/src/Record.cc b/DMI/src/Record.cc
index 0ce1d48..854d884 100644
--- a/DMI/src/Record.cc
+++ b/DMI/src/Record.cc
@@ -138,6 +138,14 @@ void DMI::Record::merge (const Record &other,bool overwrite,int flags)
     Thread::Mutex::Lock lock2(other.mutex());
 #endif
     dprintf(2)("merge(%s,%d,%d)\n",other.debug(1),int(overwrite),flags);
+    // check for protected fields first, so that a refused merge changes nothing
+    if( overwrite )
+      for( CFMI oiter = other.fields.begin(); oiter != other.fields.end(); oiter++ )
+      {
+        CFMI iter = fields.find(oiter->first);
+        FailWhen(iter != fields.end() && iter->second.isProtected(),
+                 "can't overwrite protected field "+oiter->first.toString('.'));
+      }
     for( CFMI oiter = other.fields.begin(); oiter != other.fields.end(); oiter++ )
     {
       // try to insert entry with other's key into map 
@@ -148,7 +156,6 @@ void DMI::Record::merge (const Record &other,bool overwrite,int flags)
       std::pair<FMI,bool> res = fields.insert(entry);
       Field &fld = res.first->second;
       // fld now points to the new (or existing entry). Attach content
-      FailWhen(!res.second && overwrite && fld.isProtected(),"can't overwrite protected field "+entry.first.toString('.'));
       if( res.second || overwrite )
         fld = oiter->second;
     }
-- 
2.43.0


From 1f9b483698b2a1e5f8c8950624992c3b72120fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 20/91] fix: NumArray accepted ranges ending past the end of an
 axis

---
 DMI/src/NumArray.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index 62aa43c..defacc4 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -793,6 +793,9 @@ int DMI::NumArray::parseHIID (const HIID& id, LoPos & st, LoPos & end,LoPos & in
 	        AssertMsg (end[nraxes] > st[nraxes], "End " << end[nraxes]-1
 		           << " should be >= start " << st[nraxes]
 		           << " in HIID " << id.toString());
+	        AssertMsg (end[nraxes] <= itsShape[nraxes], "End " << end[nraxes]-1
+		           << " should be < axis length " << itsShape[nraxes]
+		           << " in HIID " << id.toString());
         }
         else if( nr == 2 ) 
         {
-- 
2.43.0


From efea10b848fa63eda5322790aa36bfbcd15c0d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 21/91] fix: NumArray strided ranges lost their last element
 when the stride does not divide the range

---
 DMI/src/NumArray.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index defacc4..4a67db8 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -698,7 +698,8 @@ int DMI::NumArray::get (const HIID& id, ContentInfo &info,bool nonconst,int flag
     // if keeping the axis, then add it to output shape & stride
     if( keepAxes[i] )
     {
-      subshape[iax] = (end[i]-st[i])/incr[i];
+      // last element may fall short of the end of the range
+      subshape[iax] = (end[i]-st[i]+incr[i]-1)/incr[i];
       substride[iax] = incr[i]*stride;
       iax--;
     }
-- 
2.43.0


From a77e83115b588cdb58435f2219c87c6e2b89122c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 22/91] fix: NumArray copy constructor with another real type
 left the data pointer uninitialised

---
 DMI/src/NumArray.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index 4a67db8..4d66f70 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -241,7 +241,6 @@ void DMI::NumArray::cloneOther (const NumArray& other,int flags,int depth,bool c
       Header *hdr = itsData().pdata<Header>();
       BObj::fillHeader(hdr,1,realtype);
     }
-    else
     itsArrayData = const_cast<char*>(itsData->cdata()) + itsDataOffset;
     // strings need to be initialized & copied over explicitly
     if( itsScaType == Tpstring )
-- 
2.43.0


From 2a63fc2854677a4104b8309dc467f528ede66ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 23/91] fix: NumArray partial index dropped the axes it does
 not mention

---
 DMI/src/NumArray.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index 4d66f70..2be475e 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -814,6 +814,10 @@ int DMI::NumArray::parseHIID (const HIID& id, LoPos & st, LoPos & end,LoPos & in
   AssertMsg (!hadRange, "HIID " << id.toString()
 	     << " does not have a value after range delimiter");
   
+  // axes not mentioned at all are kept in full
+  for( int i=nraxes+1; i<ndim; i++ )
+    keepAxes[i] = true;
+  
   int nkeep = 0;
   for( int i=0; i<ndim; i++ )
     if( keepAxes[i] )
-- 
2.43.0


From e5d1cdea8759250b11c5a95a2ef3aaede2f93148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 24/91] fix: Hook::remove() emptied the element even when its
 removal was refused

---
 DMI/src/Container.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/Container.cc b/DMI/src/Container.cc
index e734911..c4b16a8 100644
--- a/DMI/src/Container.cc
+++ b/DMI/src/Container.cc
@@ -417,7 +417,7 @@ DMI::ObjRef DMI::Container::Hook::remove () const
   resolveToWritableContainer();
   ObjRef ret;
   if( isRef() )
-    ret.xfer(const_cast<ObjRef*>(asRef(false))->unlock());
+    ret.copy(*asRef(false));
   nc->remove(*pid);
   target.ptr = 0;
   return ret;
-- 
2.43.0


From ecea8219ed3852202485284ecc42314ccf856b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 25/91] fix: max() of a Vells started from the smallest
 positive number, not the lowest

---
 MEQ/src/Vells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 8583d01..6095597 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -843,7 +843,7 @@ inline dcomplex mkconst (int x,dcomplex *)
 defineReductionFuncTemplate(min,std::numeric_limits<TY>::max());
 defineErrorRedFuncTemplate(min,"min() can only be applied to a real Meq::Vells");
 #define Do_max(y,x) y=max(x,y)
-defineReductionFuncTemplate(max,std::numeric_limits<TY>::min());
+defineReductionFuncTemplate(max,-std::numeric_limits<TY>::max());
 defineErrorRedFuncTemplate(max,"max() can only be applied to a real Meq::Vells");
 
 Meq::Vells::UnaryRdFuncPtr Meq::Vells::unifunc_min_lut[VELLS_LUT_SIZE] =
-- 
2.43.0


From bfd7456a17a69a6ed6a46a0b6a1d1ce57d981165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 26/91] fix: posdiff() wrapped by 2/pi instead of 2*pi

---
 MEQ/src/Vells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 6095597..cb38503 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -1212,7 +1212,7 @@ Meq::Vells::BinaryOperPtr Meq::Vells::binfunc_polar_lut[VELLS_LUT_SIZE][VELLS_LU
 static inline double posdiff (double x,double y)
 {
   double diff = x-y;
-  return diff < -M_PI ? diff + M_2_PI : ( diff > M_PI ? diff - M_2_PI : diff );
+  return diff < -M_PI ? diff + 2*M_PI : ( diff > M_PI ? diff - 2*M_PI : diff );
 }
 defineBinaryFuncTemplate(posdiff,posdiff,);
 defineErrorFunc2(error_binary_posdiff,"posdiff() can only be applied to two real Meq::Vells");
-- 
2.43.0


From e4c94698c2132d28fcdad36b8ce46b7bd4fdce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 27/91] fix: arg() of a real Vells read memory past its
 argument

---
 MEQ/src/Vells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index cb38503..6325670 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -602,7 +602,7 @@ inline T UNARY_MINUS_impl (T x)
 
 inline double arg (const double x)
 {
-    return std::arg(*reinterpret_cast<const std::complex<double>*>(&x));
+    return std::arg(std::complex<double>(x,0));
 }
 #else
 
-- 
2.43.0


From 854280f8bf79d6764280463567d0dacd4fef484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 28/91] fix: complement of flags was computed from
 uninitialised storage

---
 MEQ/src/Vells.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 6325670..6f6265f 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -692,8 +692,9 @@ DoForAllUnaryOperators(implementUnaryOperator,);
   Meq::Vells Meq::Vells::operator OPER () const \
   { \
     Vells result(*this,VF_FLAGTYPE,"operator "#OPER); \
-    for( FT *ptr = result.begin<FT>(); ptr != result.end<FT>(); ptr++ ) \
-       (*ptr) = OPER (*ptr); \
+    const FT *px = begin<FT>(); \
+    for( FT *ptr = result.begin<FT>(); ptr != result.end<FT>(); ptr++,px++ ) \
+       (*ptr) = OPER (*px); \
     return result; \
   }
 
-- 
2.43.0


From 0a014f390a93d55bfdf0f8d4ddf180ecee776263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 29/91] fix: sum, product and nelements of a Vells counted flag
 axes twice

---
 MEQ/src/Vells.cc | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 6f6265f..9fc0395 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -875,13 +875,27 @@ Meq::Vells::UnaryRdFuncPtr Meq::Vells::unifunc_mean_lut[VELLS_LUT_SIZE] =
 // these functions require a renormalization term, to take into account the
 // fact that a Vells constant along axis #i will only contain one
 // actual value to represent Ni points.
-// The renormalization term is (N points in full shape)/(N actual points in Vells)
+// The renormalization term is (N points in full shape)/(N points reduced over)
+static int getRenorm (const Meq::Vells &x,const Meq::Vells::Shape &shape,FT flagmask)
+{
+  int npoints = x.nelements();
+  if( flagmask && x.hasDataFlags() )
+  {
+    // when using flags, reduction goes over the union of the data and the flag shape
+    Meq::Vells::Strides st[2];
+    Meq::Vells::Shape shp;
+    Meq::Vells::computeStrides(shp,st,x.shape(),x.flagShape());
+    npoints = shp.product();
+  }
+  return shape.product()/npoints;
+}
+
 template<class TY,class TX>
 static void implement_sum (Meq::Vells &y,const Meq::Vells &x,const Meq::Vells::Shape &shape,FT flagmask)
 {
   int nel;
   TY y0 = implement_sum_impl(nel,x,flagmask,Type2Type<TY>(),Type2Type<TX>());
-  int renorm = shape.product()/x.nelements(); // renorm factor for collapsed dimensions
+  int renorm = getRenorm(x,shape,flagmask); // renorm factor for collapsed dimensions
   y.as(Type2Type<TY>()) = y0 * mkconst(renorm,&y0);
 }
 
@@ -892,7 +906,7 @@ static void implement_product (Meq::Vells &y,const Meq::Vells &x,const Meq::Vell
 {
   int nel;
   TY y0 = implement_product_impl(nel,x,flagmask,Type2Type<TY>(),Type2Type<TX>());
-  int renorm = shape.product()/x.nelements(); // renorm factor for collapsed dimensions
+  int renorm = getRenorm(x,shape,flagmask); // renorm factor for collapsed dimensions
   y.as(Type2Type<TY>()) = pow(y0,renorm);
 }
 
@@ -909,11 +923,7 @@ static void implement_nelements (Meq::Vells &y,const Meq::Vells &x,const Meq::Ve
     // now, nel counts the non-flagged elements, auto-expanding collapsed axes
     // to the union of the data shape and the flag shape. If input shape is
     // bigger still, we need to renormalize by the remaining collapsed dimensions.
-    const Meq::Vells &df = x.dataFlags();
-    for( uint i=0; i<shape.size(); i++ )
-      if( shape[i] > 1 && x.extent(i) == 1 && df.extent(i) == 1 )
-        nel *= shape[i];
-    y.as<double>() = nel;
+    y.as<double>() = double(nel)*getRenorm(x,shape,flagmask);
   }
   else
     y.as<double>() = shape.product();
-- 
2.43.0


From 8fa60daf300584028cba5d0a3dd48d93f94eb6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 30/91] fix: a writable VellsSlicer wrote into data still
 shared with other Vells

---
 MEQ/src/VellsSlicer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/VellsSlicer.cc b/MEQ/src/VellsSlicer.cc
index 878d6d9..6f2bf99 100644
--- a/MEQ/src/VellsSlicer.cc
+++ b/MEQ/src/VellsSlicer.cc
@@ -76,7 +76,9 @@ void ConstVellsSlicer0::init (const Vells &vells,bool writable,const int *axes,i
   // now setup a DimCounter over the non-sliced axes
   counter_.init(ns_shape_);
   // setup initial data pointer
-  pdata_ = static_cast<char*>(const_cast<void*>(vells.getConstDataPtr()));
+  // (if writable, this makes sure the data is not shared with any other Vells)
+  pdata_ = static_cast<char*>(writable ? pvells0_->getDataPtr() 
+                                : const_cast<void*>(vells.getConstDataPtr()));
   // setup reference Vells
   initRefVells();
 }
-- 
2.43.0


From cb7a073ce7dd551240d1231436db229eb0080690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 31/91] fix: reduction along an axis read neighbouring points
 when the slice was not contiguous

---
 MEQ/src/VellsSlicerWithFlags.cc   | 27 ++++++++++++++++++++++++---
 MeqNodes/src/ReductionFunction.cc |  2 +-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/MEQ/src/VellsSlicerWithFlags.cc b/MEQ/src/VellsSlicerWithFlags.cc
index 21ba918..131c208 100644
--- a/MEQ/src/VellsSlicerWithFlags.cc
+++ b/MEQ/src/VellsSlicerWithFlags.cc
@@ -112,16 +112,37 @@ void ConstVellsSlicerWithFlags0::init (const Vells &vells,const int *axes,int n)
   initRefVells();
 }
 
+// helper: makes a Vells from a slice through another Vells' data. The slice must be copied out,
+// since it is not contiguous in general, and Vells math goes over contiguous storage
+static Vells * copySlice (const Vells &vells0,const char *pdata,const LoShape &shape,const LoShape &strides)
+{
+  Vells * pvells = new Vells(vells0,shape,false);
+  size_t size = vells0.elementSize();
+  char *pout = static_cast<char*>(pvells->getDataPtr());
+  int rank = shape.size();
+  for( int n=0; n<pvells->nelements(); n++,pout+=size )
+  {
+    int offset=0;
+    for( int i=rank-1,n1=n; i>=0; i-- )
+    {
+      offset += (n1%shape[i])*strides[i];
+      n1 /= shape[i];
+    }
+    memcpy(pout,pdata+offset*size,size);
+  }
+  return pvells;
+}
+
 void ConstVellsSlicerWithFlags0::initRefVells ()
 {
   FailWhen(pdata_+sizeof_slice_ > pdata_end_,"VellsSlicerWithFlags iterated past end of data. This should never happen: please file a bug report");
-  vells_.reference(pdata_,shape_,strides_,*const_cast<const Vells*>(pvells0_));
+  Vells::Ref slice(copySlice(*pvells0_,pdata_,shape_,strides_));
+  vells_ = *slice;
   if( fvells0_ )
   {
     FailWhen(pflags_+sizeof_flag_slice_ > pflags_end_,"VellsSlicerWithFlags iterated past end of flags. This should never happen: please file a bug report");
     Vells::Ref flags;
-    flags <<= new Vells;
-    flags().reference(pflags_,flag_shape_,flag_strides_,*fvells0_);
+    flags <<= copySlice(*fvells0_,pflags_,flag_shape_,flag_strides_);
     vells_.setDataFlags(flags);
   }
 }
diff --git a/MeqNodes/src/ReductionFunction.cc b/MeqNodes/src/ReductionFunction.cc
index e4d4409..75b9185 100644
--- a/MeqNodes/src/ReductionFunction.cc
+++ b/MeqNodes/src/ReductionFunction.cc
@@ -224,7 +224,7 @@ void ReductionFunction::evaluateFlags (Vells::Ref &out,const Request &req,const
       return;
     // create slicer and output flags
     Vells::Ref outflag_ref;
-    ConstVellsSlicer0 slicer;
+    ConstVellsSlicerWithFlags0 slicer;
     makeVellsSlicer(outflag_ref,slicer,vs.dataFlags());
     Vells & flags = outflag_ref();
     // now iterate over the output and over the slicer,
-- 
2.43.0


From 5bd18e2d6b22d9e8f178824b93dc86de7a178e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 32/91] fix: reduction along more axes than a child has failed

---
 MEQ/src/VellsSlicerWithFlags.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/VellsSlicerWithFlags.cc b/MEQ/src/VellsSlicerWithFlags.cc
index 131c208..6b85997 100644
--- a/MEQ/src/VellsSlicerWithFlags.cc
+++ b/MEQ/src/VellsSlicerWithFlags.cc
@@ -34,8 +34,8 @@ void ConstVellsSlicerWithFlags0::init (const Vells &vells,const int *axes,int n)
 {
   // if flags not attached, use the static "null" flags
   fvells0_ = vells.hasDataFlags() ? &(vells.dataFlags()) : 0;
+  FailWhen(n>Axis::MaxAxis,"rank of VellsSlicer is too high");
   int rank = std::max(vells.rank(),(fvells0_ ? fvells0_->rank() : 0));
-  FailWhen(n>rank,"rank of VellsSlicer is too high");
   // init internals
   pvells0_ = const_cast<Vells*>(&vells);
   data_size_ = vells.elementSize();
-- 
2.43.0


From cd8c6fdafaa5e9afaa0babf2d8f7b2656b148590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 33/91] fix: reductions along axes flagged points with any
 unmasked flag

---
 MeqNodes/src/ReductionFunction.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqNodes/src/ReductionFunction.cc b/MeqNodes/src/ReductionFunction.cc
index 75b9185..c0a95f4 100644
--- a/MeqNodes/src/ReductionFunction.cc
+++ b/MeqNodes/src/ReductionFunction.cc
@@ -80,7 +80,7 @@ VellsFlagType ReductionFunction::isAllFlagged (const Vells &flagvells,VellsFlagT
   // output will have a flag only if all of input is flagged
   const VellsFlagType *pflag = flagvells.begin<VellsFlagType>();
   for( ; pflag != flagvells.end<VellsFlagType>(); pflag++ )
-    if( !(*pflag)&mask )
+    if( !((*pflag)&mask) )
       return 0;
   // if we got here, than all points are flagged
   return mask;
-- 
2.43.0


From 90f7c80b4ef9078cb8421cf3e0cee1c805778882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 34/91] fix: sum along an axis was multiplied by the size of
 other collapsed axes

---
 MeqNodes/src/ReductionFunction.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/MeqNodes/src/ReductionFunction.cc b/MeqNodes/src/ReductionFunction.cc
index c0a95f4..033714e 100644
--- a/MeqNodes/src/ReductionFunction.cc
+++ b/MeqNodes/src/ReductionFunction.cc
@@ -25,6 +25,7 @@
 
 #include <MEQ/Vells.h>
 #include <MEQ/MeqVocabulary.h>
+#include <algorithm>
 
 namespace Meq {    
 
@@ -132,15 +133,11 @@ Vells ReductionFunction::apply (VellsMath::UnaryRdFuncWS func,const Vells &invel
   makeVellsSlicer(outref,slicer,invells);
   Vells &out = outref();
   // adjust shape: it may be bigger than the slice shape (i.e. if taking
-  // a sum while some axes are collapsed). So, for every axis that is present
-  // in the non-sliced shape, collapse the corresponding axis in the result shape
-  LoShape res_shape = res_shape0;
-  const LoShape &ns_shape = slicer.nonSlicedShape();
-  for( uint i=0; i<ns_shape.size(); i++ )
-  {
-    if( i<res_shape.size() && ns_shape[i] > 1  )
-      res_shape[i] = 1;
-  }
+  // a sum while some axes are collapsed). It is made up of the reduction axes only
+  LoShape res_shape(1);
+  for( uint i=0; i<res_shape0.size(); i++ )
+    if( std::find(reduction_axes_.begin(),reduction_axes_.end(),int(i)) != reduction_axes_.end() )
+      res_shape[0] *= res_shape0[i];
   // get pointers to output data
   char * ptr = static_cast<char*>(out.getDataPtr());
   size_t size = out.elementSize();
-- 
2.43.0


From 4f83896a0d812b90d5a9f3fbe55b47b9a7c4a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 35/91] fix: counting complex elements along an axis copied
 past the end of the count

---
 MeqNodes/src/ReductionFunction.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MeqNodes/src/ReductionFunction.cc b/MeqNodes/src/ReductionFunction.cc
index 033714e..cd0179f 100644
--- a/MeqNodes/src/ReductionFunction.cc
+++ b/MeqNodes/src/ReductionFunction.cc
@@ -131,13 +131,17 @@ Vells ReductionFunction::apply (VellsMath::UnaryRdFuncWS func,const Vells &invel
   Vells::Ref outref;
   ConstVellsSlicerWithFlags0 slicer;
   makeVellsSlicer(outref,slicer,invells);
-  Vells &out = outref();
   // adjust shape: it may be bigger than the slice shape (i.e. if taking
   // a sum while some axes are collapsed). It is made up of the reduction axes only
   LoShape res_shape(1);
   for( uint i=0; i<res_shape0.size(); i++ )
     if( std::find(reduction_axes_.begin(),reduction_axes_.end(),int(i)) != reduction_axes_.end() )
       res_shape[0] *= res_shape0[i];
+  // nelements() is real even if the input is complex
+  Vells result0 = (*func)(slicer.vells(),res_shape,flagmask);
+  if( result0.elementType() != outref->elementType() )
+    outref <<= new Vells(result0,slicer.nonSlicedShape(),false);
+  Vells &out = outref();
   // get pointers to output data
   char * ptr = static_cast<char*>(out.getDataPtr());
   size_t size = out.elementSize();
-- 
2.43.0


From bb0107d0899b9a3cdf6be6c79c056287fcd746e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 36/91] fix: Resampler multiplied a constant by the (truncated)
 ratio of cell counts when integrating it

---
 MeqNodes/src/Resampler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqNodes/src/Resampler.cc b/MeqNodes/src/Resampler.cc
index 2d7f777..f6e5578 100644
--- a/MeqNodes/src/Resampler.cc
+++ b/MeqNodes/src/Resampler.cc
@@ -462,7 +462,7 @@ Integrator::do_resample(blitz::Array<T,2> A,  blitz::Array<T,2> B ){
         //handle scalar case as a special case
         if (nx0==1 || ny0==1) {
           if (nx0==1 && ny0==1) {
-            A=B(0,0)*(double)(nx0_*ny0_/(nx_*ny_)); //divide by correct weight
+            A=B(0,0); // an average of equal values
             return 0;
           } else if(nx0==1) {
         	  for (int i=0; i<bx_[0].size();i++) {
-- 
2.43.0


From ecb04aea350fc3efa5ab885cddc66b78ccf98d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 37/91] fix: Resampler ignored flags of data that is constant
 along an axis, and misread flags whose shape differs from the data

---
 MeqNodes/src/Resampler.cc | 85 ++++++++-------------------------------
 MeqNodes/src/Resampler.h  |  2 +-
 2 files changed, 17 insertions(+), 70 deletions(-)

diff --git a/MeqNodes/src/Resampler.cc b/MeqNodes/src/Resampler.cc
index f6e5578..6da19be 100644
--- a/MeqNodes/src/Resampler.cc
+++ b/MeqNodes/src/Resampler.cc
@@ -545,12 +545,10 @@ Integrator::do_resample(blitz::Array<T,2> A,  blitz::Array<T,2> B ){
 //return 1 if new flags were created
 template<class T> int
 Integrator::do_resample(blitz::Array<T,2> A,  blitz::Array<T,2> B,
-			  VellsFlagType *Fp, bool has_flags,
+			  blitz::Array<VellsFlagType,2> F,
 				blitz::Array<VellsFlagType,2> Aflag) {
 				double tmp;
 				int create_flags=0;
-         //get Flags
-				 blitz::Array<VellsFlagType,2> F(const_cast<VellsFlagType*>(Fp),blitz::shape(B.extent(0),B.extent(1)),blitz::neverDeleteData);
          //an array to count actual contributed cell count
 				 blitz::Array<int,2> Acell(nx_,ny_);
          //an array to store contributed flag value
@@ -566,52 +564,9 @@ Integrator::do_resample(blitz::Array<T,2> A,  blitz::Array<T,2> B,
         int ny0=B.extent(1);
 
 
-        //handle scalar case as a special case
-        if (nx0==1 || ny0==1) {
-          if (nx0==1 && ny0==1) {
-            A=B(0,0)*(double)(nx0_*ny0_/(nx_*ny_)); //divide by correct weight
-            return 0;
-          } else if(nx0==1) {
-        	  for (int i=0; i<bx_[0].size();i++) {
-						Bnode &xx=bx_[0].get(i);
-						for (int j=0; j<bx_[1].size(); j++) {
-						 Bnode &yy=bx_[1].get(j);
-						 std::list<Bedge>::iterator fx=xx.begin();
-						 std::list<Bedge>::iterator fy=yy.begin();
-						 while(fx!=xx.end()) {
-							while(fy!=yy.end()) {
-								tmp=((*fx).w)*((*fy).w);
-								cell_weight_(i,j)+=tmp;
-								A(i,j)+=tmp*B(0,(*fy).id);
-								std::advance(fy,1);
-							}
-                fy=yy.begin();
-								std::advance(fx,1);
-						 }
-						}
-				   }
-          } else {
-        	  for (int i=0; i<bx_[0].size();i++) {
-						Bnode &xx=bx_[0].get(i);
-						for (int j=0; j<bx_[1].size(); j++) {
-						 Bnode &yy=bx_[1].get(j);
-						 std::list<Bedge>::iterator fx=xx.begin();
-						 std::list<Bedge>::iterator fy=yy.begin();
-						 while(fx!=xx.end()) {
-							while(fy!=yy.end()) {
-								tmp=((*fx).w)*((*fy).w);
-								cell_weight_(i,j)+=tmp;
-								A(i,j)+=tmp*B((*fx).id,0);
-								std::advance(fy,1);
-							}
-                fy=yy.begin();
-								std::advance(fx,1);
-						 }
-						}
-				   }
-          }
-
-        } else {
+        // data and flags may be constant along either axis (and not necessarily the same one)
+        int nxf=F.extent(0);
+        int nyf=F.extent(1);
 				 for (int i=0; i<bx_[0].size();i++) {
 						Bnode &xx=bx_[0].get(i);
 						for (int j=0; j<bx_[1].size(); j++) {
@@ -622,15 +577,17 @@ Integrator::do_resample(blitz::Array<T,2> A,  blitz::Array<T,2> B,
 							while(fy!=yy.end()) {
 							  //tmp=FMULT(((*fx).w),((*fy).w));
                 Acell(i,j)++;
-                if (!(F((*fx).id,(*fy).id) &flag_mask_)) {
+                int fx0 = nxf==1 ? 0 : (*fx).id;
+                int fy0 = nyf==1 ? 0 : (*fy).id;
+                if (!(F(fx0,fy0) &flag_mask_)) {
 								// no flags, or flags are ignored
 								tmp=((*fx).w)*((*fy).w);
 								cell_weight_(i,j)+=tmp;
-								A(i,j)+=tmp*B((*fx).id,(*fy).id);
+								A(i,j)+=tmp*B(nx0==1?0:(*fx).id,ny0==1?0:(*fy).id);
 								} else {
 									//we have a flag
 								Aflag(i,j)++;
-								Aflg(i,j)|=(F((*fx).id,(*fy).id) &flag_mask_);
+								Aflg(i,j)|=(F(fx0,fy0) &flag_mask_);
 								}
 								std::advance(fy,1);
 							}
@@ -640,7 +597,6 @@ Integrator::do_resample(blitz::Array<T,2> A,  blitz::Array<T,2> B,
 						 //cout<<"A("<<i<<","<<j<<")="<<A(i,j)<<endl;
 						}
 				}
-      }
 #ifdef DEBUG
 
 			 cout<<" Weight "<<cell_weight_<<endl;
@@ -723,22 +679,13 @@ int Integrator::apply(const VellSet &in, VellSet &out)
 				nxs=invl.extent(0);
 				nys=invl.extent(1);
 
-				VellsFlagType *F=0;
+				blitz::Array<VellsFlagType,2> F;
 				//check for flags
 				if (invl.hasDataFlags() ) {
-        Vells &flvl=const_cast<Vells &>(invl.dataFlags());
-
-				blitz::Array<VellsFlagType,2> FF=flvl.as<VellsFlagType,2>()(blitz::Range(0,nxs-1),blitz::Range(0,nys-1));
-
-#ifdef DEBUG
-				cout <<"Flags 1"<<FF<<endl;
-#endif
-				//F=const_cast<VellsFlagType*>(flvl.beginFlags());
-				F= const_cast<VellsFlagType*>(FF.data());
-
-#ifdef DEBUG
-				cout <<"Flags "<<F<<endl;
-#endif
+				 // flags have a shape of their own
+				 const Vells &flvl=invl.dataFlags();
+				 F.reference(blitz::Array<VellsFlagType,2>(const_cast<VellsFlagType*>(flvl.begin<VellsFlagType>()),
+				     blitz::shape(flvl.extent(0),flvl.extent(1)),blitz::neverDeleteData));
 				}
 
 				if (invl.isReal()) {
@@ -756,7 +703,7 @@ int Integrator::apply(const VellSet &in, VellSet &out)
          //allocate memory for flags
 				blitz::Array<VellsFlagType,2> Aflag(nx_,ny_);
 				 Aflag=0;
-         int has_flags=do_resample( A,  B,  F, invl.hasDataFlags(), Aflag);
+         int has_flags=do_resample( A,  B,  F, Aflag);
 				  out.setValue(new Vells(A));
 				 if (has_flags)
 					out.setDataFlags(new Vells(Aflag));
@@ -772,7 +719,7 @@ int Integrator::apply(const VellSet &in, VellSet &out)
 				}else{
 				 blitz::Array<VellsFlagType,2> Aflag(nx_,ny_);
 				 Aflag=0;
-         int has_flags=do_resample( Ac,  Bc,  F, invl.hasDataFlags(),Aflag);
+         int has_flags=do_resample( Ac,  Bc,  F,Aflag);
 				 out.setValue(new Vells(Ac));
 				 // only attach flags if new flags were created
 				 if (has_flags)
diff --git a/MeqNodes/src/Resampler.h b/MeqNodes/src/Resampler.h
index 48510b1..877fbb6 100644
--- a/MeqNodes/src/Resampler.h
+++ b/MeqNodes/src/Resampler.h
@@ -233,7 +233,7 @@ class Integrator: public ResampleMachine {
   template<class T> int  
    do_resample( 
 				blitz::Array<T,2> A,  blitz::Array<T,2> B,  
-			  VellsFlagType *Fp, bool has_flags, blitz::Array<VellsFlagType,2> Aflag);
+			  blitz::Array<VellsFlagType,2> F, blitz::Array<VellsFlagType,2> Aflag);
 
 
   void insert(int incell,int cell1, int cell2, int axis,
-- 
2.43.0


From a8178809a2d9e13e8a4e72e0a5d685831bbaea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 38/91] fix: Resampler read past the end of the input grid when
 an input axis has a single cell

---
 MeqNodes/src/Resampler.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/MeqNodes/src/Resampler.cc b/MeqNodes/src/Resampler.cc
index 6da19be..3492572 100644
--- a/MeqNodes/src/Resampler.cc
+++ b/MeqNodes/src/Resampler.cc
@@ -365,7 +365,7 @@ Integrator::setup(const Cells &in, const Cells &out) {
 #ifdef DEBUG
  cout<<"Cell "<<cli<<" falls on cells ["<<0<<","<<xxindex(cli)<<"]"<<endl;
 #endif
- insert(cli,0,xxindex(cli), 0,inxcellsize,xcellsize,xaxs,xax);
+ insert(cli,0,nxs>1 ? xxindex(cli) : nx_-1, 0,inxcellsize,xcellsize,xaxs,xax);
 
  cli++;
  while(cli<nxs-1){
@@ -378,7 +378,8 @@ Integrator::setup(const Cells &in, const Cells &out) {
 #ifdef DEBUG
  cout<<"Cell "<<cli<<" falls on cells ["<<xxindex(cli-1)<<","<<nx_-1<<"]"<<endl;
 #endif
- insert(cli, xxindex(cli-1),nx_-1, 0,inxcellsize,xcellsize,xaxs,xax);
+ if( nxs>1 )
+  insert(cli, xxindex(cli-1),nx_-1, 0,inxcellsize,xcellsize,xaxs,xax);
 
 #ifdef DEBUG
  bx_[0].print();
@@ -421,7 +422,7 @@ Integrator::setup(const Cells &in, const Cells &out) {
 #ifdef DEBUG
  cout<<"Cell "<<cli<<" falls on cells ["<<0<<","<<yyindex(cli)<<"]"<<endl;
 #endif
- insert(cli,0,yyindex(cli), 1,inycellsize,ycellsize,yaxs,yax);
+ insert(cli,0,nys>1 ? yyindex(cli) : ny_-1, 1,inycellsize,ycellsize,yaxs,yax);
 
  cli++;
  while(cli<nys-1){
@@ -434,7 +435,8 @@ Integrator::setup(const Cells &in, const Cells &out) {
 #ifdef DEBUG
  cout<<"Cell "<<cli<<" falls on cells ["<<yyindex(cli-1)<<","<<ny_-1<<"]"<<endl;
 #endif
- insert(cli, yyindex(cli-1),ny_-1, 1,inycellsize,ycellsize,yaxs,yax);
+ if( nys>1 )
+  insert(cli, yyindex(cli-1),ny_-1, 1,inycellsize,ycellsize,yaxs,yax);
 
 #ifdef DEBUG
  bx_[1].print();
-- 
2.43.0


From a0ca4cdab0127b6bb518d396225a60f61fcb26ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 39/91] fix: Resampler let cells that only share an edge with
 an output cell contribute their flags to it

---
 MeqNodes/src/Resampler.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MeqNodes/src/Resampler.cc b/MeqNodes/src/Resampler.cc
index 3492572..5bfa240 100644
--- a/MeqNodes/src/Resampler.cc
+++ b/MeqNodes/src/Resampler.cc
@@ -667,6 +667,9 @@ Integrator::insert(int incell,int cell1, int cell2, int axis,
 	cout<<"W ="<<comm<<"/"<<incellsize(incell)<<endl;
 #endif
 	double weight=comm/incellsize(incell);
+  // neighbours that merely share an edge (to within roundoff) do not contribute
+  if( weight<1e-9 )
+    continue;
   INSERT(incell,i,weight,bx_[axis]);
 	}
  }
-- 
2.43.0


From c352f22bd1e69335b033d0bf5750195a70d06278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 40/91] fix: Resampler used wrong weights for cubic
 interpolation on irregular grids

---
 MeqNodes/src/Resampler.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MeqNodes/src/Resampler.cc b/MeqNodes/src/Resampler.cc
index 5bfa240..9ba3824 100644
--- a/MeqNodes/src/Resampler.cc
+++ b/MeqNodes/src/Resampler.cc
@@ -808,7 +808,7 @@ template<class T> void
 		//have same length, take harmonic mean
 		double w1=2*h(k)+h(k-1);
 		double w2=h(k)+2*h(k-1);
-		d(k)=(w1+w1)/(w1/del(k-1)+w2/del(k));
+		d(k)=(w1+w2)/(w1/del(k-1)+w2/del(k));
 		}
 	}
 
@@ -946,13 +946,13 @@ void
 									 || (delr <0 && delr1>0) ))	 {
 		 double w1=2*h(k)+h(k-1);
 		 double w2=h(k)+2*h(k-1);
-		 dr=(w1+w1)/(w1/delr1+w2/delr);
+		 dr=(w1+w2)/(w1/delr1+w2/delr);
     }
 		if (!(deli1==0 || deli==0 || ((deli) >0 && deli1<0)
 									 || (deli <0 && deli1>0) ))	 {
 		 double w1=2*h(k)+h(k-1);
 		 double w2=h(k)+2*h(k-1);
-		 di=(w1+w1)/(w1/deli1+w2/deli);
+		 di=(w1+w2)/(w1/deli1+w2/deli);
     }
 	  d(k)=make_dcomplex(dr,di);
 	}
-- 
2.43.0


From cd6cb7a0d3db19092a31861bb5921cef43fbf68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 41/91] fix: Cells derived from other cells had a rank of 8
 (and so never compared equal to them)

---
 MEQ/src/Cells.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index 3afead7..3a2d160 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -218,6 +218,9 @@ void Cells::setAxisShape (int iaxis,int num)
   int sz = shape_.size();
   if( iaxis >= sz )
   {
+    // an undefined axis does not add to the rank
+    if( !num )
+      return;
     shape_.resize(iaxis+1);
     defined_.resize(iaxis+1);
     for( ; sz<iaxis; sz++ )
-- 
2.43.0


From 3a1c1d7f75602c8a8957cb4ace735a7b753f0399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 42/91] fix: Cells::compare() had it backwards for empty cells

---
 MEQ/src/Cells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index 3a2d160..ce40417 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -546,7 +546,7 @@ void Cells::superset (Cells::Ref &ref,const Cells &a,const Cells &b)
 int Cells::compare (const Cells &that) const
 {
   if( !domain_.valid() ) // are we empty?
-    return !that.domain_.valid(); // equal if that is empty too, else not
+    return that.domain_.valid() ? -1 : 0; // equal if that is empty too, else not
   // check for equality of domains & shapes
   if( !that.domain_.valid() ||
       domain() != that.domain() )
-- 
2.43.0


From d717ec818f2ccd573af80dc93796774d3a247234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 43/91] fix: Domain and Cells wrote out of bounds when built
 from a record with an axis number above 7

---
 MEQ/src/Cells.cc  | 1 +
 MEQ/src/Domain.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index ce40417..ec541c3 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -423,6 +423,7 @@ void Cells::validateContent (bool)
         int iaxis = id[0].index();
         if( iaxis<0 || id.size()>1 )
           iaxis = Axis::axis(id);
+        FailWhen(iaxis<0 || iaxis>=Axis::MaxAxis,"illegal axis "+id.toString());
         // check that this axis is defined in the domain
         FailWhen(!domain_->isDefined(iaxis),"axis "+id.toString()+" not defined in domain");
         // set grid centers and axis shape
diff --git a/MEQ/src/Domain.cc b/MEQ/src/Domain.cc
index 6322a7b..3c106e7 100644
--- a/MEQ/src/Domain.cc
+++ b/MEQ/src/Domain.cc
@@ -150,6 +150,7 @@ void Domain::validateContent (bool)
       int iaxis = id[0].index();
       if( iaxis<0 || id.size()>1 )
         iaxis = Axis::axis(id);
+      FailWhen(iaxis<0 || iaxis>=Axis::MaxAxis,"illegal axis "+id.toString());
       int size;
       const double *a = (*pcont)[HIID()].as_p<double>(size);
       FailWhen(size!=2,"bad axis specification for "+id.toString());
-- 
2.43.0


From 858c925ffaef61f32af05414d5dc8edee6b7314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 44/91] fix: perturbation sets that a child does not have were
 read past the end of its perturbed values

---
 MEQ/src/Function.cc            | 2 +-
 MEQ/src/TensorFunction.cc      | 2 +-
 MeqNodes/src/MatrixInvert22.cc | 2 +-
 MeqNodes/src/MatrixMultiply.cc | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index 50ea760..185f1fe 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -250,7 +250,7 @@ int Function::getResult (Result::Ref &resref,
             int inx = vs.isDefined(spids[j],indices[ich]);
             if( inx >= 0 )
             {
-              for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+              for( int ipert=0; ipert<vs.numPertSets(); ipert++ )
               {
                 const Vells &pvv = vs.getPerturbedValue(inx,ipert);
 //                childpvv_lock[ipert][ich].relock(pvv.mutex());
diff --git a/MEQ/src/TensorFunction.cc b/MEQ/src/TensorFunction.cc
index 589e8d7..fe2e480 100644
--- a/MEQ/src/TensorFunction.cc
+++ b/MEQ/src/TensorFunction.cc
@@ -206,7 +206,7 @@ void TensorFunction::computeTensorResult (Result::Ref &resref,
         int inx = vs.isDefined(spids[ispid],index_vector_[ichild][ivs]);
         if( inx >= 0 )
         {
-          for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+          for( int ipert=0; ipert<vs.numPertSets(); ipert++ )
           {
             const Vells &pvv = vs.getPerturbedValue(inx,ipert);
             pert_vectors_[ipert][ichild][ivs] = &pvv;
diff --git a/MeqNodes/src/MatrixInvert22.cc b/MeqNodes/src/MatrixInvert22.cc
index 6ebeb11..046b82b 100644
--- a/MeqNodes/src/MatrixInvert22.cc
+++ b/MeqNodes/src/MatrixInvert22.cc
@@ -196,7 +196,7 @@ int MatrixInvert22::getResult (Result::Ref &resref,
             if( inx >= 0 )
             {
               changed[ivs] = true;
-              for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+              for( int ipert=0; ipert<vs.numPertSets(); ipert++ )
               {
                 const Vells &pvv = vs.getPerturbedValue(inx,ipert);
                 pert_values[ipert][ivs] = &pvv;
diff --git a/MeqNodes/src/MatrixMultiply.cc b/MeqNodes/src/MatrixMultiply.cc
index 49e643d..9138066 100644
--- a/MeqNodes/src/MatrixMultiply.cc
+++ b/MeqNodes/src/MatrixMultiply.cc
@@ -180,7 +180,7 @@ void MatrixMultiply::scalarMultiply (Result::Ref &res,
         int inx = vs.isDefined(spids[ispid],indices[ich]);
         if( inx >= 0 )
         {
-          for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+          for( int ipert=0; ipert<vs.numPertSets(); ipert++ )
           {
             const Vells &pvv = vs.getPerturbedValue(inx,ipert);
             pert_values[ipert][ich] = &pvv;
@@ -372,7 +372,7 @@ int MatrixMultiply::getResult (Result::Ref &resref,
                 int inx = vs.isDefined(spids[ispid],indices[ivs]);
                 if( inx >= 0 )
                 {
-                  for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+                  for( int ipert=0; ipert<vs.numPertSets(); ipert++ )
                   {
                     const Vells &pvv = vs.getPerturbedValue(inx,ipert);
                     pert_values[ipert][ivs] = &pvv;
-- 
2.43.0


From 5ac1c37204366131ecded305637d4a53d9dd269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 45/91] fix: Function reported missing data instead of a fail
 when all its planes had failed

---
 MEQ/src/Function.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index 185f1fe..81e3ff7 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -201,7 +201,10 @@ int Function::getResult (Result::Ref &resref,
     {
       if( nmissing == nrch || !allow_missing_data_ )
       {
-        missing_planes++;
+        if( vellset.isFail() )
+          nfails++;
+        else
+          missing_planes++;
         continue;
       }
     }
-- 
2.43.0


From e03daa8bf3032f86db9491bb6a020622276f16a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 46/91] fix: Selector and Paster stepped to the wrong planes
 when slicing over several tensor axes

---
 MeqNodes/src/Paster.cc   | 5 ++++-
 MeqNodes/src/Selector.cc | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/MeqNodes/src/Paster.cc b/MeqNodes/src/Paster.cc
index d4530f6..c2257b6 100644
--- a/MeqNodes/src/Paster.cc
+++ b/MeqNodes/src/Paster.cc
@@ -148,7 +148,10 @@ int Paster::getResult (Result::Ref &resref,
             if( --shp0[idim] )       // still something to go? break
               break;
             else                     // reached end of axis, reset and go to next
-              shp0[idim] = shp[idim]; 
+            {
+              shp0[idim] = shp[idim];
+              offset -= shp[idim]*strides[idim];
+            }
           }
       }
     }
diff --git a/MeqNodes/src/Selector.cc b/MeqNodes/src/Selector.cc
index 75d546d..ced0a83 100644
--- a/MeqNodes/src/Selector.cc
+++ b/MeqNodes/src/Selector.cc
@@ -159,7 +159,10 @@ int Selector::getResult (Result::Ref &resref,
             if( --shp0[idim] )       // still something to go? break
               break;
             else                     // reached end of axis, reset and go to next
+            {
               shp0[idim] = shp[idim];
+              offset -= shp[idim]*strides[idim];
+            }
           }
       }
     }
-- 
2.43.0


From de41acbf11f2f69f30a7ca3c4cbebfd2fd8e2435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 47/91] fix: Paster failed to paste a varying value into a
 result without cells

---
 MeqNodes/src/Paster.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MeqNodes/src/Paster.cc b/MeqNodes/src/Paster.cc
index c2257b6..5bc3734 100644
--- a/MeqNodes/src/Paster.cc
+++ b/MeqNodes/src/Paster.cc
@@ -156,6 +156,9 @@ int Paster::getResult (Result::Ref &resref,
       }
     }
   }
+  // a varying result pasted into one without cells brings its cells along
+  if( !resref->hasCells() && childres.hasCells() )
+    resref().setCells(childres.cells());
   // check that shapes are still valid (since we may have pasted in
   // a child result of a conflicting shape)
   resref().verifyShape();
-- 
2.43.0


From f046ba84e640e01b412d86aa927c3dced8dd7c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 48/91] fix: Composer in tensor mode compared the number of
 failed planes with the wrong total

---
 MeqNodes/src/Composer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MeqNodes/src/Composer.cc b/MeqNodes/src/Composer.cc
index 02d83b5..da9b221 100644
--- a/MeqNodes/src/Composer.cc
+++ b/MeqNodes/src/Composer.cc
@@ -144,6 +144,8 @@ int Composer::getResult (Result::Ref &resref,
           vsref <<= &( chres.vellSet(0) );
           if( vsref->isFail() )
             nfails += nres0;
+          else if( vsref->isEmpty() )
+            nmissing += nres0;
         }
         else
         {
@@ -172,6 +174,9 @@ int Composer::getResult (Result::Ref &resref,
     if( !pcells && chres.hasCells() )
       pcells = &( chres.cells() );
   }
+  // in tensor mode, scalar children are repeated over several planes
+  if( tensor_mode )
+    nres = ires;
   if( nres )
   {
     if( nfails == nres )
-- 
2.43.0


From 012181d0adf10614cb8e8c3beb4dddb62f7f42aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 49/91] fix: ReplaceFlaggedValues failed when the second child
 had no flags

---
 MeqNodes/src/ReplaceFlaggedValues.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqNodes/src/ReplaceFlaggedValues.cc b/MeqNodes/src/ReplaceFlaggedValues.cc
index cd9bf98..ebb3d6f 100644
--- a/MeqNodes/src/ReplaceFlaggedValues.cc
+++ b/MeqNodes/src/ReplaceFlaggedValues.cc
@@ -65,7 +65,7 @@ Vells ReplaceFlaggedValues::evaluate (const Request&,const LoShape & inshape,
 		     const vector<const Vells*>& values)
 {
   Vells val = *(values[0]);
-  if( flags_ )
+  if( flags_.valid() )
   {
     if( val.isReal() )
       val.replaceFlaggedValues(*flags_,creal(value_));
-- 
2.43.0


From 2a9a06c873958a8e10556dcc6fb1ee93756365f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 50/91] fix: TensorFunction replaced the fails of single child
 planes with "no main value"

---
 MEQ/src/TensorFunction.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/MEQ/src/TensorFunction.cc b/MEQ/src/TensorFunction.cc
index fe2e480..a5c94dc 100644
--- a/MEQ/src/TensorFunction.cc
+++ b/MEQ/src/TensorFunction.cc
@@ -253,6 +253,21 @@ int TensorFunction::getResult (Result::Ref &resref,
                          const std::vector<Result::Ref> &childres,
                          const Request &req,bool)
 {
+  // any failed vellsets fail the whole result
+  VellSet::Ref fail_vs(DMI::ANONWR);
+  for( uint ichild=0; ichild<childres.size(); ichild++ )
+    for( int ivs=0; ivs<childres[ichild]->numVellSets(); ivs++ )
+    {
+      const VellSet &vs = childres[ichild]->vellSet(ivs);
+      for( int i=0; i<vs.numFails(); i++ )
+        fail_vs().addFail(vs.getFail(i));
+    }
+  if( fail_vs->isFail() )
+  {
+    Result &result = resref <<= new Result(1);
+    result.setVellSet(0,fail_vs);
+    return RES_FAIL;
+  }
   // compute result cells
   result_cells_.detach();
   computeResultCells(result_cells_,childres,req);
-- 
2.43.0


From 9e253934ecd6f3b30fb7a26ec49c9ccec285f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 51/91] fix: Constant could not be created from a scalar value

---
 MeqNodes/src/Constant.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MeqNodes/src/Constant.cc b/MeqNodes/src/Constant.cc
index 5ff4727..2469ae3 100644
--- a/MeqNodes/src/Constant.cc
+++ b/MeqNodes/src/Constant.cc
@@ -102,7 +102,8 @@ void Constant::setStateImpl (DMI::Record::Ref& rec, bool initializing)
   {
     TypeId type = hook.type();
     // can we access this as a NumArray?
-    const DMI::NumArray *parr = hook.as_po<DMI::NumArray>();
+    const DMI::NumArray *parr = hook.isContainer() ?
+        dynamic_cast<const DMI::NumArray*>(&( hook.as<DMI::Container>() )) : 0;
     // a scalar may have been passed in as a 1-element array
     if( parr )
     {
-- 
2.43.0


From ffb131b5925ceb0b3fab85756834f0a704284c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 52/91] fix: Rms ignored flags

---
 MeqNodes/src/Rms.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MeqNodes/src/Rms.cc b/MeqNodes/src/Rms.cc
index fe76bbd..ae742ea 100644
--- a/MeqNodes/src/Rms.cc
+++ b/MeqNodes/src/Rms.cc
@@ -39,14 +39,18 @@ Vells Rms::evaluate (const Request&,const LoShape &,
 		     const vector<const Vells*>& values)
 {
   // only one child ever expected -- see constructor 
+  // sqr() does not carry over the flags
+  Vells vsq = sqr(*values[0]);
+  if( values[0]->hasDataFlags() )
+    vsq.setDataFlags(values[0]->dataFlags());
   if( hasReductionAxes() )  // reduce along axes 
   {
-    Vells vmeansq = apply(VellsMath::mean,sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = apply(VellsMath::mean,vsq,flagmask_[0]);
     return sqrt(vmeansq);
   }
   else                      // reduce to single value
   {
-    Vells vmeansq = mean(sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = mean(vsq,flagmask_[0]);
     return sqrt(vmeansq);
   }
 }
-- 
2.43.0


From 5d9528a21874c37efd2cdadafd20b1b08a14da9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 53/91] fix: StdDev ignored flags when squaring, and returned
 NaN for nearly constant data

---
 MeqNodes/src/StdDev.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/MeqNodes/src/StdDev.cc b/MeqNodes/src/StdDev.cc
index cabad27..3df6d63 100644
--- a/MeqNodes/src/StdDev.cc
+++ b/MeqNodes/src/StdDev.cc
@@ -36,6 +36,15 @@ StdDev::StdDev()
 StdDev::~StdDev()
 {}
 
+// returns squared deviations from the mean, with the flags of the input
+static Vells sqrdev (const Vells &in,const Vells &mean)
+{
+  Vells out = sqr(in - mean);
+  if( in.hasDataFlags() )
+    out.setDataFlags(in.dataFlags());
+  return out;
+}
+
 Vells StdDev::evaluate (const Request&,const LoShape &,
 		     const vector<const Vells*>& values)
 {
@@ -43,14 +52,12 @@ Vells StdDev::evaluate (const Request&,const LoShape &,
   if( hasReductionAxes() )  // reduce along axes 
   {
     Vells vmean = apply(VellsMath::mean,*values[0],flagmask_[0]);
-    Vells vmeansq = apply(VellsMath::mean,sqr(*values[0]),flagmask_[0]);
-    return sqrt(vmeansq - sqr(vmean));
+    return sqrt(apply(VellsMath::mean,sqrdev(*values[0],vmean),flagmask_[0]));
   }
   else                      // reduce to single value
   {
     Vells vmean = mean(*values[0],flagmask_[0]);
-    Vells vmeansq = mean(sqr(*values[0]),flagmask_[0]);
-    return sqrt(vmeansq - sqr(vmean));
+    return sqrt(mean(sqrdev(*values[0],vmean),flagmask_[0]));
   }
 }
 
-- 
2.43.0


From b75f1102daf3c443d9d6ca5fdcb79843694fb77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 54/91] fix: MatrixInvert22 failed on inputs with two
 perturbation sets

---
 MeqNodes/src/MatrixInvert22.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqNodes/src/MatrixInvert22.cc b/MeqNodes/src/MatrixInvert22.cc
index 046b82b..1ec9933 100644
--- a/MeqNodes/src/MatrixInvert22.cc
+++ b/MeqNodes/src/MatrixInvert22.cc
@@ -141,7 +141,7 @@ int MatrixInvert22::getResult (Result::Ref &resref,
     VellSet * outvs[nvs];
     for( int i=0; i<nvs; i++ )
     {
-      outvs[i] = &(result.setNewVellSet(i));
+      outvs[i] = &(result.setNewVellSet(i,0,0));
       // attach flags to output vellsets
       if( flagref.valid() )
         outvs[i]->setDataFlags(flagref);
-- 
2.43.0


From 6662d47a62038c62f5f3ed800436ce4aa1cf42d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 55/91] fix: Stripper dropped the data flags

---
 MeqNodes/src/Stripper.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/MeqNodes/src/Stripper.cc b/MeqNodes/src/Stripper.cc
index fd761d3..6c9b66c 100644
--- a/MeqNodes/src/Stripper.cc
+++ b/MeqNodes/src/Stripper.cc
@@ -52,7 +52,13 @@ int Stripper::getResult (Result::Ref &resref,
   {
     const VellSet &vs = resref->vellSet(i);
     if( vs.hasValue() && vs.numSpids()>0 )
-      resref().setNewVellSet(i).setValue(vs.getValue());
+    {
+      VellSet::Ref stripped(new VellSet);
+      stripped().setValue(vs.getValue());
+      if( vs.hasDataFlags() )
+        stripped().setDataFlags(vs.dataFlags());
+      resref().setVellSet(i,stripped);
+    }
   }
   // if something has changed in the result, call verify shape, since
   // that'll strip off cells too if they are no longer needed
-- 
2.43.0


From ab2fadcf3396ec48e531de16207153808e10648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 56/91] fix: ReplaceFlaggedValues failed when the flags vary
 along an axis that the value does not have

---
 MeqNodes/src/ReplaceFlaggedValues.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MeqNodes/src/ReplaceFlaggedValues.cc b/MeqNodes/src/ReplaceFlaggedValues.cc
index ebb3d6f..5c61d2c 100644
--- a/MeqNodes/src/ReplaceFlaggedValues.cc
+++ b/MeqNodes/src/ReplaceFlaggedValues.cc
@@ -67,6 +67,8 @@ Vells ReplaceFlaggedValues::evaluate (const Request&,const LoShape & inshape,
   Vells val = *(values[0]);
   if( flags_.valid() )
   {
+    // expand the value along any axes that only the flags have
+    val = val + Vells(0.,flags_->shape(),true);
     if( val.isReal() )
       val.replaceFlaggedValues(*flags_,creal(value_));
     else
-- 
2.43.0


From 495938b80b742a46badf768bd0ad65002cc52ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 57/91] fix: ZeroFlagger overwrote existing flags instead of
 adding to them

---
 MeqNodes/src/ZeroFlagger.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MeqNodes/src/ZeroFlagger.cc b/MeqNodes/src/ZeroFlagger.cc
index fbf5dda..a445e80 100644
--- a/MeqNodes/src/ZeroFlagger.cc
+++ b/MeqNodes/src/ZeroFlagger.cc
@@ -129,8 +129,12 @@ int ZeroFlagger::getResult (Result::Ref &resref,
           NodeThrow1("illegal operation to ZeroFlagger: "+oper_.toString());
     }
     if( tot_fl )
+    {
+      if( vs.hasDataFlags() )
+        Vells::mergeFlags(flagref,vs.dataFlags(),VellsFullFlagMask);
       vs.setDataFlags(flagref);
-    else if( force_output_ )
+    }
+    else if( force_output_ && !vs.hasDataFlags() )
       vs.setDataFlags(null_flags_);
   }
   // return 0 flag, since we don't add any dependencies of our own
-- 
2.43.0


From 4a509983b44310c8b8c8dd5c2088b353099f8a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 58/91] fix: Paster could not paste a scalar into a slice of a
 single plane

---
 MeqNodes/src/Paster.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MeqNodes/src/Paster.cc b/MeqNodes/src/Paster.cc
index 5bc3734..7eba672 100644
--- a/MeqNodes/src/Paster.cc
+++ b/MeqNodes/src/Paster.cc
@@ -133,7 +133,8 @@ int Paster::getResult (Result::Ref &resref,
       // rank is the highest slicing axis+1.
       shp.resize(rank);
       // child result better have the same shape
-      FailWhen(childres.dims()!=shp,"shape of pasted Result does not match shape of selection");
+      // (a slice of a single plane is as good as a scalar)
+      FailWhen(childres.dims()!=shp && (shp.product()!=1 || nvs1!=1),"shape of pasted Result does not match shape of selection");
       Result &result = resref();
       int nout = shp.product();
       // calculate offset to start of slice
-- 
2.43.0


From 6193fff4a28b042ab08572f198005eedffcbf885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 59/91] fix: WSum and WMean failed when a child had zero weight

---
 MEQ/src/Function.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index 81e3ff7..a214f32 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -116,13 +116,16 @@ int Function::getResult (Result::Ref &resref,
   // Figure out the dimensions of the output result, and see if all children
   // match these dimensions. Also, figure out if result should be marked as
   // integrated.  Ino children, assume one plane.
+  // Disabled children have no result at all.
   Result::Dims out_dims;
+  int nactive = 0;
   if( nrch )
   {
-    FailWhen(!childres[0]->numVellSets(),"no vellsets in result of child 0");
-    out_dims = childres[0]->dims();
-    for( int i=1; i<nrch; i++ )
+    for( int i=0; i<nrch; i++ )
     {
+      if( !childres[i].valid() )
+        continue;
+      nactive++;
       const Result &res = *childres[i];
       FailWhen(!res.numVellSets(),ssprintf("no vellsets in result of child %d",i));
       if( res.tensorRank() > 0 )
@@ -146,7 +149,8 @@ int Function::getResult (Result::Ref &resref,
   LoShape res_shape;
   // look for cells in child results
   for( int i=0; i<nrch; i++ )
-    Axis::mergeShape(res_shape,childres[i]->getVellSetShape());
+    if( childres[i].valid() )
+      Axis::mergeShape(res_shape,childres[i]->getVellSetShape());
   // if not found, use request cells
   if( res_shape.empty() && request.hasCells() )
     res_shape = request.cells().shape();
@@ -170,6 +174,8 @@ int Function::getResult (Result::Ref &resref,
     {
       child_vs[i] = 0;
       values[i] = 0;
+      if( !childres[i].valid() )
+        continue;
       const Result &chres = *childres[i];
       const HIID &label = children().getChildLabel(i);
       // does this child have a vellset?
@@ -199,7 +205,7 @@ int Function::getResult (Result::Ref &resref,
     // data as well.
     if( nmissing )
     {
-      if( nmissing == nrch || !allow_missing_data_ )
+      if( nmissing == nactive || !allow_missing_data_ )
       {
         if( vellset.isFail() )
           nfails++;
-- 
2.43.0


From d158fee969e2190954801475176e5bd6f0fe5afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 60/91] fix: Polc evaluated only at the first cell when it has
 no domain along an axis, and compared the wrong axis of its domain

---
 MEQ/src/Polc.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index 31378d9..6688774 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -183,14 +183,16 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
       FailWhen(!cells.isDefined(iaxis),
             "Meq::Polc: axis " + Axis::axisId(iaxis).toString() +
             " is not defined in Cells");
-      if(cells.domain().start(i)<domain().start(i) ||cells.domain().end(i)>domain().end(i) )
+      // (a funklet with no domain along this axis is valid everywhere)
+      if( domain().isDefined(iaxis) &&
+          ( cells.domain().start(iaxis)<domain().start(iaxis) || cells.domain().end(iaxis)>domain().end(iaxis) ) )
 	{
 	  LoVec_double tempgrid = ( cells.center(iaxis));
 	  int k=0;
-	  while(tempgrid(k)< domain().start(i) && k < tempgrid.size()){k++;}
+	  while(k < tempgrid.size() && tempgrid(k)< domain().start(iaxis)){k++;}
 	  int firstk=k;
 	  k=tempgrid.size()-1;
-	  while(tempgrid(k)>domain().end(i) && k > 0){k--;}
+	  while(k >= 0 && tempgrid(k)>domain().end(iaxis)){k--;}
 	  int lastk=k;
 	  //reduce grid, such that it fits on domain of this funklet
 	  if(lastk<firstk) return;
-- 
2.43.0


From ce2b04af93c121ffcdb20d78149ce4d1e649fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 61/91] fix: PolcLog constructor ignored the c00 coefficient

---
 MEQ/src/PolcLog.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/PolcLog.cc b/MEQ/src/PolcLog.cc
index 88b241d..7446e67 100644
--- a/MEQ/src/PolcLog.cc
+++ b/MEQ/src/PolcLog.cc
@@ -41,7 +41,7 @@ namespace Meq {
   }
 
 PolcLog::PolcLog(double c00,double pert,double weight,DbId id,std::vector<double> scale_vector)
-  : Polc(pert,weight,id)
+  : Polc(c00,pert,weight,id)
 {
   (*this)[FClass].replace()=objectType().toString();
      int size = scale_vector.size();
-- 
2.43.0


From d04fedc0c6abc6278342cd822f34b85c8e2a9aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 62/91] fix: setCoeffShape() misplaced coefficients when the
 rank changed or the array shrank

---
 MEQ/src/Polc.cc   | 17 ++++++++++-------
 MEQ/src/Spline.cc | 17 ++++++++++-------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index 6688774..4875df9 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -653,15 +653,18 @@ void Polc::setCoeffShape(const LoShape & shape){
     i[j]=0;
   for(int n=0;n<N;n++){
     int element=0;
-    for(int j=0;j<ranknew&&j<rank;j++)
-      {//calculate position
-	element*=shape[j];
-	element+=i[j];
-	if(i[j]>0 && (j>int(shape.size())||i[j]>=shape[j]))
-	  element=Nnew;
+    bool inside=true;
+    for(int j=0;j<std::max(rank,ranknew);j++)
+      {//calculate position, missing axes have a single element
+	int pos=j<rank?i[j]:0;
+	if(pos>=(j<ranknew?int(shape[j]):1))
+	  inside=false;
 	//dont fill this one
-	//we can go faster in case we are outside the scope of the new array
+	if(j<ranknew)
+	  element=element*shape[j]+pos;
       }
+    if(!inside)
+      element=Nnew;
     for(int j=rank-1;j>=0;j--)
       {
 	//update coordinates, all this is necessary to allow N-dimensional stuff....
diff --git a/MEQ/src/Spline.cc b/MEQ/src/Spline.cc
index 09fb163..7fcbed5 100644
--- a/MEQ/src/Spline.cc
+++ b/MEQ/src/Spline.cc
@@ -384,15 +384,18 @@ void Spline::setCoeffShape(const LoShape & shape){
     i[j]=0;
   for(int n=0;n<N;n++){
     int element=0;
-    for(int j=0;j<ranknew&&j<rank;j++)
-      {//calculate position
-	element*=shape[j];
-	element+=i[j];
-	if(i[j]>0 && (j>int(shape.size())||i[j]>=shape[j]))
-	  element=Nnew;
+    bool inside=true;
+    for(int j=0;j<std::max(rank,ranknew);j++)
+      {//calculate position, missing axes have a single element
+	int pos=j<rank?i[j]:0;
+	if(pos>=(j<ranknew?int(shape[j]):1))
+	  inside=false;
 	//dont fill this one
-	//we can go faster in case we are outside the scope of the new array
+	if(j<ranknew)
+	  element=element*shape[j]+pos;
       }
+    if(!inside)
+      element=Nnew;
     for(int j=rank-1;j>=0;j--)
       {
 	//update coordinates, all this is necessary to allow N-dimensional stuff....
-- 
2.43.0


From d28ac76764eff0af38c3b068efe6526c3cf0e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 63/91] fix: Polc value was transposed when its axes are in
 decreasing order

---
 MEQ/src/Polc.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index 4875df9..832dd4b 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -327,13 +327,16 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
   // Create matrix for the main value and keep a pointer to its storage
   double* value = vs.setValue(new Vells(double(0),res_shape,true)).realStorage();
   // Iterate over all cells in the domain.
-  // The Y index iterates faster, hence the outer loop is over j over X values
-  for (int j=0; j<ndx; j++)
+  // The cells axis with the highest number iterates faster: this is Y, unless the axes are swapped
+  bool xfast = getAxis(0) > getAxis(1);
+  int nouter = xfast ? ndy : ndx;
+  int ninner = xfast ? ndx : ndy;
+  for (int j=0; j<nouter; j++)
   {
-    double valx = grid[0](j);
-    for (int i=0; i<ndy; i++)  // inner loop: i over Y values
+    for (int i=0; i<ninner; i++)
     {
-      double valy = grid[1](i);
+      double valx = grid[0](xfast ? i : j);
+      double valy = grid[1](xfast ? j : i);
       const double* coeff = coeffData;
       double total = 0;
       double powx = 1;
-- 
2.43.0


From 2d7acd1e1ae32e9642328282660db78bb742ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 64/91] fix: Polc perturbed values overran a buffer with more
 than 10 coefficients along the second axis

---
 MEQ/src/Polc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index 832dd4b..dec7d0a 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -354,7 +354,7 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
       }
       if( makePerturbed )
       {
-        double powersy[10];
+        double powersy[ncy];
         double powy = 1;
         for (int iy=0; iy<ncy; iy++) {
           powersy[iy] = powy;
-- 
2.43.0


From a3b370f77fc2ee5394d9008bd7178ff53a9411f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 65/91] fix: PolcLog used an uninitialised scale for axes
 missing from its axis list, and failed without a list

---
 MEQ/src/PolcLog.cc | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/MEQ/src/PolcLog.cc b/MEQ/src/PolcLog.cc
index 7446e67..317703f 100644
--- a/MEQ/src/PolcLog.cc
+++ b/MEQ/src/PolcLog.cc
@@ -127,7 +127,7 @@ PolcLog::PolcLog(double c00,double pert,double weight,DbId id,std::vector<double
 
   void PolcLog::axis_function(int axis, LoVec_double &grid) const
   {
-    double  axis_scale;
+    double  axis_scale = 0;
     const Field * fld = Record::findField(FAxisList);
     const DMI::Record::Ref *axisArray = (fld) ? &(fld->ref().ref_cast<DMI::Record>()) : 0;
     if(axisArray){
@@ -135,13 +135,8 @@ PolcLog::PolcLog(double c00,double pert,double weight,DbId id,std::vector<double
 	
       
     }
-    else
-      {//set to default
-	DMI::Record & axisArrayL =(*this)[FAxisList]<<= new DMI::Record();
-	axisArrayL[Axis::axisId(0)]=1.;
-	axisArrayL[Axis::axisId(1)]=1.;
-	(*this)[FAxisList].replace()= axisArrayL;
-      }
+    else if( axis==0 || axis==1 ) //default
+      axis_scale = 1;
  
    if(!fabs(axis_scale)) return;
 
-- 
2.43.0


From 363dee53d1038f0ab4bd70ff31a03cd18dbe9069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 66/91] fix: changeSolveDomain() used the ranges of axes 0 and
 1 whatever the axes of the funklet, and read beyond its offsets

---
 MEQ/src/Polc.cc    |  44 ++++++++++------
 MEQ/src/PolcLog.cc | 122 ++++++++++++++++++++++-----------------------
 2 files changed, 88 insertions(+), 78 deletions(-)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index dec7d0a..e83849e 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -448,14 +448,20 @@ void Polc::changeSolveDomain(const Domain & solveDomain){
   if(!hasDomain()) return; //nothing to change
     else{
       const Domain &valDomain =  domain(); //validity domain
-      std::vector<double> newoffsets(2);
-      std::vector<double> newscales(2);
-      for(int axisi=0;axisi<2;axisi++){
-	newoffsets[axisi] = solveDomain.start(axisi)*valDomain.end(axisi)-
+      int nr_axes = std::min(rank(),MaxPolcRank);
+      std::vector<double> newoffsets(nr_axes);
+      std::vector<double> newscales(nr_axes);
+      for(int i=0;i<nr_axes;i++){
+	int axisi = getAxis(i);
+	newoffsets[i] = getOffset(i);
+	newscales[i] = getScale(i) ? getScale(i) : 1.;
+	if(!valDomain.isDefined(axisi) || !solveDomain.isDefined(axisi))
+	  continue; // no range, keep this axis as is
+	newoffsets[i] = solveDomain.start(axisi)*valDomain.end(axisi)-
 	  solveDomain.end(axisi)*valDomain.start(axisi);
-	newoffsets[axisi] /= solveDomain.start(axisi)-solveDomain.end(axisi);
-	newscales[axisi] = valDomain.end(axisi) - valDomain.start(axisi);
-	newscales[axisi] /= solveDomain.end(axisi) - solveDomain.start(axisi);
+	newoffsets[i] /= solveDomain.start(axisi)-solveDomain.end(axisi);
+	newscales[i] = valDomain.end(axisi) - valDomain.start(axisi);
+	newscales[i] /= solveDomain.end(axisi) - solveDomain.start(axisi);
 
       }
      transformCoeff(newoffsets,newscales);
@@ -472,14 +478,20 @@ void Polc::changeSolveDomain(const Domain & solveDomain){
     if(!hasDomain()) return; //nothing to change
     else{
       const Domain &valDomain =  domain(); //validity domain
-      std::vector<double> newoffsets(2);
-      std::vector<double> newscales(2);
-      for(int axisi=0;axisi<2;axisi++){
-	newoffsets[axisi] = solveDomain[0]*valDomain.end(axisi)-
+      int nr_axes = std::min(rank(),MaxPolcRank);
+      std::vector<double> newoffsets(nr_axes);
+      std::vector<double> newscales(nr_axes);
+      for(int i=0;i<nr_axes;i++){
+	int axisi = getAxis(i);
+	newoffsets[i] = getOffset(i);
+	newscales[i] = getScale(i) ? getScale(i) : 1.;
+	if(!valDomain.isDefined(axisi))
+	  continue; // no range, keep this axis as is
+	newoffsets[i] = solveDomain[0]*valDomain.end(axisi)-
 	  solveDomain[1]*valDomain.start(axisi);
-	newoffsets[axisi] /= solveDomain[0]-solveDomain[1];
-	newscales[axisi] = valDomain.end(axisi) - valDomain.start(axisi);
-	newscales[axisi] /= solveDomain[1] - solveDomain[0];
+	newoffsets[i] /= solveDomain[0]-solveDomain[1];
+	newscales[i] = valDomain.end(axisi) - valDomain.start(axisi);
+	newscales[i] /= solveDomain[1] - solveDomain[0];
 
       }
      transformCoeff(newoffsets,newscales);
@@ -543,8 +555,8 @@ void Polc::transformCoeff(const std::vector<double> & newoffsets,const std::vect
   double C[NX][NY];
   double oldOffset[MaxPolcRank];
   double oldScale[MaxPolcRank];
-  double diffOffset[MaxPolcRank];
-  double diffScale[MaxPolcRank];
+  double diffOffset[MaxPolcRank] = {0,0};
+  double diffScale[MaxPolcRank] = {1,1};
 
 
   double* coeff = static_cast<double*>(coeffWr().getDataPtr());
diff --git a/MEQ/src/PolcLog.cc b/MEQ/src/PolcLog.cc
index 317703f..cba8d3a 100644
--- a/MEQ/src/PolcLog.cc
+++ b/MEQ/src/PolcLog.cc
@@ -156,47 +156,46 @@ PolcLog::PolcLog(double c00,double pert,double weight,DbId id,std::vector<double
   
   
     const Domain &valDomain =  domain(); //validity domain
-    std::vector<double> axis_vector_(2,1.); //contains scale L_0 for every axis, if 0 or not defined, no transformationis applied
+    int nr_axes = std::min(rank(),MaxPolcRank);
+    std::vector<double> axis_vector_(nr_axes); //contains scale L_0 for every axis, if 0 or not defined, no transformationis applied
     const Field * fld = Record::findField(FAxisList);
     const DMI::Record::Ref *axisArray = (fld) ? &(fld->ref().ref_cast<DMI::Record>()) : 0;
-    if(axisArray){
-        for(int i=0;i<2;i++){
-	  axis_vector_[i]=0;
-	  (*axisArray)[Axis::axisId(i)].get(axis_vector_[i],0.);
-	  
-	}
-    }
-    
-    if(fabs(axis_vector_[0])&&(axis_vector_[0]*valDomain.start(0)<=0||axis_vector_[0]*valDomain.end(0)<=0))//stop trying to take log of 0 or negative value!!, nothing
-      {
-	cdebug(2)<<"trying to take log of <=0 !! for axis "<<Axis::axisId(0)<<endl;
-	Polc::changeSolveDomain(solveDomain);
-	return;
-      }
-    if(fabs(axis_vector_[1])&&(axis_vector_[1]*valDomain.start(1)<=0||axis_vector_[1]*valDomain.end(1)<=0))//stop trying to take log of 0 or negative value!!, nothing
+    for(int i=0;i<nr_axes;i++){
+      int axisi = getAxis(i);
+      if(axisArray)
+	(*axisArray)[Axis::axisId(axisi)].get(axis_vector_[i],0.);
+      else if(axisi<2)
+	axis_vector_[i]=1.;
+      if(valDomain.isDefined(axisi) && fabs(axis_vector_[i])&&(axis_vector_[i]*valDomain.start(axisi)<=0||axis_vector_[i]*valDomain.end(axisi)<=0))//stop trying to take log of 0 or negative value!!, nothing
       {
-	cdebug(2)<<"trying to take log of <=0 !! for axis "<<Axis::axisId(1)<<endl;
+	cdebug(2)<<"trying to take log of <=0 !! for axis "<<Axis::axisId(axisi)<<endl;
 	Polc::changeSolveDomain(solveDomain);
 	return;
       }
+    }
     
     
-    std::vector<double> newoffsets(2);
-    std::vector<double> newscales(2);
-    for(int axisi=0;axisi<2;axisi++){
-      if(fabs(axis_vector_[axisi])) {
-	newoffsets[axisi] = solveDomain.start(axisi)*log(valDomain.end(axisi)/axis_vector_[axisi])-
-	  solveDomain.end(axisi)*log(valDomain.start(axisi)/axis_vector_[axisi]);
-	newoffsets[axisi] /= log(10.)*(solveDomain.start(axisi)-solveDomain.end(axisi));
-	newscales[axisi] = log(valDomain.end(axisi)/axis_vector_[axisi]) - log(valDomain.start(axisi)/axis_vector_[axisi]);
-	newscales[axisi] /= log(10.)*(solveDomain.end(axisi) - solveDomain.start(axisi));
+    std::vector<double> newoffsets(nr_axes);
+    std::vector<double> newscales(nr_axes);
+    for(int i=0;i<nr_axes;i++){
+      int axisi = getAxis(i);
+      newoffsets[i] = getOffset(i);
+      newscales[i] = getScale(i) ? getScale(i) : 1.;
+      if(!valDomain.isDefined(axisi) || !solveDomain.isDefined(axisi))
+	continue; // no range, keep this axis as is
+      if(fabs(axis_vector_[i])) {
+	newoffsets[i] = solveDomain.start(axisi)*log(valDomain.end(axisi)/axis_vector_[i])-
+	  solveDomain.end(axisi)*log(valDomain.start(axisi)/axis_vector_[i]);
+	newoffsets[i] /= log(10.)*(solveDomain.start(axisi)-solveDomain.end(axisi));
+	newscales[i] = log(valDomain.end(axisi)/axis_vector_[i]) - log(valDomain.start(axisi)/axis_vector_[i]);
+	newscales[i] /= log(10.)*(solveDomain.end(axisi) - solveDomain.start(axisi));
       }
       else{
-	newoffsets[axisi] = solveDomain.start(axisi)*valDomain.end(axisi)-
+	newoffsets[i] = solveDomain.start(axisi)*valDomain.end(axisi)-
 	  solveDomain.end(axisi)*valDomain.start(axisi);
-	newoffsets[axisi] /= solveDomain.start(axisi)-solveDomain.end(axisi);
-	newscales[axisi] = valDomain.end(axisi) - valDomain.start(axisi);
-	newscales[axisi] /= solveDomain.end(axisi) - solveDomain.start(axisi);
+	newoffsets[i] /= solveDomain.start(axisi)-solveDomain.end(axisi);
+	newscales[i] = valDomain.end(axisi) - valDomain.start(axisi);
+	newscales[i] /= solveDomain.end(axisi) - solveDomain.start(axisi);
 	
       }
     
@@ -213,52 +212,51 @@ PolcLog::PolcLog(double c00,double pert,double weight,DbId id,std::vector<double
   
   
     const Domain &valDomain =  domain(); //validity domain
-    std::vector<double> axis_vector_(2,1.); //contains scale L_0 for every axis, if 0 or not defined, no transformationis applied
+    int nr_axes = std::min(rank(),MaxPolcRank);
+    std::vector<double> axis_vector_(nr_axes); //contains scale L_0 for every axis, if 0 or not defined, no transformationis applied
     const Field * fld = Record::findField(FAxisList);
     const DMI::Record::Ref *axisArray = (fld) ? &(fld->ref().ref_cast<DMI::Record>()) : 0;
-    if(axisArray){
-        for(int i=0;i<2;i++){
-	  axis_vector_[i]=0;
-	  (*axisArray)[Axis::axisId(i)].get(axis_vector_[i],0.);
-	  
-	}
-    }
-    
-    if(fabs(axis_vector_[0])&&(axis_vector_[0]*valDomain.start(0)<=0||axis_vector_[0]*valDomain.end(0)<=0))//stop trying to take log of 0 or negative value!!, nothing
-      {
-	cdebug(2)<<"trying to take log of <=0 !! for axis "<<Axis::axisId(0)<<endl;
-	Polc::changeSolveDomain(solveDomain);
-	return;
-      }
-    if(fabs(axis_vector_[1])&&(axis_vector_[1]*valDomain.start(1)<=0||axis_vector_[1]*valDomain.end(1)<=0))//stop trying to take log of 0 or negative value!!, nothing
+    for(int i=0;i<nr_axes;i++){
+      int axisi = getAxis(i);
+      if(axisArray)
+	(*axisArray)[Axis::axisId(axisi)].get(axis_vector_[i],0.);
+      else if(axisi<2)
+	axis_vector_[i]=1.;
+      if(valDomain.isDefined(axisi) && fabs(axis_vector_[i])&&(axis_vector_[i]*valDomain.start(axisi)<=0||axis_vector_[i]*valDomain.end(axisi)<=0))//stop trying to take log of 0 or negative value!!, nothing
       {
-	cdebug(2)<<"trying to take log of <=0 !! for axis "<<Axis::axisId(1)<<endl;
+	cdebug(2)<<"trying to take log of <=0 !! for axis "<<Axis::axisId(axisi)<<endl;
 	Polc::changeSolveDomain(solveDomain);
 	return;
       }
+    }
     
     
-    std::vector<double> newoffsets(2);
-    std::vector<double> newscales(2);
-    for(int axisi=0;axisi<2;axisi++){
-      if(fabs(axis_vector_[axisi])) {
+    std::vector<double> newoffsets(nr_axes);
+    std::vector<double> newscales(nr_axes);
+    for(int i=0;i<nr_axes;i++){
+      int axisi = getAxis(i);
+      newoffsets[i] = getOffset(i);
+      newscales[i] = getScale(i) ? getScale(i) : 1.;
+      if(!valDomain.isDefined(axisi))
+	continue; // no range, keep this axis as is
+      if(fabs(axis_vector_[i])) {
 	//only transform linear axes
 	/*
-	newoffsets[axisi] = solveDomain[0]*log(valDomain.end(axisi)/axis_vector_[axisi])-
-	  solveDomain[1]*log(valDomain.start(axisi)/axis_vector_[axisi]);
-	newoffsets[axisi] /= log(10.)*(solveDomain[0]-solveDomain[1]);
-	newscales[axisi] = log(valDomain.end(axisi)/axis_vector_[axisi]) - log(valDomain.start(axisi)/axis_vector_[axisi]);
-	newscales[axisi] /= log(10.)*(solveDomain[1] - solveDomain[0]);
+	newoffsets[i] = solveDomain[0]*log(valDomain.end(axisi)/axis_vector_[i])-
+	  solveDomain[1]*log(valDomain.start(axisi)/axis_vector_[i]);
+	newoffsets[i] /= log(10.)*(solveDomain[0]-solveDomain[1]);
+	newscales[i] = log(valDomain.end(axisi)/axis_vector_[i]) - log(valDomain.start(axisi)/axis_vector_[i]);
+	newscales[i] /= log(10.)*(solveDomain[1] - solveDomain[0]);
 	*/
-	newoffsets[axisi]  = 0.;
-	newscales[axisi] = 1.;
+	newoffsets[i]  = 0.;
+	newscales[i] = 1.;
       }
       else{
-	newoffsets[axisi] = solveDomain[0]*valDomain.end(axisi)-
+	newoffsets[i] = solveDomain[0]*valDomain.end(axisi)-
 	  solveDomain[1]*valDomain.start(axisi);
-	newoffsets[axisi] /= solveDomain[0]-solveDomain[1];
-	newscales[axisi] = valDomain.end(axisi) - valDomain.start(axisi);
-	newscales[axisi] /= solveDomain[1] - solveDomain[0];
+	newoffsets[i] /= solveDomain[0]-solveDomain[1];
+	newscales[i] = valDomain.end(axisi) - valDomain.start(axisi);
+	newscales[i] /= solveDomain[1] - solveDomain[0];
       }
     
     }
-- 
2.43.0


From 13a37a3e813bb9437820bcc07efb864984a829a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 67/91] fix: ComposedPolc could not be evaluated with two sets
 of perturbations

---
 MEQ/src/ComposedPolc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/ComposedPolc.cc b/MEQ/src/ComposedPolc.cc
index 8751bb6..949063d 100644
--- a/MEQ/src/ComposedPolc.cc
+++ b/MEQ/src/ComposedPolc.cc
@@ -285,7 +285,7 @@ void ComposedPolc::validateContent (bool recursive)
 
 
 
-      VellSet partvs;
+      VellSet partvs(0,makePerturbed);
       if(!isConstant)
 	{
 	  partfunk.evaluate(partvs,cells,makePerturbed);
-- 
2.43.0


From 541cd7fdaf9fc1b939a9e47788a9fdcc232c6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 68/91] fix: ComposedPolc gave the wrong value inside its
 domain when other cells were outside along an axis it does not vary on

---
 MEQ/src/ComposedPolc.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/ComposedPolc.cc b/MEQ/src/ComposedPolc.cc
index 949063d..8f93e7f 100644
--- a/MEQ/src/ComposedPolc.cc
+++ b/MEQ/src/ComposedPolc.cc
@@ -210,10 +210,20 @@ void ComposedPolc::validateContent (bool recursive)
 
 
     for(int iaxis=0;iaxis<nr_axis;iaxis++)
-      if(axisHasShape_[iaxis])
-	res_shape[iaxis]=cells.ncells(iaxis);
+    {
+      int n = cells.ncells(iaxis);
+      bool hasShape = axisHasShape_[iaxis];
+      // if some cells are outside the funklets along this axis, the result varies along it
+      for(DMI::List::const_iterator iter = funklist.begin(); n && !hasShape && iter != funklist.end(); iter++)
+      {
+        const Domain & dom(iter->as<Funklet>().domain());
+        hasShape = dom.isDefined(iaxis) && ( centergrid[iaxis](0)<dom.start(iaxis) || centergrid[iaxis](n-1)>dom.end(iaxis) );
+      }
+      if(hasShape)
+	res_shape[iaxis]=n;
       else
     	res_shape[iaxis]=1;
+    }
 
     cdebug(3)<<"evalauating cells with res_Shape : "<<res_shape<<endl;
     double *value = vs.setValue(new Vells(double(default_value_),res_shape,true)).realStorage();
-- 
2.43.0


From 693705694ddf61666b37765e78892dc296867a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 69/91] fix: copies of a ComposedPolc lost its default value

---
 MEQ/src/ComposedPolc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/ComposedPolc.cc b/MEQ/src/ComposedPolc.cc
index 8f93e7f..3d96bb0 100644
--- a/MEQ/src/ComposedPolc.cc
+++ b/MEQ/src/ComposedPolc.cc
@@ -45,7 +45,7 @@ namespace Meq {
 
 
   ComposedPolc::ComposedPolc (const ComposedPolc &other,int flags,int depth) :
-    Polc(other,flags,depth),default_value_(0),nr_funklets_(other.nr_funklets_)
+    Polc(other,flags,depth),default_value_(other.default_value_),nr_funklets_(other.nr_funklets_)
   {
     (*this)[FClass]=objectType().toString();
     for(int i=0;i<Axis::MaxAxis;i++)
-- 
2.43.0


From 35ddbb52503f1417847550aaf74f3038d4ff2e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 70/91] fix: ComposedPolc replaced pieces that evaluate to zero
 by the default value

---
 MEQ/src/ComposedPolc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/ComposedPolc.cc b/MEQ/src/ComposedPolc.cc
index 3d96bb0..3d7d47a 100644
--- a/MEQ/src/ComposedPolc.cc
+++ b/MEQ/src/ComposedPolc.cc
@@ -299,7 +299,7 @@ void ComposedPolc::validateContent (bool recursive)
       if(!isConstant)
 	{
 	  partfunk.evaluate(partvs,cells,makePerturbed);
-	  if(partvs.isNull ()) continue;
+	  if(!partvs.hasValue()) continue; // no cells in the domain of this funklet
 	}
       int maxnx=1;
       int maxny=1;
-- 
2.43.0


From f5a4f9727a6331f1c0ab4ac8e884aa27c1584d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 71/91] fix: ComposedPolc lost the perturbed values of pieces
 covering a single cell, and overran its arrays with a single axis

---
 MEQ/src/ComposedPolc.cc | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/MEQ/src/ComposedPolc.cc b/MEQ/src/ComposedPolc.cc
index 3d7d47a..4a28605 100644
--- a/MEQ/src/ComposedPolc.cc
+++ b/MEQ/src/ComposedPolc.cc
@@ -305,7 +305,7 @@ void ComposedPolc::validateContent (bool recursive)
       int maxny=1;
       if(!isConstant && partvs.hasShape()){
 	maxnx =  partvs.shape()[0];
-	maxny =  partvs.shape()[1];
+	maxny =  partvs.shape().size()>1 ? partvs.shape()[1] : 1;
 	cdebug(3)<<"got partvs with shape "<< partvs.shape()<<endl;
       }
 
@@ -317,25 +317,12 @@ void ComposedPolc::validateContent (bool recursive)
       if(!isConstant)	// constant;
 	{
 	  const Vells & partvells = partvs.getValue();
-	  if(partvells.isScalar())
-	    {
-	      constpart = partvells.getScalar<double>();
-	      isConstant=1;//constant after all
-	    }
-	  else
-	    {
 // 	      parts.resize(partvells.shape());
 // 	      parts= partvells.getConstArray<double,2>();
-	      parts =partvells.getStorage<double>();
-	    }
+	  parts =partvells.getStorage<double>();
 
 	  if(makePerturbed){
 	    for(int ipert=0;ipert<makePerturbed;ipert++){
-	      if(partvells.isScalar())
-		{
-		  constpert[ipert] = (partvs.getPerturbedValue(0,ipert)).getScalar<double>();
-		}
-	      else
 		{
 
 		  for(int ispid=0;ispid<nr_spids;ispid++){
@@ -367,14 +354,16 @@ void ComposedPolc::validateContent (bool recursive)
 	{// not constant assume freq,time polc for now
 
       int nx(0),ny(0);
-
+      if(nr_axis<2)
+        starti[1]=endi[1]=0;
+      int stridex = nr_axis>1 ? res_shape[1] : 1;
 
       for(int valx = starti[0];valx<=endi[0];valx++){
 	ny=0;
 	for(int valy = starti[1];valy<=endi[1];valy++){
-	  int idx = valy + valx*res_shape[1];
+	  int idx = valy + valx*stridex;
 	    {
-	      cdebug(3)<<"nx "<<nx<<" ny "<<ny<<" val "<<ny+nx*maxny<<" "<<valx*res_shape[1]+valy<<endl;
+	      cdebug(3)<<"nx "<<nx<<" ny "<<ny<<" val "<<ny+nx*maxny<<" "<<idx<<endl;
 	      cdebug(3)<<parts[ny+nx*maxny]<<endl;
 
 	      value[idx] = parts[ny+nx*maxny] ;
@@ -395,7 +384,7 @@ void ComposedPolc::validateContent (bool recursive)
 	      for(int valx = starti[0];valx<=endi[0];valx++){
 		ny=0;
 		for(int valy = starti[1];valy<=endi[1];valy++){
-		  int idx = valx*res_shape[1]+valy;
+		  int idx = valx*stridex+valy;
 
 		  for(int ispid=0;ispid<nr_spids;ispid++)
 		    {
-- 
2.43.0


From b30f68e3a0cf7effb94f7b50983a57a81f1ac09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 72/91] fix: FastParmTable stored constant composed and log
 polcs as plain constants

---
 MEQ/src/FastParmTable.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/FastParmTable.cc b/MEQ/src/FastParmTable.cc
index 3a537fb..828e5b7 100644
--- a/MEQ/src/FastParmTable.cc
+++ b/MEQ/src/FastParmTable.cc
@@ -379,7 +379,8 @@ Funklet::DbId FastParmTable::putCoeff (const string& parmName, const Funklet& fu
   char key[keysize];
   makeKey(key,parmName,dom_id);
   // now store the funklet
-  const Polc *polc = dynamic_cast<const Polc*>(&funklet);
+  // (but not the constant-looking funklets of derived classes, which have other content)
+  const Polc *polc = funklet.objectType() == TpMeqPolc ? dynamic_cast<const Polc*>(&funklet) : 0;
   // 0-degree polcs just have their c00 stored
   if( polc && polc->isConstant() )
   {
-- 
2.43.0


From 7549aa979a5f8acfc0e4bb9a5d036b827f1d8dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 73/91] fix: FastParmTable used parameter names as format
 strings in error messages

---
 MEQ/src/FastParmTable.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/FastParmTable.cc b/MEQ/src/FastParmTable.cc
index 828e5b7..a728d92 100644
--- a/MEQ/src/FastParmTable.cc
+++ b/MEQ/src/FastParmTable.cc
@@ -429,7 +429,7 @@ void FastParmTable::deleteFunklet (const string &parmName,int domain_index)
   makeKey(key,parmName,domain_index);
   datum db_key = { key,keysize };
   if( !dpout(fdb_,key,keysize) )
-    throwDepot("error deleting funklet '"+parmName+"'");
+    Throw("error deleting funklet '"+parmName+"': "+dperrmsg(dpecode));
 }
 
 void FastParmTable::deleteAllFunklets (const string &parmName)
@@ -446,7 +446,7 @@ void FastParmTable::deleteAllFunklets (const string &parmName)
     if( !dpout(fdb_,key,keysize) )
     {
       if( dpecode != DP_ENOITEM )
-        throwDepot("error deleting funklet '"+parmName+"'");
+        Throw("error deleting funklet '"+parmName+"': "+dperrmsg(dpecode));
     }
   }
 }
-- 
2.43.0


From 3946e0a4d997d9ba2eff3d535f014b7827769f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 74/91] fix: FastParmTable misread all domains stored after an
 incomplete domain entry

---
 MEQ/src/FastParmTable.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/MEQ/src/FastParmTable.cc b/MEQ/src/FastParmTable.cc
index a728d92..b1ba014 100644
--- a/MEQ/src/FastParmTable.cc
+++ b/MEQ/src/FastParmTable.cc
@@ -67,7 +67,13 @@ FastParmTable::FastParmTable (const string& tablename,bool write,bool)
     stat_buf.st_size = 0;
   }
   else
+  {
+    // drop any incomplete entry left by a crash, since new entries are appended after it
+    int tail = stat_buf.st_size%sizeof(DomainEntry);
+    if( write && tail && truncate(domains_file_.c_str(),stat_buf.st_size-tail) < 0 )
+      throwErrno("can't truncate '%s/domains'");
     fdomains_ = fopen(domains_file_.c_str(),write?"a+b":"rb");
+  }
   if( !fdomains_ )
     throwErrno("can't open '%s/domains'");
   // see how many domains we've got based on filesize
@@ -131,6 +137,10 @@ void FastParmTable::openForWriting ()
   if( !fdomains_ || !fdb_ )
     Throw("can't reopen '%s' for writing, it is not open");
   fclose(fdomains_);
+  // drop any incomplete entry left by a crash, since new entries are appended after it
+  fdomains_ = 0;
+  if( truncate(domains_file_.c_str(),domain_list_.size()*sizeof(DomainEntry)) < 0 )
+    throwErrno("can't truncate '%s/domains'");
   // reopen the domains file
   fdomains_ = fopen(domains_file_.c_str(),"a+b");
   if( !fdomains_ )
-- 
2.43.0


From 00b238739b403d1cc25234af0c6333469e798027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 75/91] fix: FastParmTable discarded all functions, including
 flushed ones, if it was not closed in order

---
 MEQ/src/FastParmTable.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/FastParmTable.cc b/MEQ/src/FastParmTable.cc
index b1ba014..5311d33 100644
--- a/MEQ/src/FastParmTable.cc
+++ b/MEQ/src/FastParmTable.cc
@@ -104,7 +104,11 @@ FastParmTable::FastParmTable (const string& tablename,bool write,bool)
   else
   {
     fdb_ = dpopen(const_cast<char*>(funklets_file_.c_str()),write?DP_OWRITER|DP_OCREAT:DP_OREADER,0);
-    // "EBROKEN" indicates corruption from previous run, so flush it
+    // "EBROKEN" indicates corruption from previous run, so try to repair it: this recovers everything
+    // that was stored in full
+    if( !fdb_ && dpecode == DP_EBROKEN && dprepair(funklets_file_.c_str()) )
+      fdb_ = dpopen(const_cast<char*>(funklets_file_.c_str()),write?DP_OWRITER|DP_OCREAT:DP_OREADER,0);
+    // can't be repaired, so flush it
     if( !fdb_ && dpecode == DP_EBROKEN )
     {
       cerr<<"Warning: "<<funklets_file_<<" appears to be corrupt. This may be due to the system crashing or being killed during a previous run. Creating a new, empty table.\n";
-- 
2.43.0


From dbd97edc7c9384559487e97308786426a2a9917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 76/91] fix: after a crash FastParmTable returned functions in
 the wrong domain

---
 MEQ/src/FastParmTable.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/FastParmTable.cc b/MEQ/src/FastParmTable.cc
index 5311d33..ab104fe 100644
--- a/MEQ/src/FastParmTable.cc
+++ b/MEQ/src/FastParmTable.cc
@@ -378,7 +378,9 @@ Funklet::DbId FastParmTable::putCoeff (const string& parmName, const Funklet& fu
     // make new domain entry and write it out first. If that succeeds,
     // add it to list 
     DomainEntry de(domain);
-    if( fwrite(&de,sizeof(DomainEntry),1,fdomains_) != 1 )
+    // (and get it to disk before the funklets that refer to it, or else after a crash they
+    // would turn up in whatever domain is stored next)
+    if( fwrite(&de,sizeof(DomainEntry),1,fdomains_) != 1 || fflush(fdomains_) != 0 )
       throwErrno("error writing to '%s/domains'");
     domain_list_.reserve((dom_id/1024+1)*1024); // keep sizing up in large chunks
     domain_list_.resize(dom_id+1);
-- 
2.43.0


From b3a65b7532bfe2377b0bc011e95e322a50282a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 77/91] fix: repair parameter tables also if some function was
 only partly stored, or the repair is interrupted

---
 MEQ/src/FastParmTable.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/FastParmTable.cc b/MEQ/src/FastParmTable.cc
index ab104fe..7306672 100644
--- a/MEQ/src/FastParmTable.cc
+++ b/MEQ/src/FastParmTable.cc
@@ -29,6 +29,7 @@
 #include <TimBase/Debug.h>
 #include <DMI/BlockSet.h>
 #include <DMI/DynamicTypeManager.h>
+#include <fstream>
 #include <unistd.h>
 #include <sys/types.h>
 #include <sys/stat.h>
@@ -91,6 +92,10 @@ FastParmTable::FastParmTable (const string& tablename,bool write,bool)
   dprintf(1)("read %d domains\n",ndom);
   // just in case, seek to new domain position
   fseek(fdomains_,ndom*sizeof(DomainEntry),SEEK_SET);
+  // if a previous repair (see below) was interrupted, start it again
+  const string broken_file = funklets_file_ + ".broken";
+  if( stat(broken_file.c_str(),&stat_buf) == 0 )
+    rename(broken_file.c_str(),funklets_file_.c_str());
   // create/open funklet database
   // but check if it exists first
   if( stat(funklets_file_.c_str(),&stat_buf) < 0 )
@@ -105,9 +110,18 @@ FastParmTable::FastParmTable (const string& tablename,bool write,bool)
   {
     fdb_ = dpopen(const_cast<char*>(funklets_file_.c_str()),write?DP_OWRITER|DP_OCREAT:DP_OREADER,0);
     // "EBROKEN" indicates corruption from previous run, so try to repair it: this recovers everything
-    // that was stored in full
-    if( !fdb_ && dpecode == DP_EBROKEN && dprepair(funklets_file_.c_str()) )
+    // that was stored in full (and also reports failure if some was not)
+    if( !fdb_ && dpecode == DP_EBROKEN )
+    {
+      // the repair replaces the file, so do it on a copy, and keep the original until that is done
+      if( rename(funklets_file_.c_str(),broken_file.c_str()) < 0 )
+        throwErrno("can't rename '%s/funklets'");
+      std::ofstream(funklets_file_.c_str(),std::ios::binary)
+          << std::ifstream(broken_file.c_str(),std::ios::binary).rdbuf();
+      dprepair(funklets_file_.c_str());
+      unlink(broken_file.c_str());
       fdb_ = dpopen(const_cast<char*>(funklets_file_.c_str()),write?DP_OWRITER|DP_OCREAT:DP_OREADER,0);
+    }
     // can't be repaired, so flush it
     if( !fdb_ && dpecode == DP_EBROKEN )
     {
-- 
2.43.0


From 7477e14d354ef0a6069fd62e113efebb320bd543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 78/91] fix: a Mutex::Lock obtained with TRY is not locked when
 the mutex is busy

---
 TimBase/src/Thread/Mutex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TimBase/src/Thread/Mutex.h b/TimBase/src/Thread/Mutex.h
index 5bc2583..5c417d4 100644
--- a/TimBase/src/Thread/Mutex.h
+++ b/TimBase/src/Thread/Mutex.h
@@ -223,7 +223,7 @@ namespace LOFAR
       if( options == TRY )
       {
         dprintf(3)("init: try-locking mutex %p\n",(void*)pmutex);
-        if( pthread_mutex_trylock(pmutex) < 0 )
+        if( pthread_mutex_trylock(pmutex) != 0 )
           pmutex = 0;
       }
       else
-- 
2.43.0


From c5c9b7fb96e9334a66417067e185d258a120eda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 79/91] fix: an empty Mutex::Lock may be assigned

---
 TimBase/src/Thread/Mutex.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/TimBase/src/Thread/Mutex.h b/TimBase/src/Thread/Mutex.h
index 5c417d4..01413b1 100644
--- a/TimBase/src/Thread/Mutex.h
+++ b/TimBase/src/Thread/Mutex.h
@@ -191,9 +191,13 @@ namespace LOFAR
 
     inline Mutex::Lock & Mutex::Lock::operator =(const Mutex::Lock &right)
     {
-      if( pmutex )
-        pthread_mutex_unlock(pmutex);
-      init(*right.pmutex,0);
+      pthread_mutex_t *old = pmutex;
+      if( right.pmutex )
+        init(*right.pmutex,0);
+      else
+        pmutex = 0;
+      if( old )
+        pthread_mutex_unlock(old);
       return *this;
     }
 
-- 
2.43.0


From bf89de83310175fdf4d0ce3cf55141656be4787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 80/91] fix: timed waits on a Condition work when the deadline
 falls into another second

---
 TimBase/src/Thread/Condition.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TimBase/src/Thread/Condition.h b/TimBase/src/Thread/Condition.h
index efca9a8..d0c0377 100644
--- a/TimBase/src/Thread/Condition.h
+++ b/TimBase/src/Thread/Condition.h
@@ -139,6 +139,12 @@ namespace LOFAR
       gettimeofday(&now,0);
       ts.tv_sec = now.tv_sec + sec;
       ts.tv_nsec = now.tv_usec*1000 + ns;
+      // tv_nsec must stay below one second
+      if( ts.tv_nsec >= 1000000000 )
+      {
+        ts.tv_sec += ts.tv_nsec/1000000000;
+        ts.tv_nsec %= 1000000000;
+      }
       return pthread_cond_timedwait(&cond,&mutex,&ts);
     }
 
-- 
2.43.0


From 20526dda3e44d928ce56f989e0b8062fe86e9d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 81/91] fix: releasing a SmartLock wakes every thread that may
 be able to proceed

---
 TimBase/src/Thread/SmartLock.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/TimBase/src/Thread/SmartLock.cc b/TimBase/src/Thread/SmartLock.cc
index a035c9a..96f14c2 100644
--- a/TimBase/src/Thread/SmartLock.cc
+++ b/TimBase/src/Thread/SmartLock.cc
@@ -141,8 +141,10 @@ namespace LOFAR
       Mutex::Lock lock(cond);
       if( !readers )
         return -1;
-      if( !--readers )
-        cond.signal();
+      // readers, writers and a pending upgrade (which only waits for the
+      // other readers) all wait for the same condition
+      --readers;
+      cond.broadcast();
       return 0;  
       //## end Thread::SmartLock::runlock%84F319FCFEED.body
     }
@@ -157,7 +159,7 @@ namespace LOFAR
       if( !--writers )
       {
         writer_id = 0;
-        cond.signal();
+        cond.broadcast();
       }
       return 0;  
       //## end Thread::SmartLock::wunlock%88437021FEED.body
@@ -191,7 +193,7 @@ namespace LOFAR
         readers++;
         writers--;
         writer_id = 0;
-        cond.signal();
+        cond.broadcast();
       }
       return 0;  
       //## end Thread::SmartLock::rlock_downgrade%3D1982B60364.body
-- 
2.43.0


From a20022fad150552ffb5de83f25cc230f99a20a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 82/91] fix: downgrading one of several SmartLock write locks
 keeps the others

---
 TimBase/src/Thread/SmartLock.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/TimBase/src/Thread/SmartLock.cc b/TimBase/src/Thread/SmartLock.cc
index 96f14c2..2c49d80 100644
--- a/TimBase/src/Thread/SmartLock.cc
+++ b/TimBase/src/Thread/SmartLock.cc
@@ -191,9 +191,11 @@ namespace LOFAR
       FailWhen(writer_id != self(),"no write lock held");
       {
         readers++;
-        writers--;
-        writer_id = 0;
-        cond.broadcast();
+        if( !--writers )
+        {
+          writer_id = 0;
+          cond.broadcast();
+        }
       }
       return 0;  
       //## end Thread::SmartLock::rlock_downgrade%3D1982B60364.body
-- 
2.43.0


From af59bcb2f80d58850e58f3dc5a4bd2ae2d1bea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 83/91] fix: an empty SmartLock::Lock may be assigned

---
 TimBase/src/Thread/SmartLock.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/TimBase/src/Thread/SmartLock.h b/TimBase/src/Thread/SmartLock.h
index 531d53e..04914d9 100644
--- a/TimBase/src/Thread/SmartLock.h
+++ b/TimBase/src/Thread/SmartLock.h
@@ -444,6 +444,7 @@ namespace LOFAR
 
     //##ModelId=CCA65344FEED
     inline SmartLock::Lock::Lock()
+      : write(false)
     {
     }
 
@@ -473,7 +474,8 @@ namespace LOFAR
     //##ModelId=3DB935A8036C
     inline SmartLock::Lock & SmartLock::Lock::operator=(const SmartLock::Lock &right)
     {
-      right.write ? right.plock->wlock() : right.plock->rlock();
+      if( right.plock )
+        right.write ? right.plock->wlock() : right.plock->rlock();
       release();
       plock = right.plock; write = right.write;
       return *this;
-- 
2.43.0


From f8d15275acc8032b02d5bced88b157ba553b26d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 84/91] fix: publishing a message by id keeps to the given
 scope

---
 OCTOPUSSY/src/WPInterface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index eb11668..8fb3c32 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -1120,7 +1120,7 @@ int WPInterface::publish (Message::Ref &msg,int , int scope)
 int WPInterface::publish (const HIID &id,int,int scope, int priority)
 {
   Message::Ref msg( new Message(id,priority),DMI::ANON|DMI::WRITE );
-  return publish(msg,scope);
+  return publish(msg,0,scope);
 }
 
 //##ModelId=3CBED9EF0197
-- 
2.43.0


From 04f85bc7a2b676f50c0c7d149f943134375ddd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 85/91] fix: the dispatcher's event thread does not lose
 wakeups

---
 OCTOPUSSY/src/Dispatcher.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 3dbf533..61661c7 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -1077,8 +1077,13 @@ void * Dispatcher::eventThread ()
   try
   {
     dprintf(1)("Entering event thread\n");
-    // unblock all signals
-    Thread::signalMask(SIG_UNBLOCK,validSignals());
+    // Signals are kept blocked, except while sleeping in pselect() below.
+    // Otherwise a signal arriving just before the sleep would fail to end it.
+    sigset_t sleepmask;
+    Thread::signalMask(SIG_BLOCK,validSignals(),&sleepmask);
+    for( int sig=1; sig<_NSIG; sig++ )
+      if( sigismember(validSignals(),sig) == 1 )
+        sigdelset(&sleepmask,sig);
     // wait for startup to complete
     if( in_start )
     {
@@ -1099,7 +1104,8 @@ void * Dispatcher::eventThread ()
         stopPolling();
       // pause until next timeout, or until an fd is active
       Thread::Mutex::Lock lock(tomutex);
-      struct timeval tv,*ptv = &tv;
+      struct timeval tv = {0,0};
+      struct timespec ts,*pts = &ts;
       if( next_to )
       {
         (next_to - Timestamp::now()).to_timeval(tv);
@@ -1109,20 +1115,22 @@ void * Dispatcher::eventThread ()
         // so that the select() call below only checks the fds and does not sleep
         if( tv.tv_sec < 0 || (!tv.tv_sec && tv.tv_usec<0) )
           tv.tv_sec = tv.tv_usec = 0;
+        ts.tv_sec  = tv.tv_sec;
+        ts.tv_nsec = tv.tv_usec*1000;
       }
       else // no timeouts pending at all, so wait indefinitely on the fds
-        ptv = 0;
+        pts = 0;
       lock.relock(fds_watched_mutex);
       if( max_fd >= 0 ) // poll fds using select(2) 
       {
         fds_active = fds_watched;
         lock.release();
-        if( ptv )
-          { dprintf(5)("select(%d,%ld:%ld)\n",max_fd,ptv->tv_sec,ptv->tv_usec); }
+        if( pts )
+          { dprintf(5)("select(%d,%ld:%ld)\n",max_fd,tv.tv_sec,tv.tv_usec); }
         else
           { dprintf(5)("select(%d,null)\n",max_fd); }
         // NB: if timeouts change, should also deliver a signal
-        num_active_fds = select(max_fd,&fds_active.r,&fds_active.w,&fds_active.x,ptv);
+        num_active_fds = pselect(max_fd,&fds_active.r,&fds_active.w,&fds_active.x,pts,&sleepmask);
         // we don't expect any errors except perhaps EINTR (interrupted by signal)
         dprintf(1)("select()=%d, errno=%d (%s), running=%d\n",num_active_fds,num_active_fds<0?errno:0,num_active_fds<0?strerror(errno):"",(int)running);
 //        dprintf(5)("select()=%d, errno=%d (%s), running=%d\n",num_active_fds,num_active_fds<0?errno:0,num_active_fds<0?strerror(errno):"",(int)running);
@@ -1132,11 +1140,11 @@ void * Dispatcher::eventThread ()
       else  // else just use select(2) to sleep until next timeout
       {
         lock.release();
-        if( ptv )
-          { dprintf(5)("select(0,%ld:%ld)\n",ptv->tv_sec,ptv->tv_usec); }
+        if( pts )
+          { dprintf(5)("select(0,%ld:%ld)\n",tv.tv_sec,tv.tv_usec); }
         else
           { dprintf(5)("select(0,null)\n"); }
-        int res = select(0,NULL,NULL,NULL,ptv);
+        int res = pselect(0,NULL,NULL,NULL,pts,&sleepmask);
         dprintf(5)("select()=%d, errno=%d (%s), running=%d\n",res,res<0?errno:0,res<0?strerror(errno):"",(int)running);
       }
     }
-- 
2.43.0


From 4c7e71a44db1aad32a4f723495cdfabd2fa79dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 86/91] fix: a message whose ref is taken or changed by the
 receiver leaves the queue

---
 OCTOPUSSY/src/WPInterface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index 8fb3c32..76941a6 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -806,7 +806,7 @@ bool WPInterface::do_poll (ulong tick)
       }
     }
     else  
-      res = receive(mref);
+      res = receive(mref2);
     receive_lock = false;
   }
   lock.relock(queue_cond);
-- 
2.43.0


From d01b2cc389e9f66b5ab528bf227a9473a8fa32ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 87/91] fix: dequeueing other messages does not offer a held
 message again

---
 OCTOPUSSY/src/WPInterface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index 76941a6..a265c04 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -944,7 +944,7 @@ int WPInterface::enqueue (const Message::Ref &msg, ulong tick, int flags)
 bool WPInterface::dequeue (const HIID &id, Message::Ref *ref)
 {
   Thread::Mutex::Lock lock(queue_cond);
-  bool erased_head = true;
+  bool erased_head = false;
   for( MQI iter = queue().begin(); iter != queue().end(); )
   {
     if( id.matches( iter->mref->id() ) )
-- 
2.43.0


From eaf2ff8199e88ffa7d0b986d0335176915aa5a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 88/91] fix: removing the inputs of a process removes all of
 them

---
 OCTOPUSSY/src/Dispatcher.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 61661c7..ab42f36 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -691,29 +691,32 @@ bool Dispatcher::removeInput (WPInterface* pwp, int fd, int flags)
 {
   if( fd<0 )  // fd<0 means remove everything
     flags = ~0;
+  bool res = false;
   Thread::Mutex::Lock lock(inpmutex);
-  for( IILI iter = inputs.begin(); iter != inputs.end(); iter++ )
+  for( IILI iter = inputs.begin(); iter != inputs.end(); )
   {
+    IILI cur = iter++;
     // is an input message sitting enqueued and still undelivered?
     // (WPInterface::poll() will reset its state to 0 when delivered)
     // input messages are dequeued/modified inside WorkProcess::removeInput.
-    if( iter->pwp == pwp && (fd<0 || iter->fd == fd) ) 
+    if( cur->pwp == pwp && (fd<0 || cur->fd == fd) ) 
     {   
        // is an input message sitting in the queue, undelivered? Clear its flags
-      if( iter->last_mref.valid() && !iter->last_mref.isOnlyRef() )
+      if( cur->last_mref.valid() && !cur->last_mref.isOnlyRef() )
       {
-        Message *pmsg = iter->last_msg;
-        Assert(iter->last_mref.deref_p() == pmsg);
+        Message *pmsg = cur->last_msg;
+        Assert(cur->last_mref.deref_p() == pmsg);
         pmsg->setState(pmsg->state()&~flags);
       }
       // clear flags of input
-      if( ( iter->flags &= ~flags ) == 0 ) // removed all modes? 
-        inputs.erase(iter);
-      rebuildInputs();
-      return true;
+      if( ( cur->flags &= ~flags ) == 0 ) // removed all modes? 
+        inputs.erase(cur);
+      res = true;
     }
   }
-  return false;
+  if( res )
+    rebuildInputs();
+  return res;
 }
 
 //##ModelId=3C7DFF57025C
-- 
2.43.0


From f154ba80a964e86a2fab643960c49f9f02c6dc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:53 +0000
Subject: [PATCH 89/91] fix: a signal raised while an earlier one is delivered
 is not lost

---
 OCTOPUSSY/src/WPInterface.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index a265c04..6039c9c 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -758,6 +758,17 @@ bool WPInterface::do_poll (ulong tick)
     {
       FailWhen( id.size() != 3,"malformed "+id.toString('.')+" message" );
       int signum = id[2];
+      // take the message off the queue before delivering it: if the signal is
+      // raised again from here on, the dispatcher has to enqueue a new message
+      lock.relock(queue_cond);
+      for( MQI iter = queue().begin(); iter != queue().end(); iter++ )
+        if( mref == iter->mref )
+        {
+          queue().erase(iter);
+          break;
+        }
+      lock.release();
+      mref.detach();
       res = Message::ACCEPT;
       if( autoCatch() )
       {
@@ -784,7 +795,7 @@ bool WPInterface::do_poll (ulong tick)
     // if our ref is only remaining ref, then message has been dequeued for
     // us anyway (perhaps by some WP activity in the callbacks above),
     // so don't bother
-    if( !mref.isOnlyRef() )
+    if( mref.valid() && !mref.isOnlyRef() )
       mref().setState(0);
   }
   else // deliver regular message
-- 
2.43.0


From bb0f4d94c7abb14ce2add01f1b0a572daf6c51c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:23 +0000
Subject: [PATCH 90/91] fix: a threaded process delivers one-shot inputs and
 signals

---
 OCTOPUSSY/src/WPInterface.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index 6039c9c..b238719 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -182,7 +182,10 @@ int WPInterface::deliver (Thread::Mutex::Lock &lock)
     lock.release();
 
     const Message &msg = qe.mref.deref();
-    const HIID &id = msg.id();
+    // copies, since resetting the state of an event below changes the message or 
+    // leaves us with another one (and then this one can go away)
+    const HIID id = msg.id();
+    const int msgstate = msg.state();
     FailWhen( id.empty(),"null message ID" );
     dprintf1(3)("%s: receiving %s\n",sdebug(1).c_str(),msg.debug(1));
 
@@ -210,7 +213,7 @@ int WPInterface::deliver (Thread::Mutex::Lock &lock)
       else if( id[1] == AidInput ) // deliver input message
       {
         FailWhen( id.size() != 3,"malformed "+id.toString('.')+" message" );
-        int fd=id[2],flags=msg.state();
+        int fd=id[2],flags=msgstate;
         if( flags )  // no flags? Means the input has been already removed. Ignore
         {
           res = input(fd,flags);
-- 
2.43.0


From 2ccce8039917f8f0276ac7ad2fbd9dede0112e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:23 +0000
Subject: [PATCH 91/91] fix: removing a one-shot timeout or input takes its
 pending message with it

---
 OCTOPUSSY/src/Dispatcher.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index ab42f36..1e68161 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -683,6 +683,10 @@ bool Dispatcher::removeTimeout (WPInterface* pwp, const HIID &id)
     else
       iter++;
   }
+  // a one-shot timeout that has fired is no longer listed, but its message may 
+  // still be in the queue
+  if( pwp->dequeue(AidEvent|AidTimeout|id) )
+    repoll = true;
   return false;
 }
 
@@ -714,6 +718,13 @@ bool Dispatcher::removeInput (WPInterface* pwp, int fd, int flags)
       res = true;
     }
   }
+  // a one-shot input that has come up is no longer listed, but its message may
+  // still be in the queue
+  if( fd<0 || ( !res && (flags&EV_FDALL) == EV_FDALL ) )
+  {
+    if( pwp->dequeue(AidEvent|AidInput|(fd<0 ? AidWildcard : AtomicID(fd))) )
+      repoll = true;
+  }
   if( res )
     rebuildInputs();
   return res;
-- 
2.43.0

