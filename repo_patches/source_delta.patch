From 0d68cb75ddf8f9a48100e3e359354e78f72ccdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 01/35] fix: array equality compared stale contents of unknown
 elements

Two arrays whose elements are all unknown in the same places compared
unequal when an element had held a value before becoming unknown, while
operator< said neither was less.
---
 src/value/ArrayImpl.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/value/ArrayImpl.cc b/src/value/ArrayImpl.cc
index f3bf677..895963c 100644
--- a/src/value/ArrayImpl.cc
+++ b/src/value/ArrayImpl.cc
@@ -283,6 +283,20 @@ namespace PLEXIL
     return true;
   }
 
+  // Internal template
+  // Compare the elements which are known. Presumes both vectors are the size of the known vector.
+  // Whatever an unknown element last held is not part of the array's value.
+  template <typename T>
+  static bool sameKnownContents(std::vector<bool> const &known,
+                                std::vector<T> const &a,
+                                std::vector<T> const &b)
+  {
+    for (size_t i = 0; i < known.size(); ++i)
+      if (known[i] && a[i] != b[i])
+        return false;
+    return true;
+  }
+
   // Generic equality
   template <typename T>
   bool ArrayImpl<T>::operator==(Array const &other) const
@@ -309,14 +323,14 @@ namespace PLEXIL
   {
     if (!(this->getKnownVector() == other.getKnownVector()))
       return false;
-    return m_contents == other.m_contents;
+    return sameKnownContents(this->getKnownVector(), m_contents, other.m_contents);
   }
 
   bool ArrayImpl<String>::operator==(ArrayImpl<String> const &other) const
   {
     if (!(this->getKnownVector() == other.getKnownVector()))
       return false;
-    return m_contents == other.m_contents;
+    return sameKnownContents(this->getKnownVector(), m_contents, other.m_contents);
   }
 
   template <typename T>
@@ -425,7 +439,7 @@ namespace PLEXIL
     std::vector<T> const *avec, *bvec;
     arya.getContentsVector(avec);
     aryb.getContentsVector(bvec);
-    return *avec == *bvec;
+    return sameKnownContents(arya.getKnownVector(), *avec, *bvec);
   }
 
   // Generic
-- 
2.43.0


From 02766674d296ee03c53540498e702e19ec394b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 02/35] fix: unknown Integer was both equal to and less than
 unknown Real

---
 src/value/Value.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/Value.cc b/src/value/Value.cc
index 9ea0967..a3df6e2 100644
--- a/src/value/Value.cc
+++ b/src/value/Value.cc
@@ -1082,7 +1082,7 @@ namespace PLEXIL
       else if (REAL_TYPE == other.m_type) {
         if (m_known)
           return ((Real) integerValue) < other.realValue;
-        return true; // real unknown > int unknown
+        return false; // unknown numeric values are equal
       }
       return m_type < other.m_type;
 
-- 
2.43.0


From 0cbfedeb65c6a407def30f43f7a4f67dfc2e5030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 03/35] fix: arrays of 128 or more elements could not be
 deserialized

The size bytes were sign-extended, so any size with a byte of 0x80 or
more was corrupted.
---
 src/value/ArrayImpl.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/value/ArrayImpl.cc b/src/value/ArrayImpl.cc
index 895963c..bfc9827 100644
--- a/src/value/ArrayImpl.cc
+++ b/src/value/ArrayImpl.cc
@@ -941,9 +941,9 @@ namespace PLEXIL
       return nullptr; // not an appropriate array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     
     this->resize(siz);
     
@@ -962,9 +962,9 @@ namespace PLEXIL
       return nullptr; // not a Boolean array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     this->resize(siz);
     
     buf = deserializeBoolVector(this->m_known, buf);
@@ -980,9 +980,9 @@ namespace PLEXIL
       return nullptr; // not an appropriate array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     
     this->resize(siz);
     
-- 
2.43.0


From e4852c61981daa661f1f493ad31224492878d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 04/35] fix: XOR of three or more arguments was unknown when
 its arguments were known

---
 src/expr/BooleanOperators.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/BooleanOperators.cc b/src/expr/BooleanOperators.cc
index d7d2f73..5c1ef78 100644
--- a/src/expr/BooleanOperators.cc
+++ b/src/expr/BooleanOperators.cc
@@ -223,7 +223,7 @@ namespace PLEXIL
     for (size_t i = 0; i < n; ++i) {
       bool temp2;
       // Return unknown if any arg is unknown
-      if (args[i]->getValue(temp2))
+      if (!args[i]->getValue(temp2))
         return false;
       temp1 = (temp1 != temp2);
     }
-- 
2.43.0


From 025a679310c6585313139787d5ecf992165083d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 05/35] fix: OR of three or more arguments was false when an
 argument was unknown

---
 src/expr/BooleanOperators.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/expr/BooleanOperators.cc b/src/expr/BooleanOperators.cc
index 5c1ef78..de81eab 100644
--- a/src/expr/BooleanOperators.cc
+++ b/src/expr/BooleanOperators.cc
@@ -100,7 +100,7 @@ namespace PLEXIL
   bool BooleanOr::operator()(Boolean &result, Function const &args) const
   {
     size_t const n = args.size();
-    bool anyKnown = false;
+    bool allKnown = true;
     for (size_t i = 0; i < n; ++i) {
       bool temp;
       if (args[i]->getValue(temp)) {
@@ -109,12 +109,13 @@ namespace PLEXIL
           result = true;
           return true;
         }
-        anyKnown = true; // but no true value yet
       }
+      else
+        allKnown = false;
     }
-    if (anyKnown)
+    if (allKnown)
       result = false; // or we would have returned above
-    return anyKnown;
+    return allKnown;
   }
 
   //
-- 
2.43.0


From a771713e4cc68523b1dad1652963587e3d7dfb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 06/35] fix: Integer division and modulo of the least Integer
 by -1 killed the executive

---
 src/expr/ArithmeticOperators.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/expr/ArithmeticOperators.cc b/src/expr/ArithmeticOperators.cc
index 075771d..3863689 100644
--- a/src/expr/ArithmeticOperators.cc
+++ b/src/expr/ArithmeticOperators.cc
@@ -29,6 +29,7 @@
 #include "PlanError.hh"
 
 #include <cmath>
+#include <limits>
 
 namespace PLEXIL
 {
@@ -216,13 +217,26 @@ namespace PLEXIL
     return count == 2;
   }
 
+  // The one quotient of two Integers which is not an Integer.
+  // Computing it is fatal on some platforms.
+  static inline bool quotientOverflows(Integer dividend, Integer divisor)
+  {
+    return divisor == -1 && dividend == std::numeric_limits<Integer>::min();
+  }
+
+  static inline bool quotientOverflows(Real /* dividend */, Real /* divisor */)
+  {
+    return false;
+  }
+
   // TODO: warn on zero divisor?
   template <typename NUM>
   bool Division<NUM>::calc(NUM &result, Expression const *arg0, Expression const *arg1) const
   {
     NUM temp0, temp1;
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1))
-        || temp1 == 0)
+        || temp1 == 0
+        || quotientOverflows(temp0, temp1))
       return false;
     result = temp0 / temp1;
     return true;
@@ -252,7 +266,7 @@ namespace PLEXIL
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1))
         || temp1 == 0)
       return false;
-    result = temp0 % temp1;
+    result = (temp1 == -1) ? 0 : temp0 % temp1; // avoid overflow when temp1 is -1
     return true;
   }
 
-- 
2.43.0


From 5375dfca5f06c447329affaeaa5838485b761886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 07/35] fix: saved value of a variable was reported known when
 it was saved unknown

---
 src/expr/UserVariable.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expr/UserVariable.cc b/src/expr/UserVariable.cc
index 144f015..6e0db8c 100644
--- a/src/expr/UserVariable.cc
+++ b/src/expr/UserVariable.cc
@@ -393,11 +393,15 @@ namespace PLEXIL
   template <typename T>
   Value UserVariable<T>::getSavedValue() const
   {
+   if (!m_savedKnown)
+     return Value(PlexilValueType<T>::value); // unknown
    return Value(m_savedValue);
   }
 
   Value UserVariable<String>::getSavedValue() const
   {
+   if (!m_savedKnown)
+     return Value(STRING_TYPE); // unknown
    return Value(m_savedValue);
   }
 
-- 
2.43.0


From 1b03cc07cf79b43c507595d7c3113009b1e21eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 08/35] fix: making an array element unknown did not notify
 listeners

---
 src/expr/ArrayVariable.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 708b10d..6c8a219 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -285,8 +285,10 @@ namespace PLEXIL
 
   void ArrayVariable::setElementUnknown(size_t idx)
   {
-    if (m_known)
+    if (m_known && m_value->elementKnown(idx)) {
       m_value->setElementUnknown(idx);
+      publishChange();
+    }
     // else fail silently
   }
 
-- 
2.43.0


From fdd6218e92e2b418e9a37097d5838efb671a9a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 09/35] fix: retracting an array element assignment restored
 the wrong element when the index had changed

---
 src/expr/ArrayReference.cc | 21 ++++++++++++++++-----
 src/expr/ArrayReference.hh |  8 ++++++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/expr/ArrayReference.cc b/src/expr/ArrayReference.cc
index 89087f8..ca0de52 100644
--- a/src/expr/ArrayReference.cc
+++ b/src/expr/ArrayReference.cc
@@ -228,16 +228,28 @@ namespace PLEXIL
     : Assignable(),
       ArrayReference(ary, idx, aryIsGarbage, idxIsGarbage),
       m_mutableArray(dynamic_cast<ArrayVariable *>(ary->getBaseExpression())),
+      m_savedIndex(0),
       m_saved(false)
   {
   }
 
+  void MutableArrayReference::handleDeactivate()
+  {
+    m_saved = false;
+    ArrayReference::handleDeactivate();
+  }
+
   bool MutableArrayReference::mutableSelfCheck(size_t &idx)
   {
     checkPlanError(m_mutableArray,
                    "Can't assign to an array element not associated with a variable");
     if (!m_mutableArray->isKnown())
       return false;
+    if (m_saved) {
+      // Between save and restore, this denotes the element whose value was saved
+      idx = m_savedIndex;
+      return true;
+    }
     Integer idxTemp;
     if (!m_index->getValue(idxTemp))
       return false; // index is unknown
@@ -266,12 +278,11 @@ namespace PLEXIL
   void MutableArrayReference::saveCurrentValue()
   {
     size_t idx;
-    if (!mutableSelfCheck(idx)) {
-      // unknown or invalid
-      m_saved = false;
-      return;
-    }
+    m_saved = false;
+    if (!mutableSelfCheck(idx))
+      return; // unknown or invalid
     m_savedValue = m_mutableArray->getElementValue(idx);
+    m_savedIndex = idx;
     m_saved = true;
   }
 
diff --git a/src/expr/ArrayReference.hh b/src/expr/ArrayReference.hh
index 309893e..3dcb658 100644
--- a/src/expr/ArrayReference.hh
+++ b/src/expr/ArrayReference.hh
@@ -227,6 +227,11 @@ namespace PLEXIL {
 
     using Assignable::setValue;
 
+  protected:
+
+    //! \brief Perform any necessary actions to enter the inactive state.
+    virtual void handleDeactivate() override;
+
   private:
     // Default, copy, assignment disallowed
     MutableArrayReference() = delete;
@@ -250,6 +255,9 @@ namespace PLEXIL {
     //! \brief Value saved by saveCurrentValue().
     Value m_savedValue;
 
+    //! \brief Index of the element whose value was saved.
+    size_t m_savedIndex;
+
     //! \brief True if saveCurrentValue() has been called, false otherwise.
     bool m_saved;
   };
-- 
2.43.0


From 37896ade45a369289d85845b489b698ad42e729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 10/35] fix: restoring an array variable which had become
 unknown did not restore its contents

---
 src/expr/ArrayVariable.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 6c8a219..cf5b062 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -698,8 +698,8 @@ namespace PLEXIL
   void ArrayVariableImpl<T>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
-        && !equals(m_savedValue.get())) {
+    if (m_savedKnown
+        && !(m_known && equals(m_savedValue.get()))) {
       changed = true;
       ArrayImpl<T> const *saved =
         dynamic_cast<ArrayImpl<T> const *>(m_savedValue.get());
@@ -714,8 +714,8 @@ namespace PLEXIL
   void ArrayVariableImpl<Integer>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
-        && !equals(m_savedValue.get())) {
+    if (m_savedKnown
+        && !(m_known && equals(m_savedValue.get()))) {
       changed = true;
       ArrayImpl<Integer> const *saved =
         dynamic_cast<ArrayImpl<Integer> const *>(m_savedValue.get());
@@ -730,8 +730,8 @@ namespace PLEXIL
   void ArrayVariableImpl<String>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
-        && !equals(m_savedValue.get())) {
+    if (m_savedKnown
+        && !(m_known && equals(m_savedValue.get()))) {
       changed = true;
       ArrayImpl<String> const *saved =
         dynamic_cast<ArrayImpl<String> const *>(m_savedValue.get());
-- 
2.43.0


From efb7db2c553dc17214430c0f0845f5c5b912ff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 11/35] fix: mutexes were not released by a node which finished
 because its parent exited or failed

---
 src/exec/NodeImpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 87d8b75..f4d06e2 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -1376,8 +1376,8 @@ namespace PLEXIL
   // Wrapped by AssignmentNode
   void NodeImpl::transitionToFinished()
   {
-    // If transitioning from FAILING,, Release any mutexes held by this node
-    if (m_usingMutexes && m_state == WAITING_STATE) {
+    // If transitioning from EXECUTING or FAILING, release any mutexes held by this node
+    if (m_usingMutexes && (m_state == EXECUTING_STATE || m_state == FAILING_STATE)) {
       for (Mutex *m : *m_usingMutexes)
         m->release(this);
     }
-- 
2.43.0


From 48dea2873749bb5e9e904cdb69387ee0773a6455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 12/35] fix: a node whose conditions changed while it waited
 for a resource was never considered again

---
 src/exec/PlexilExec.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index aefeda2..219cef8 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -493,12 +493,14 @@ namespace PLEXIL
         if (!node->getDestState()) {
           // No longer transitioning at all - remove from pending queue
           removePendingNode(node);
+          return false;
         }
         else if (node->getNextState() != EXECUTING_STATE) {
           // Now transitioning to some other state
           // Remove from pending queue and add to state change queue
           removePendingNode(node);
           addStateChangeNode(node);
+          return false;
         }
         // else still eligible to transition to EXECUTING,
         // but resources not available
-- 
2.43.0


From bb6004d3b854ab79f244b25456403e3fef79360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:49 +0000
Subject: [PATCH 13/35] fix: nodes waiting for a resource were skipped after
 one of them stopped waiting

---
 src/exec/PlexilExec.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index 219cef8..b7bdba7 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -558,10 +558,12 @@ namespace PLEXIL
 
         Node *temp = priorityHead;
         do {
+          // Checking may take the node off the pending queue
+          Node *nextNode = temp->next();
           if (resourceCheckEligible(temp)) 
             // Resource(s) were released, give it a look
             priorityNodes.push_back(temp);
-          temp = temp->next();
+          temp = nextNode;
         } while (temp && temp->getPriority() == thisPriority);
 
         // temp is at end of queue,
-- 
2.43.0


From 1e47e60369da3c7902763eda2550266cd4a70eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 14/35] fix: expressions were not notified when a command's
 handle became unknown as the command restarted

---
 src/intfc/CommandImpl.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/intfc/CommandImpl.cc b/src/intfc/CommandImpl.cc
index 6ca5d64..0ea1fb2 100644
--- a/src/intfc/CommandImpl.cc
+++ b/src/intfc/CommandImpl.cc
@@ -433,8 +433,11 @@ namespace PLEXIL
   {
     check_error_1(!m_active);
 
+    bool hadHandle = (m_commandHandle != NO_COMMAND_HANDLE);
     m_commandHandle = NO_COMMAND_HANDLE;
     m_ack.activate();
+    if (hadHandle)
+      m_ack.publishChange(); // handle is now unknown
     m_abortComplete.activate();
 
     // Check for constancy and set up internal data structures at
-- 
2.43.0


From b2389a1da3093f8d4a0873479cad760572c6cc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 15/35] fix: the exit condition of a Command node stayed active
 after the node finished

---
 src/exec/CommandNode.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/exec/CommandNode.cc b/src/exec/CommandNode.cc
index cf52343..d4d3065 100644
--- a/src/exec/CommandNode.cc
+++ b/src/exec/CommandNode.cc
@@ -202,7 +202,6 @@ namespace PLEXIL
     activateLocalVariables();
 
     activateInvariantCondition();
-    activateExitCondition();
     activateEndCondition();
   }
 
-- 
2.43.0


From 7784dc8f6f6952fcbd422ba66bb77e7d84f20570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:55 +0000
Subject: [PATCH 16/35] fix: an Integer LookupOnChange shows any value that
 follows unknown

---
 src/intfc/Lookup.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 31a0504..210f672 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -660,7 +660,7 @@ namespace PLEXIL
   {
     Integer currentValue;
     if (value->getValue(currentValue))
-      return (currentValue >= m_high) || (currentValue <= m_low);
+      return !m_wasKnown || (currentValue >= m_high) || (currentValue <= m_low);
     // Current value is unknown
     return m_wasKnown; 
   }
-- 
2.43.0


From ab8ede511db493d23614b5c82e9968257f8c76f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:55 +0000
Subject: [PATCH 17/35] fix: clear a state's thresholds at the interface when
 its last lookup is unregistered

---
 src/intfc/StateCacheEntry.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intfc/StateCacheEntry.cc b/src/intfc/StateCacheEntry.cc
index b94e5ba..3431761 100644
--- a/src/intfc/StateCacheEntry.cc
+++ b/src/intfc/StateCacheEntry.cc
@@ -133,6 +133,7 @@ namespace PLEXIL
         if (m_lowThreshold || m_highThreshold) {
           m_lowThreshold.reset();
           m_highThreshold.reset();
+          g_dispatcher->clearThresholds(state);
         }
       }
       else if (m_lowThreshold || m_highThreshold) {
-- 
2.43.0


From e94cba3767e37251fd39736d398eb71e42cb229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 18/35] fix: tell the interface the new thresholds when the
 tolerance of a LookupOnChange changes

---
 src/intfc/Lookup.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 210f672..3ca3a13 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1011,6 +1011,7 @@ namespace PLEXIL
                      ' ' << this->m_cachedState
                      << " tolerance changed, updating thresholds");
             m_thresholds->setThresholds(m_cachedValue.get(), m_tolerance);
+            m_entry->updateThresholds(m_cachedState);
           }
 
           // Has the (possibly updated) threshold been exceeded?
-- 
2.43.0


From bda39b3ddb99beab7d01665572d9c8683f75feb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 19/35] fix: a LookupOnChange whose tolerance becomes unknown
 announces the value it shows from then on

---
 src/intfc/Lookup.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 3ca3a13..e0f69db 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1036,13 +1036,14 @@ namespace PLEXIL
                    ' ' << this->m_cachedState
                    << " thresholds set but tolerance is now unknown; deleting thresholds");
           m_thresholds.reset();
-          // *** Do we need to delete m_cachedValue here??? ***
-          // Is case of tolerance becoming unknown independent of state/value
-          // worth optimizing?
+          // From now on this lookup shows the state's current value,
+          // which may differ from the one shown so far.
+          if (m_cachedValue->toValue() != m_entry->cachedValue()->toValue())
+            valueChanged = true;
           m_cachedValue.reset();
           // Tell the cache entry about it
           m_entry->updateThresholds(m_cachedState);
-          return valueChanged; // ??
+          return valueChanged;
         }
       }
       else if (this->m_entry && this->m_entry->isKnown() && m_tolerance->isKnown()) {
-- 
2.43.0


From 933570e26503fe0a90e58a30bf28b899d04b7faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:43 +0000
Subject: [PATCH 20/35] fix: release the resources of a command the arbiter
 accepted but the interface denied

---
 src/intfc/CommandImpl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/intfc/CommandImpl.cc b/src/intfc/CommandImpl.cc
index 0ea1fb2..a245925 100644
--- a/src/intfc/CommandImpl.cc
+++ b/src/intfc/CommandImpl.cc
@@ -498,7 +498,8 @@ namespace PLEXIL
     check_error_1(m_active);
     m_active = false;
 
-    if (m_commandHandle != COMMAND_DENIED && arbiter) // handle unit tests
+    // N.B. A command the arbiter accepted may be denied by the interface.
+    if (arbiter) // handle unit tests
       arbiter->releaseResourcesForCommand(this);
 
     m_abortComplete.deactivate();
-- 
2.43.0


From b95980b24e9051badbab007e2c413550b7e489ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:43 +0000
Subject: [PATCH 21/35] fix: an explicit resource request overrides an amount
 implied by another request

---
 src/intfc/ResourceArbiterInterface.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/intfc/ResourceArbiterInterface.cc b/src/intfc/ResourceArbiterInterface.cc
index 503812a..2608152 100644
--- a/src/intfc/ResourceArbiterInterface.cc
+++ b/src/intfc/ResourceArbiterInterface.cc
@@ -308,7 +308,7 @@ namespace PLEXIL
     for (ChildResourceNode const &fres : flattenedRes) {
       if (resourcesNeeded.find(fres) == resourcesNeeded.end())
         resourcesNeeded.insert(fres);
-      else if (fres.name == requestName)
+      else if (fres.name == requestName) {
         // If current is explicitly specified in 
         // the command then the value can be overwritten. The
         // child resource scales will not be overwritten however.
@@ -316,7 +316,10 @@ namespace PLEXIL
         // of the flattened vector. This means that if a resource value
         // has to be overwritten it has to be explicitly scpecified in the 
         // plan
+        // N.B. insert() would not replace the existing entry.
+        resourcesNeeded.erase(fres);
         resourcesNeeded.insert(fres);
+      }
     }
   }
 
-- 
2.43.0


From d69d94caac2f40efbf0f8bd41db09c840a337c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:08 +0000
Subject: [PATCH 22/35] fix: rounding errors do not count as allocated
 resources in arbitration

---
 src/intfc/ResourceArbiterInterface.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/intfc/ResourceArbiterInterface.cc b/src/intfc/ResourceArbiterInterface.cc
index 2608152..85e76aa 100644
--- a/src/intfc/ResourceArbiterInterface.cc
+++ b/src/intfc/ResourceArbiterInterface.cc
@@ -36,6 +36,7 @@
 #include <set>
 
 #include <cctype>
+#include <cmath>   // fabs()
 #include <cstdlib> // strtod()
 #include <cstring> // strspn(), strcspn() et al
 
@@ -258,6 +259,9 @@ namespace PLEXIL
   //! \brief A map, keyed by resource name, of estimated resource usage.
   using EstimateMap = std::map<std::string, ResourceEstimate>;
 
+  //! \brief Rounding error allowed for in comparing sums of resource amounts.
+  static constexpr double RESOURCE_TOLERANCE = 1e-9;
+
   //! \brief Recursively collect the descendants of a resource and their weights.
   //! \param[in] The map of all known resources.
   //! \param[in] resName The name of a resource.
@@ -548,7 +552,8 @@ namespace PLEXIL
       for (ChildResourceNode const &res : resListIter->second) {
         if (res.release) {
           m_allocated[res.name] -= res.weight;
-          if (m_allocated[res.name] == 0.0)
+          // Don't let rounding errors pass for an allocation
+          if (fabs(m_allocated[res.name]) < RESOURCE_TOLERANCE)
             m_allocated.erase(res.name);
         }
       }
@@ -626,14 +631,16 @@ namespace PLEXIL
           // the permitted maximum. This handles the worst case resource usage 
           // behavior of both types of resources.
           double resMax = maxConsumableResourceValue(res.name);
-          if (est.renewable < 0.0 || est.renewable > resMax) {
+          if (est.renewable < -RESOURCE_TOLERANCE
+              || est.renewable > resMax + RESOURCE_TOLERANCE) {
             invalid = true;
             debugMsg("ResourceArbiter:optimalResourceArbitration",
                      " rejecting " << cmd->getName()
                      << " because renewable usage of " << res.name << " exceeds limits");
             break; // from inner loop
           }
-          if (est.consumable < 0.0 || est.consumable > resMax) {
+          if (est.consumable < -RESOURCE_TOLERANCE
+              || est.consumable > resMax + RESOURCE_TOLERANCE) {
             invalid = true;
             debugMsg("ResourceArbiter:optimalResourceArbitration",
                      " rejecting " << cmd->getName()
-- 
2.43.0


From 06e857463284b10c08d531939628f8d567be291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:02 +0000
Subject: [PATCH 23/35] fix: SerializedInputQueue::flush deadlocked on its own
 mutex

---
 src/app-framework/SerializedInputQueue.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/SerializedInputQueue.cc b/src/app-framework/SerializedInputQueue.cc
index 239a8a6..c49b8eb 100644
--- a/src/app-framework/SerializedInputQueue.cc
+++ b/src/app-framework/SerializedInputQueue.cc
@@ -131,7 +131,10 @@ namespace PLEXIL
     QueueEntry *temp;
     while ((temp = m_queueGet)) {
       m_queueGet = temp->next;
-      release(temp);
+      // Can't call release() here, it would try to take the mutex again.
+      temp->reset();
+      temp->next = m_freeList;
+      m_freeList = temp;
     }
     m_queuePut = nullptr;
   }
-- 
2.43.0


From f7046a1ea923c032ddf1ea6c923630696864cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:02 +0000
Subject: [PATCH 24/35] fix: QueueEntry::initForAcceptMessage dropped the
 message handle

---
 src/intfc/QueueEntry.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intfc/QueueEntry.cc b/src/intfc/QueueEntry.cc
index 74965ae..f6b0ab8 100644
--- a/src/intfc/QueueEntry.cc
+++ b/src/intfc/QueueEntry.cc
@@ -127,6 +127,7 @@ namespace PLEXIL
   void QueueEntry::initForAcceptMessage(Message *msg, std::string const &handle)
   {
     message = msg;
+    value = handle;
     type = Q_ACCEPT_MSG;
   }
 
-- 
2.43.0


From 013d57a875447ad247d4aa6eaace433d79756842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:02 +0000
Subject: [PATCH 25/35] fix: MessageAdapter gave every accepted message the
 same empty handle

---
 src/app-framework/MessageAdapter.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/app-framework/MessageAdapter.cc b/src/app-framework/MessageAdapter.cc
index a986f28..b561dd6 100644
--- a/src/app-framework/MessageAdapter.cc
+++ b/src/app-framework/MessageAdapter.cc
@@ -41,6 +41,7 @@
 #include "Timebase.hh"
 
 #include <queue>
+#include <string>
 
 namespace PLEXIL
 {
@@ -128,8 +129,7 @@ namespace PLEXIL
       }
       else {
         // Generate a handle
-        std::string handle;
-        // TODO - generate UID?
+        std::string const handle = "msg" + std::to_string(++m_handleCount);
         intf->notifyMessageAccepted(m_queue.front(), handle);
         m_queue.pop();
         intf->handleCommandReturn(cmd, Value(handle));
@@ -313,6 +313,9 @@ namespace PLEXIL
     using MessageQueue = std::queue<Message *>;
 
     MessageQueue m_queue;
+
+    //! Number of message handles issued, used to make them unique.
+    unsigned long m_handleCount = 0;
   }; // class MessageAdapterImpl
 
 } // namespace PLEXIL
-- 
2.43.0


From 6e16eed16057180eb65335612d5d7b2f50ddc30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:02 +0000
Subject: [PATCH 26/35] fix: MessageAdapter executed commands it had just
 rejected

---
 src/app-framework/MessageAdapter.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/MessageAdapter.cc b/src/app-framework/MessageAdapter.cc
index b561dd6..aacb9b1 100644
--- a/src/app-framework/MessageAdapter.cc
+++ b/src/app-framework/MessageAdapter.cc
@@ -201,17 +201,20 @@ namespace PLEXIL
           warn("ReleaseMessageHandle command requires exactly one argument");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(0) != STRING_TYPE) {
           // report arg-type error
           warn("ReleaseMessageHandle command: first argument must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(0).isKnown()) {
           // do nothing, but report success
           intf->handleCommandAck(cmd, COMMAND_SUCCESS);
           intf->notifyOfExternalEvent();
+          return;
         }
 
         // All good? Hand it off for implementation.
@@ -229,18 +232,21 @@ namespace PLEXIL
           warn("PublishMessage command requires exactly one argument");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(0) != STRING_TYPE) {
           // report arg-type error
           warn("PublishMessage command: first argument must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(0).isKnown()) {
           // report arg-unknown error
           warn("PublishMessage command: first argument, message, is unknown");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
 
         // Then hand it off for implementation
@@ -253,35 +259,40 @@ namespace PLEXIL
         // Check that there are at least two parameters and that they are strings
         // Check that there is at least one parameter and that it is a string
         State const &command = cmd->getCommand();
-        if (command.parameterCount() < 1) {
+        if (command.parameterCount() < 2) {
           // report arg-count error
           warn("SendMessage command requires at least two arguments");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(0) != STRING_TYPE) {
           // report arg-type error
           warn("SendMessage command: first argument, recipient, must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(0).isKnown()) {
           // report arg-unknown error
           warn("SendMessage command: first argument, recipient, is unknown");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(1) != STRING_TYPE) {
           // report arg-type error
           warn("SendMessage command: second argument, message, must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(1).isKnown()) {
           // report arg-unknown error
           warn("SendMessage command: second argument, message, is unknown");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
 
         // Then hand it off for implementation
-- 
2.43.0


From 69de2852e0ac42136760b538b04f0c33cae9f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:14 +0000
Subject: [PATCH 27/35] fix: releasing a message handle left the message
 visible to active lookups

---
 src/intfc/StateCache.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/intfc/StateCache.cc b/src/intfc/StateCache.cc
index d0c8780..24663a3 100644
--- a/src/intfc/StateCache.cc
+++ b/src/intfc/StateCache.cc
@@ -188,13 +188,7 @@ namespace PLEXIL
         return;
       }
       
-      if (iter->second->hasRegisteredLookups()) {
-        // BIG OOPS - can't delete these w/o leaving dangling pointers
-        // warn (NYI)
-        return;
-      }
-
-      m_map.erase(iter);
+      deleteStateCacheEntry(iter->first);
       for (Integer i = 0; i < count; ++i) {
         deleteStateCacheEntry(State("MessageParameter",
                                     handleValue,
@@ -228,13 +222,16 @@ namespace PLEXIL
 
     //! \brief Delete the state cache entry for the named state.
     //! \param state Const reference to the state.
+    //! \note If lookups are registered on the entry, its value is set to unknown,
+    //!       and the entry remains.
     void deleteStateCacheEntry(State const &state)
     {
       EntryMap::iterator iter = m_map.find(state);
       if (iter == m_map.end())
         return; // already deleted or never there
       if (iter->second->hasRegisteredLookups()) {
-        // warn (NYI) and bail out
+        // Can't delete it without leaving dangling pointers
+        iter->second->setUnknown();
         return;
       }
       m_map.erase(iter);
-- 
2.43.0


From eef4ed0701adf981e18014f3605755709876641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:14 +0000
Subject: [PATCH 28/35] fix: LinkedQueue::insert_after at the end lost the tail
 pointer

---
 src/utils/LinkedQueue.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/LinkedQueue.hh b/src/utils/LinkedQueue.hh
index d3bd1ed..e2d1fcf 100644
--- a/src/utils/LinkedQueue.hh
+++ b/src/utils/LinkedQueue.hh
@@ -191,7 +191,7 @@ namespace PLEXIL
         *nxtPtr = item;
         *(item->nextPtr()) = nxt;
         if (!nxt)
-          m_tail = nxt;
+          m_tail = item;
         ++m_count;
       }
       return iterator(item);
-- 
2.43.0


From 62cb94636676a46e9ccdd06d687f1b7b08930fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:14 +0000
Subject: [PATCH 29/35] fix: SimpleSet::find did not compile for a const set

---
 src/utils/SimpleSet.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/SimpleSet.hh b/src/utils/SimpleSet.hh
index 938fc0c..cd81821 100644
--- a/src/utils/SimpleSet.hh
+++ b/src/utils/SimpleSet.hh
@@ -87,7 +87,7 @@ namespace PLEXIL
     const_iterator find(VALUE_TYPE const &val) const
     {
       static Comparator s_comp;
-      typename STORE_TYPE::iterator it = 
+      typename STORE_TYPE::const_iterator it = 
         std::lower_bound(m_store.begin(), m_store.end(), val, s_comp);
       if (it == m_store.end() || s_comp.equal(*it, val))
         return it;
-- 
2.43.0


From 45559f258018591a73a3d2372e63a345804d375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:48 +0000
Subject: [PATCH 30/35] fix: releasing a message handle which is only mentioned
 in a lookup crashed

---
 src/intfc/StateCache.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/intfc/StateCache.cc b/src/intfc/StateCache.cc
index 24663a3..cb313c6 100644
--- a/src/intfc/StateCache.cc
+++ b/src/intfc/StateCache.cc
@@ -183,10 +183,9 @@ namespace PLEXIL
         return; // not there, therefore already deleted or never existed
 
       Integer count;
-      if (!iter->second->cachedValue()->getValue(count)) {
-        // warn of internal error (NYI)
-        return;
-      }
+      CachedValue const *cached = iter->second->cachedValue();
+      if (!cached || !cached->getValue(count))
+        return; // handle is not in use, lookups of it merely mention it
       
       deleteStateCacheEntry(iter->first);
       for (Integer i = 0; i < count; ++i) {
-- 
2.43.0


From 9439b636f4b3f22d1fe26b6082548f2307c80b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:31 +0000
Subject: [PATCH 31/35] fix: converting an out of range number to a time left
 the result uninitialized

---
 src/utils/timespec-utils.cc | 13 ++++++++++---
 src/utils/timeval-utils.cc  | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/utils/timespec-utils.cc b/src/utils/timespec-utils.cc
index 6caaac8..6dcbfa9 100644
--- a/src/utils/timespec-utils.cc
+++ b/src/utils/timespec-utils.cc
@@ -106,9 +106,16 @@ struct timespec operator-(const struct timespec& ts1, const struct timespec& ts2
 
 void doubleToTimespec(double dbl, timespec& result)
 {
-  if (dbl > std::numeric_limits<time_t>::max()
-      || dbl < std::numeric_limits<time_t>::min()) {
-    // TODO: report out-of-range error
+  // Out of range values (and NaN) become the furthest time representable.
+  // N.B. max() is not representable as a double, it rounds up to max() + 1.
+  if (!(dbl < (double) std::numeric_limits<time_t>::max())) {
+    result.tv_sec = std::numeric_limits<time_t>::max();
+    result.tv_nsec = 0;
+    return;
+  }
+  if (dbl < (double) std::numeric_limits<time_t>::min()) {
+    result.tv_sec = std::numeric_limits<time_t>::min();
+    result.tv_nsec = 0;
     return;
   }
   result.tv_sec = (time_t) dbl;
diff --git a/src/utils/timeval-utils.cc b/src/utils/timeval-utils.cc
index aa94f4c..b8baf0c 100644
--- a/src/utils/timeval-utils.cc
+++ b/src/utils/timeval-utils.cc
@@ -116,9 +116,16 @@ struct timeval operator- (const struct timeval& tv1, const struct timeval& tv2)
 
 void doubleToTimeval(double dbl, timeval& result)
 {
-  if (dbl > std::numeric_limits<time_t>::max()
-      || dbl < std::numeric_limits<time_t>::min()) {
-    // TODO: report out-of-range error
+  // Out of range values (and NaN) become the furthest time representable.
+  // N.B. max() is not representable as a double, it rounds up to max() + 1.
+  if (!(dbl < (double) std::numeric_limits<time_t>::max())) {
+    result.tv_sec = std::numeric_limits<time_t>::max();
+    result.tv_usec = 0;
+    return;
+  }
+  if (dbl < (double) std::numeric_limits<time_t>::min()) {
+    result.tv_sec = std::numeric_limits<time_t>::min();
+    result.tv_usec = 0;
     return;
   }
   result.tv_sec = (time_t) dbl;
-- 
2.43.0


From 19af81e7f107dfbe8fd728859d787fe78e404a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:30 +0000
Subject: [PATCH 32/35] fix: Itimer timebase lost or delivered early wakeups
 due within the current microsecond

---
 src/app-framework/ItimerTimebase.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index a73eb1f..284552c 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -168,13 +168,19 @@ namespace PLEXIL
       // Convert the deadline to timeval and get the current time
       struct timeval deadline, now;
       deadline = doubleToTimeval(d);
+      if (timevalToDouble(deadline) < d) {
+        // Truncated; round up so as not to wake up too early
+        struct timeval const oneUsec = {0, 1};
+        deadline = deadline + oneUsec;
+      }
       checkInterfaceError(!gettimeofday(&now, nullptr),
                           "ItimerTimebase:setTimer: gettimeofday failed, errno = "
                           << errno << ":\n " << strerror(errno));
                           
       // Have we missed the deadline already?
-      if (deadline < now) {
-        // Already past the scheduled time
+      // N.B. An interval of 0 would turn the timer off.
+      if (!(deadline > now)) {
+        // Already at or past the scheduled time
         debugMsg("ItimerTimebase:setTimer",
                  " new value " << std::fixed << std::setprecision(6) << d
                  << " is in past, calling wakeup function now");
-- 
2.43.0


From 13c68a1fbf3e5e5c23054ce3acb3ce6861f314df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:06 +0000
Subject: [PATCH 33/35] fix: Posix timebase tick intervals above 4.29 seconds
 overflowed

---
 src/app-framework/PosixTimebase.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app-framework/PosixTimebase.cc b/src/app-framework/PosixTimebase.cc
index 833bbac..8ab79d0 100644
--- a/src/app-framework/PosixTimebase.cc
+++ b/src/app-framework/PosixTimebase.cc
@@ -112,7 +112,7 @@ namespace PLEXIL
       struct itimerspec tymrSpec = {{0, 0}, {0, 0}};
 
       // Calculate repeat interval in nanosec.
-      uint64_t nanos = 1000 * m_interval_usec;
+      uint64_t nanos = 1000 * (uint64_t) m_interval_usec;
       tymrSpec.it_interval.tv_sec  = nanos / NSEC_PER_SEC; // better be *integer* divide!
       tymrSpec.it_interval.tv_nsec = nanos % NSEC_PER_SEC;
       // Set initial interval to the same
-- 
2.43.0


From 36605ecc7c0c04f3c2398fa376453feb7cc4fff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:06 +0000
Subject: [PATCH 34/35] fix: timebases could not be started again after having
 been stopped

---
 src/app-framework/ItimerTimebase.cc | 2 ++
 src/app-framework/PosixTimebase.cc  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index 284552c..d00979c 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -148,6 +148,8 @@ namespace PLEXIL
              << errno << ":\n " << strerror(errno));
       }
 
+      m_started = false;
+      m_nextWakeup = 0;
       debugMsg("ItimerTimebase:stop", " complete");
     }
 
diff --git a/src/app-framework/PosixTimebase.cc b/src/app-framework/PosixTimebase.cc
index 8ab79d0..6c07b97 100644
--- a/src/app-framework/PosixTimebase.cc
+++ b/src/app-framework/PosixTimebase.cc
@@ -157,6 +157,8 @@ namespace PLEXIL
         warn("PosixTimebase:stop: timer_delete failed, errno = "
              << errno << ":\n " << strerror(errno));
       }
+      m_started = false;
+      m_nextWakeup = 0;
       debugMsg("PosixTimebase:stop", " complete");
     }
 
-- 
2.43.0


From 291887362e7a98b80efca2f402522b1bd3fb44e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:52 +0000
Subject: [PATCH 35/35] fix: plan and interface errors carried on into
 arbitrary code in release builds

PlanError::report() and InterfaceError::report() are declared noreturn, but with
exceptions not enabled (the default) they relied on assert(false), which is a
no-op under NDEBUG.
---
 src/intfc/InterfaceError.cc | 4 ++--
 src/utils/PlanError.cc      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/intfc/InterfaceError.cc b/src/intfc/InterfaceError.cc
index ac26a0d..532da24 100644
--- a/src/intfc/InterfaceError.cc
+++ b/src/intfc/InterfaceError.cc
@@ -29,7 +29,7 @@
 #include "Logging.hh"
 #include "plexil-config.h"
 
-#include <cassert>
+#include <cstdlib> // std::abort()
 
 namespace PLEXIL
 {
@@ -73,7 +73,7 @@ namespace PLEXIL
     Logging::handle_message(Logging::LOG_ERROR, m_file.c_str(), m_line, m_msg.c_str());
     if (throwEnabled())
       throw *this;
-    assert(false);
+    std::abort();
   }
 
 }
diff --git a/src/utils/PlanError.cc b/src/utils/PlanError.cc
index 08b882b..4351e24 100644
--- a/src/utils/PlanError.cc
+++ b/src/utils/PlanError.cc
@@ -28,7 +28,7 @@
 
 #include "Logging.hh"
 
-#include <cassert>
+#include <cstdlib> // std::abort()
 
 namespace PLEXIL
 {
@@ -73,7 +73,7 @@ namespace PLEXIL
     if (throwEnabled())
       throw *this;
     else
-      assert(false);
+      std::abort();
   }
 
 }
-- 
2.43.0

