From aed133ccd15d545e7f4e89d4e66ffe4126c0ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 001/119] fix: Command node activates its exit condition only
 once

The exit condition is already active when a Command node leaves WAITING.
Activating it again on the way to EXECUTING left it active for good, so a
change to it could notify a node that was finished and queued for deletion.
---
 src/exec/CommandNode.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/exec/CommandNode.cc b/src/exec/CommandNode.cc
index cf52343..d4d3065 100644
--- a/src/exec/CommandNode.cc
+++ b/src/exec/CommandNode.cc
@@ -202,7 +202,6 @@ namespace PLEXIL
     activateLocalVariables();
 
     activateInvariantCondition();
-    activateExitCondition();
     activateEndCondition();
   }
 
-- 
2.43.0


From 843c2630df41cb5ad468be1edaba03d1a02c1efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 002/119] fix: Report an unknown saved value as unknown when an
 assignment is retracted

getSavedValue() returned the raw saved storage, which is uninitialized or
stale when the variable had no value before the assignment.
---
 src/expr/ArrayVariable.cc | 4 ++--
 src/expr/UserVariable.cc  | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 708b10d..b4092a2 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -204,9 +204,9 @@ namespace PLEXIL
 
   Value ArrayVariable::getSavedValue() const
   {
-    if (m_savedValue)
+    if (m_savedKnown && m_savedValue)
       return Value(*m_savedValue);
-    return Value();
+    return Value(this->valueType());
   }
 
   // *** FIXME ***
diff --git a/src/expr/UserVariable.cc b/src/expr/UserVariable.cc
index 144f015..31c57e1 100644
--- a/src/expr/UserVariable.cc
+++ b/src/expr/UserVariable.cc
@@ -393,12 +393,16 @@ namespace PLEXIL
   template <typename T>
   Value UserVariable<T>::getSavedValue() const
   {
-   return Value(m_savedValue);
+   if (m_savedKnown)
+     return Value(m_savedValue);
+   return Value(this->valueType());
   }
 
   Value UserVariable<String>::getSavedValue() const
   {
-   return Value(m_savedValue);
+   if (m_savedKnown)
+     return Value(m_savedValue);
+   return Value(this->valueType());
   }
 
   template <typename T>
-- 
2.43.0


From 478bf19af9a75e0011088dc05d7980bc84437681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 003/119] fix: Release a command's resources even if its last
 handle was COMMAND_DENIED

An interface may answer an accepted command with COMMAND_DENIED. The arbiter
ignores commands which hold no resources, so no special case is needed.
---
 src/intfc/CommandImpl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intfc/CommandImpl.cc b/src/intfc/CommandImpl.cc
index 6ca5d64..f94ddcd 100644
--- a/src/intfc/CommandImpl.cc
+++ b/src/intfc/CommandImpl.cc
@@ -495,7 +495,7 @@ namespace PLEXIL
     check_error_1(m_active);
     m_active = false;
 
-    if (m_commandHandle != COMMAND_DENIED && arbiter) // handle unit tests
+    if (arbiter) // handle unit tests
       arbiter->releaseResourcesForCommand(this);
 
     m_abortComplete.deactivate();
-- 
2.43.0


From df6aaf887aed80577cb94bc2677491298e93f6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 004/119] fix: Keep nodes leaving the pending queue on their
 new queue

Checking a pending node which could no longer execute overwrote the status of
its new queue with QUEUE_PENDING, so the node was never looked at again; and
reading its successor afterwards followed the new queue, or skipped the rest
of the pending nodes.
---
 src/exec/PlexilExec.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index aefeda2..e3eab5d 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -500,9 +500,11 @@ namespace PLEXIL
           removePendingNode(node);
           addStateChangeNode(node);
         }
-        // else still eligible to transition to EXECUTING,
-        // but resources not available
-        node->setQueueStatus(QUEUE_PENDING);
+        else {
+          // still eligible to transition to EXECUTING,
+          // but resources not available
+          node->setQueueStatus(QUEUE_PENDING);
+        }
         return false;
 
       case QUEUE_PENDING_TRY_CHECK:
@@ -556,10 +558,12 @@ namespace PLEXIL
 
         Node *temp = priorityHead;
         do {
+          // Get successor now, as the check may remove the node from the queue
+          Node *successor = temp->next();
           if (resourceCheckEligible(temp)) 
             // Resource(s) were released, give it a look
             priorityNodes.push_back(temp);
-          temp = temp->next();
+          temp = successor;
         } while (temp && temp->getPriority() == thisPriority);
 
         // temp is at end of queue,
-- 
2.43.0


From 557125afc8fac54c1f940a1649f80b311b605bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 005/119] fix: Step the exec again when a pending node has been
 notified

A node waiting on the pending queue records a change of its conditions, or the
release of a mutex or variable, in its queue status only. needsStep() and the
quiescence loop ignored it, so the node could stay where it was until some
unrelated event caused another step.
---
 src/exec/PlexilExec.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index e3eab5d..1843b9e 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -240,7 +240,7 @@ namespace PLEXIL
     //! \return True if the Exec needs to be stepped, false otherwise.
     virtual bool needsStep() const override
     {
-      return !m_candidateQueue.empty();
+      return !m_candidateQueue.empty() || pendingNodesNeedCheck();
     }
 
     //! \brief Run a single "macro step" i.e. the entire quiescence cycle.
@@ -377,7 +377,7 @@ namespace PLEXIL
              && m_assignmentsToRetract.empty()
              && m_commandsToExecute.empty()
              && m_commandsToAbort.empty()
-             && !m_candidateQueue.empty());
+             && needsStep());
       // END QUIESCENCE LOOP
 
       // Perform side effects
@@ -543,6 +543,17 @@ namespace PLEXIL
       }
     }      
 
+    //! \brief Has any node on the pending queue been notified since it was last checked?
+    //! \return True if so, false otherwise.
+    bool pendingNodesNeedCheck() const
+    {
+      for (Node const *n = m_pendingQueue.front(); n; n = n->next()) {
+        if (n->getQueueStatus() != QUEUE_PENDING)
+          return true;
+      }
+      return false;
+    }
+
     //! \brief Resolve resource conflicts among the best priority
     //! nodes on the pending queue.
     void resolveResourceConflicts()
-- 
2.43.0


From 21134722225f3cfaf1d1df0458625ddc50f7d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 006/119] fix: An Integer lookup with tolerance reports a value
 which becomes known again

As in the Real case, any known value is a change from an unknown one.
---
 src/intfc/Lookup.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 31a0504..210f672 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -660,7 +660,7 @@ namespace PLEXIL
   {
     Integer currentValue;
     if (value->getValue(currentValue))
-      return (currentValue >= m_high) || (currentValue <= m_low);
+      return !m_wasKnown || (currentValue >= m_high) || (currentValue <= m_low);
     // Current value is unknown
     return m_wasKnown; 
   }
-- 
2.43.0


From 21f2d8b66ed4af62c0a6fea4452c6a6dc1ed38e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 007/119] fix: Clear a lookup's thresholds while its value is
 unknown

Stale thresholds around the last known value were left with the interface,
which could then withhold the value when it became known again.
---
 src/intfc/Lookup.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 210f672..45531f3 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -546,16 +546,18 @@ namespace PLEXIL
     //! \param low Place to store the current low threshold.
     //! \note Default methods report an error.
     ///@{
-    virtual void getThresholds(Integer & /* high */, Integer & /* low */) const
+    virtual bool getThresholds(Integer & /* high */, Integer & /* low */) const
     {
       errorMsg("LookupOnChange:getThresholds: "
                "attempt to get Integer thresholds from non-Integer Lookup");
+      return false;
     }
 
-    virtual void getThresholds(Real & /* high */, Real & /* low */) const
+    virtual bool getThresholds(Real & /* high */, Real & /* low */) const
     {
       errorMsg("LookupOnChange:getThresholds: "
                "attempt to get Real thresholds from non-Real Lookup");
+      return false;
     }
     ///@}
 
@@ -638,10 +640,14 @@ namespace PLEXIL
       }
     }
 
-    virtual void getThresholds(NUM &high, NUM &low) const override
+    virtual bool getThresholds(NUM &high, NUM &low) const override
     {
+      // No thresholds apply while the value is unknown
+      if (!m_wasKnown)
+        return false;
       high = m_high;
       low = m_low;
+      return true;
     }
 
   private:
@@ -827,9 +833,8 @@ namespace PLEXIL
                     "getThresholds: calling Integer method on non-Integer lookup");
       debugMsg("LookupOnChange:getThresholds",
                ' ' << m_cachedState << ": thresholds are ["
-               << low << ", " << high << "], returning true");
-      m_thresholds->getThresholds(high, low);
-      return true;
+               << low << ", " << high << "]");
+      return m_thresholds->getThresholds(high, low);
     }
 
     virtual bool getThresholds(Real &high, Real &low) const override
@@ -846,7 +851,11 @@ namespace PLEXIL
       }
       assertTrueMsg(valueType() == REAL_TYPE,
                     "getThresholds: calling Real method on non-Real lookup");
-      m_thresholds->getThresholds(high, low);
+      if (!m_thresholds->getThresholds(high, low)) {
+        debugMsg("LookupOnChange:getThresholds",
+                 ' ' << m_cachedState << ": value is unknown, returning false");
+        return false;
+      }
       debugMsg("LookupOnChange:getThresholds",
                ' ' << m_cachedState << ": thresholds are ["
                << low << ", " << high << "], returning true");
-- 
2.43.0


From 5813a204b7ac3619528ca245aa86b36fec29345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 008/119] fix: Clear the thresholds of a state no lookup uses
 any more

The interface kept honouring them, and withheld changes from lookups made
later. Also, thresholds cannot be updated once the dispatcher is gone at
shutdown.
---
 src/intfc/StateCacheEntry.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/intfc/StateCacheEntry.cc b/src/intfc/StateCacheEntry.cc
index b94e5ba..8dfb098 100644
--- a/src/intfc/StateCacheEntry.cc
+++ b/src/intfc/StateCacheEntry.cc
@@ -133,9 +133,11 @@ namespace PLEXIL
         if (m_lowThreshold || m_highThreshold) {
           m_lowThreshold.reset();
           m_highThreshold.reset();
+          if (g_dispatcher) // may be gone already at shutdown
+            g_dispatcher->clearThresholds(state);
         }
       }
-      else if (m_lowThreshold || m_highThreshold) {
+      else if (g_dispatcher && (m_lowThreshold || m_highThreshold)) {
         // Check whether thresholds should be updated
         debugMsg("StateCacheEntry:unregisterLookup",
                  ' ' << state << " updating thresholds from remaining "
-- 
2.43.0


From 7dfbe6960c2b5197630c1359a702c0b440420e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 009/119] fix: Accept repeated notification of a pending node
 about to retry

A second change of the conditions of a node marked QUEUE_PENDING_TRY_CHECK was
reported as an invalid queue state.
---
 src/exec/NodeImpl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 87d8b75..642ef8f 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -606,6 +606,7 @@ namespace PLEXIL
       return;
 
     case QUEUE_PENDING_CHECK:     // already a candidate, silently ignore
+    case QUEUE_PENDING_TRY_CHECK: // ditto
       return;
 
     case QUEUE_TRANSITION_CHECK:  // already a candidate, silently ignore
-- 
2.43.0


From 1d6f1e474369196c8be08af502d5efaaddd30252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 010/119] fix: Check a pending node's conditions again before
 it starts

Pre-conditions cause no notification, so a node which had waited for a mutex
or variable could start although its pre-condition had become false.
---
 src/exec/PlexilExec.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index 1843b9e..e91be66 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -507,8 +507,9 @@ namespace PLEXIL
         }
         return false;
 
+      case QUEUE_PENDING_TRY:
       case QUEUE_PENDING_TRY_CHECK:
-        // Resource(s) were released,
+        // Newly added, or resource(s) were released,
         // but node may not be eligible to execute any more
         if (!node->getDestState()) {
           // No longer transitioning at all - remove from pending queue
@@ -526,10 +527,6 @@ namespace PLEXIL
         // give it a look
         return true;
 
-      case QUEUE_PENDING_TRY:
-        // Resource(s) were released, give it a look
-        return true;
-
       case QUEUE_PENDING:
         // no change, ignore
         return false;
-- 
2.43.0


From f0b238b422451f8fc08f24e2e5210a5a7336c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 011/119] fix: Clean up a plan's conditions before deleting any
 of its nodes

A condition may refer to the children of another list (NoChildFailed etc.).
Deleting these first left their state variables with listeners, which is an
assertion failure in a destructor and terminated the program when a finished
plan was deleted.
---
 src/exec/ListNode.cc | 21 ++++++++++++++-------
 src/exec/ListNode.hh |  6 +++---
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/exec/ListNode.cc b/src/exec/ListNode.cc
index 18629d6..f133e73 100644
--- a/src/exec/ListNode.cc
+++ b/src/exec/ListNode.cc
@@ -337,7 +337,10 @@ namespace PLEXIL
   {
     debugMsg("ListNode:~ListNode", " destructor for " << m_nodeId);
 
+    // Expressions may refer to nodes anywhere in this subtree,
+    // so clean them all up before deleting any of the nodes.
     cleanUpConditions();
+    cleanUpChildBodies();
 
     this->cleanUpNodeBody(); // LibraryCallNode wraps this ListNode method
   }
@@ -349,7 +352,8 @@ namespace PLEXIL
 
     debugMsg("ListNode:cleanUpConditions", " for " << m_nodeId);
 
-    cleanUpChildConditions();
+    for (NodeImplPtr &child : m_children)
+      child->cleanUpConditions();
 
     NodeImpl::cleanUpConditions();
   }
@@ -368,13 +372,16 @@ namespace PLEXIL
     m_cleanedBody = true;
   }
 
-  void ListNode::cleanUpChildConditions()
+  void ListNode::cleanUpChildBodies()
   {
-    debugMsg("ListNode:cleanUpChildConditions", " for " << m_nodeId);
-    for (NodeImplPtr &child : m_children)
-      child->cleanUpConditions();
-    for (NodeImplPtr &child : m_children)
-      child->cleanUpNodeBody();
+    debugMsg("ListNode:cleanUpChildBodies", " for " << m_nodeId);
+    for (NodeImplPtr &child : m_children) {
+      ListNode *list = dynamic_cast<ListNode *>(child.get());
+      if (list)
+        list->cleanUpChildBodies();
+      else
+        child->cleanUpNodeBody();
+    }
   }
 
   NodeImpl const *ListNode::findChild(char const *childName) const
diff --git a/src/exec/ListNode.hh b/src/exec/ListNode.hh
index 53c333b..b8b6fc7 100644
--- a/src/exec/ListNode.hh
+++ b/src/exec/ListNode.hh
@@ -176,9 +176,9 @@ namespace PLEXIL
 
   private:
 
-    //! \brief Clean up the conditions of any child nodes.
-    //! \note Internal function, called only from ListNode::cleanUpConditions().
-    void cleanUpChildConditions();
+    //! \brief Clean up the bodies of all descendants which have no children.
+    //! \note Internal function, called only from the destructor and itself.
+    void cleanUpChildBodies();
   };
 
 }
-- 
2.43.0


From 7a75fdeccf8c0ad7c01408ea62e8394abf6090e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 012/119] fix: Tell the interface when a change of tolerance
 changes the thresholds

---
 src/intfc/Lookup.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 45531f3..e78c76c 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1020,6 +1020,7 @@ namespace PLEXIL
                      ' ' << this->m_cachedState
                      << " tolerance changed, updating thresholds");
             m_thresholds->setThresholds(m_cachedValue.get(), m_tolerance);
+            m_entry->updateThresholds(m_cachedState);
           }
 
           // Has the (possibly updated) threshold been exceeded?
-- 
2.43.0


From 863a9165945ce22702db5ae7835bc42e8e3ac620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 013/119] fix: Release the mutexes of a node which finishes
 from EXECUTING or FAILING

They were released only when the node had never acquired them, so a node whose
parent exited or failed while it was executing kept its mutexes for good.
---
 src/exec/NodeImpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 642ef8f..b7f37e7 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -1377,8 +1377,8 @@ namespace PLEXIL
   // Wrapped by AssignmentNode
   void NodeImpl::transitionToFinished()
   {
-    // If transitioning from FAILING,, Release any mutexes held by this node
-    if (m_usingMutexes && m_state == WAITING_STATE) {
+    // If transitioning from EXECUTING or FAILING, release any mutexes held by this node
+    if (m_usingMutexes && (m_state == EXECUTING_STATE || m_state == FAILING_STATE)) {
       for (Mutex *m : *m_usingMutexes)
         m->release(this);
     }
-- 
2.43.0


From 2df0f450bd7cd43387c85767a868033e37a01d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 014/119] fix: A state queried in a step is not queried again
 when its value had not changed

---
 src/intfc/CachedValueImpl.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/intfc/CachedValueImpl.cc b/src/intfc/CachedValueImpl.cc
index 57fd294..a1f108e 100644
--- a/src/intfc/CachedValueImpl.cc
+++ b/src/intfc/CachedValueImpl.cc
@@ -537,10 +537,10 @@ namespace PLEXIL
   template <typename T>
   bool CachedValueImpl<T>::update(unsigned int timestamp, T const &val)
   {
+    this->m_timestamp = timestamp; // current, even if unchanged
     if (!m_known || m_value != val) {
       m_value = val;
       m_known = true;
-      this->m_timestamp = timestamp;
       debugMsg("CachedValue:update", " updated to " << val);
       return true;
     }
@@ -550,10 +550,10 @@ namespace PLEXIL
 
   bool CachedValueImpl<Integer>::update(unsigned int timestamp, Integer const &val)
   {
+    this->m_timestamp = timestamp; // current, even if unchanged
     if (!m_known || m_value != val) {
       m_value = val;
       m_known = true;
-      this->m_timestamp = timestamp;
       debugMsg("CachedValue:update", " updated to " << val);
       return true;
     }
@@ -564,10 +564,10 @@ namespace PLEXIL
   // Real is different for debug printing purposes.
   bool CachedValueImpl<Real>::update(unsigned int timestamp, Real const &val)
   {
+    this->m_timestamp = timestamp; // current, even if unchanged
     if (!m_known || m_value != val) {
       m_value = val;
       m_known = true;
-      this->m_timestamp = timestamp;
       debugMsg("CachedValue:update", " updated to " << std::setprecision(15) << val);
       return true;
     }
@@ -577,10 +577,10 @@ namespace PLEXIL
 
   bool CachedValueImpl<String>::update(unsigned int timestamp, String const &val)
   {
+    this->m_timestamp = timestamp; // current, even if unchanged
     if (!m_known || m_value != val) {
       m_value = val;
       m_known = true;
-      this->m_timestamp = timestamp;
       return true;
     }
     return false;
@@ -663,10 +663,10 @@ namespace PLEXIL
 
   bool CachedValueImpl<String>::updatePtr(unsigned int timestamp, std::string const *ptr)
   {
+    this->m_timestamp = timestamp; // current, even if unchanged
     if (!m_known || m_value != *ptr) {
       m_value = *ptr;
       m_known = true;
-      this->m_timestamp = timestamp;
       return true;
     }
     return false;
@@ -675,10 +675,10 @@ namespace PLEXIL
   template <typename T>
   bool CachedValueImpl<ArrayImpl<T> >::updatePtr(unsigned int timestamp, ArrayImpl<T> const *ptr)
   {
+    this->m_timestamp = timestamp; // current, even if unchanged
     if (!m_known || m_value != *ptr) {
       m_value = *ptr;
       m_known = true;
-      this->m_timestamp = timestamp;
       return true;
     }
     return false;
-- 
2.43.0


From a88490ffa59fb13b23d601474426c0774c68d84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 015/119] fix: notifyExec no longer deadlocks when the exec may
 run on the notifying thread

---
 src/app-framework/ExecApplication.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index d35c18c..a0ee12b 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -661,9 +661,10 @@ namespace PLEXIL
       // How to fix? Call command handlers from outside the mutex hold.
       if (!m_runExecInBkgndOnly && m_execMutex.try_lock()) {
         // Exec is idle, so run it
+        // (runExec() acquires the mutex itself)
+        m_execMutex.unlock();
         debugMsg("ExecApplication:notify", " exec was idle, stepping it");
         this->runExec();
-        m_execMutex.unlock();
       }
       else {
         // Some thread currently owns the exec. Could be this thread.
-- 
2.43.0


From 7a170b83adc8d6af2895279ac5c0419ba5547460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 016/119] fix: notifyAndWaitForCompletion returns only after
 its inputs have been processed

The waiter was released as soon as its queue mark was dequeued (any earlier
completion left the semaphore posted), before the exec had stepped; it also
spun, and concurrent callers could be given the same mark or see the last
mark go backwards.
---
 src/app-framework/ExecApplication.cc  | 64 +++++++++++++++++----------
 src/app-framework/InterfaceManager.hh |  3 +-
 2 files changed, 42 insertions(+), 25 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index a0ee12b..53d384e 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -55,6 +55,8 @@
 #include <unistd.h> // sleep()
 #endif
 
+#include <algorithm> // std::max()
+#include <condition_variable>
 #include <exception>
 #include <mutex>
 #include <thread>
@@ -211,17 +213,24 @@ namespace PLEXIL
     // Semaphore for notifying the Exec of external events
     ThreadSemaphore m_sem;
 
-    // Semaphore for notifyAndWaitForCompletion()
-    ThreadSemaphore m_markSem;
-
     // Semaphore for notifying external threads that the application is shut down
     ThreadSemaphore m_shutdownSem;
 
     // Semaphore for waiting on all plans to finish
     ThreadSemaphore m_allFinishedSem;
 
-    //! Last mark seen
+    //! Serializes access to the results which other threads wait for
+    std::mutex m_waitMutex;
+
+    //! Signaled when any of those results changes
+    std::condition_variable m_waitCond;
+
+    //! Last mark seen; guarded by m_execMutex
     unsigned int m_lastMark;
+
+    //! Last mark whose preceding inputs have been processed to
+    //! quiescence; guarded by m_waitMutex
+    unsigned int m_completedMark;
 #endif 
 
     //! Interfacing database and dispatcher
@@ -263,10 +272,12 @@ namespace PLEXIL
         m_workerThread(),
         m_execMutex(),
         m_sem(),
-        m_markSem(),
         m_shutdownSem(),
         m_allFinishedSem(),
+        m_waitMutex(),
+        m_waitCond(),
         m_lastMark(0),
+        m_completedMark(0),
 #endif
         m_configuration(makeAdapterConfiguration()),
         m_manager(new InterfaceManager(this, m_configuration.get())),
@@ -443,9 +454,6 @@ namespace PLEXIL
     {
       assertTrue_2(m_interfacesStarted,
                    "ExecApplication: Fatal error: step() called before startInterfaces()");
-#ifdef PLEXIL_WITH_THREADS
-      unsigned int oldMark = m_lastMark;
-#endif
       bool needsStep = false;
       bool allFinished = false;
       {
@@ -460,16 +468,16 @@ namespace PLEXIL
         m_exec->deleteFinishedPlans();
         allFinished = m_exec->allPlansFinished();
         needsStep = m_exec->needsStep();
+#ifdef PLEXIL_WITH_THREADS
+        if (!needsStep)
+          publishResults();
+#endif
       }
 #ifdef PLEXIL_WITH_THREADS
       if (m_planLoaded && allFinished) {
         debugMsg("ExecApplication:step", " All plans finished ");
         m_allFinishedSem.post();
       }
-      if (m_lastMark > oldMark) {
-        debugMsg("ExecApplication:step", " queue mark(s) processed");
-        m_markSem.post();
-      }
 #endif
       return needsStep;
     }
@@ -481,9 +489,6 @@ namespace PLEXIL
       assertTrue_2(m_interfacesStarted,
                    "ExecApplication: Fatal error: step() called before startInterfaces()");
 
-#ifdef PLEXIL_WITH_THREADS
-      unsigned int oldMark = m_lastMark;
-#endif
       bool allFinished = false;
       {
 #ifdef PLEXIL_WITH_THREADS
@@ -503,16 +508,15 @@ namespace PLEXIL
         m_exec->deleteFinishedPlans();
         allFinished = m_exec->allPlansFinished();
         debugMsg("ExecApplication:runExec", " Queue empty and exec quiescent");
+#ifdef PLEXIL_WITH_THREADS
+        publishResults();
+#endif
       }
 #ifdef PLEXIL_WITH_THREADS
       if (m_planLoaded && allFinished) {
         debugMsg("ExecApplication:runExec", " All plans finished ");
         m_allFinishedSem.post();
       }
-      if (m_lastMark > oldMark) {
-        debugMsg("ExecApplication:runExec", " queue mark(s) processed");
-        m_markSem.post();
-      }
 #endif
     }
 
@@ -689,10 +693,12 @@ namespace PLEXIL
       unsigned int sequence = m_manager->markQueue();
       notifyExec();
       debugMsg("ExecApplication:notifyAndWait", " waiting for mark #" << sequence);
-      do {
-        m_markSem.wait();
-        m_markSem.post(); // in case it's not our mark and we got there first
-      } while (m_lastMark < sequence);
+      {
+        std::unique_lock<std::mutex> guard(m_waitMutex);
+        m_waitCond.wait(guard,
+                        [this, sequence]() -> bool
+                        { return m_completedMark >= sequence; });
+      }
       debugMsg("ExecApplication:notifyAndWait", " proceeding");
 #else // !defined(PLEXIL_WITH_THREADS)
       warn("notifyAndWaitForCompletion: Threads not enabled");
@@ -821,7 +827,8 @@ namespace PLEXIL
     {
 #ifdef PLEXIL_WITH_THREADS
       debugMsg("ExecApplication:markProcessed", " sequence #" << sequence);
-      m_lastMark = sequence;
+      // Marks from different threads can be enqueued out of order
+      m_lastMark = std::max(m_lastMark, sequence);
 #endif
     }
 
@@ -832,6 +839,15 @@ namespace PLEXIL
     //
 
 #ifdef PLEXIL_WITH_THREADS
+    //! Tell the waiting threads which queue marks have been processed.
+    //! @note The caller must hold m_execMutex, and the exec must be quiescent.
+    void publishResults()
+    {
+      std::lock_guard<std::mutex> const guard(m_waitMutex);
+      m_completedMark = m_lastMark;
+      m_waitCond.notify_all();
+    }
+
     /**
      * @brief Spawns the worker thread which runs the exec's top level loop.
      * @return true if successful, false otherwise.
diff --git a/src/app-framework/InterfaceManager.hh b/src/app-framework/InterfaceManager.hh
index 69877f9..197f77d 100644
--- a/src/app-framework/InterfaceManager.hh
+++ b/src/app-framework/InterfaceManager.hh
@@ -28,6 +28,7 @@
 
 #include "AdapterExecInterface.hh"
 
+#include <atomic>
 #include <memory>
 
 // Forward reference
@@ -211,7 +212,7 @@ namespace PLEXIL
     std::unique_ptr<InputQueue> m_inputQueue;
 
     //! Index of last queue mark enqueued.
-    unsigned int m_markCount;
+    std::atomic<unsigned int> m_markCount;
   };
 
 }
-- 
2.43.0


From 2abd847efbeeb17cb4d43c38f5e9bae0921c932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 017/119] fix: The state cache's time entry exists before any
 thread asks for the time

addPlan() and the exec thread's first step both created it on demand: the
parsing thread could find the entry without a value and crash.
---
 src/intfc/StateCache.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/intfc/StateCache.cc b/src/intfc/StateCache.cc
index d0c8780..999bfd9 100644
--- a/src/intfc/StateCache.cc
+++ b/src/intfc/StateCache.cc
@@ -213,6 +213,9 @@ namespace PLEXIL
         m_timeEntry(nullptr),
         m_cycleCount(1)
     {
+      // Other threads ask for the current time when they parse a plan,
+      // so the entry must be in place and have a value before they can.
+      ensureTimeEntry();
     }
 
     //! \brief Get or construct a state cache entry for the given state.
-- 
2.43.0


From 5eaa7df1ba5fe5e2b968bb6d69598f1eec9eff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 018/119] fix: Listeners hear of a plan before the exec can
 start it

The plan was put in the input queue first, so a listener could be told of
its root node's transitions before it was told of the plan.
---
 src/app-framework/InterfaceManager.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/InterfaceManager.cc b/src/app-framework/InterfaceManager.cc
index b50aa1d..6b0db31 100644
--- a/src/app-framework/InterfaceManager.cc
+++ b/src/app-framework/InterfaceManager.cc
@@ -355,8 +355,10 @@ namespace PLEXIL
     assertTrue_1(entry);
 
     entry->initForAddPlan(root);
-    m_inputQueue->put(entry);
+    // Once the plan is in the queue the exec can start executing it,
+    // so tell the listeners about the plan first.
     m_application->listenerHub()->notifyOfAddPlan(planXml);
+    m_inputQueue->put(entry);
     debugMsg("InterfaceManager:handleAddPlan", " plan enqueued for loading");
   }
 
-- 
2.43.0


From ccd6121c0ff7f82455b0d8b58e953ff7519ec46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 019/119] fix: stop() sends its emergency signal to the exec
 thread only

The signal was sent to the process.  Its handler throws, so when any other
thread received it, the whole process was terminated.
---
 src/app-framework/ExecApplication.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index 53d384e..2638c99 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -613,10 +613,11 @@ namespace PLEXIL
         sleep(1);
 
         if (m_stop) {
-          // Exec thread failed to acknowledge stop - resort to stronger measures
-          status = kill(getpid(), SIGUSR2);
+          // Exec thread failed to acknowledge stop - resort to stronger measures.
+          // The signal handler throws, so only the exec thread may receive it.
+          status = pthread_kill(m_workerThread.native_handle(), SIGUSR2);
           if (status) {
-            warn("ExecApplication: kill failed, status = " << status);
+            warn("ExecApplication: pthread_kill failed, status = " << status);
             return; // not much else we can do
           }
           sleep(1);
-- 
2.43.0


From 107c7f1676dce809aa1b8a4479ed70d8741b443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 020/119] fix: waitForPlanFinished waits for every plan added
 before the call

Every completion left the semaphore posted, so a call made while a later plan
was queued or executing returned at once, and the notice of a plan which
finished before addPlan() had returned could be lost.  allPlansFinished()
also counts plans which are still in the queue.
---
 src/app-framework/ExecApplication.cc  | 52 ++++++++++++---------------
 src/app-framework/InterfaceManager.cc |  7 +++-
 src/app-framework/InterfaceManager.hh | 21 +++++++++++
 src/exec/PlexilExec.cc                |  2 +-
 4 files changed, 50 insertions(+), 32 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index 2638c99..5cc21dc 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -216,9 +216,6 @@ namespace PLEXIL
     // Semaphore for notifying external threads that the application is shut down
     ThreadSemaphore m_shutdownSem;
 
-    // Semaphore for waiting on all plans to finish
-    ThreadSemaphore m_allFinishedSem;
-
     //! Serializes access to the results which other threads wait for
     std::mutex m_waitMutex;
 
@@ -231,6 +228,10 @@ namespace PLEXIL
     //! Last mark whose preceding inputs have been processed to
     //! quiescence; guarded by m_waitMutex
     unsigned int m_completedMark;
+
+    //! Number of plans added when all plans were last seen to be
+    //! finished; guarded by m_waitMutex
+    unsigned int m_plansFinished;
 #endif 
 
     //! Interfacing database and dispatcher
@@ -254,9 +255,6 @@ namespace PLEXIL
     // True if interfaces have been started, false otherwise.
     bool m_interfacesStarted;
 
-    //! True if at least one plan has been loaded.
-    bool m_planLoaded;
-
     // Flag for halting the Exec thread
     bool m_stop;
 
@@ -273,11 +271,11 @@ namespace PLEXIL
         m_execMutex(),
         m_sem(),
         m_shutdownSem(),
-        m_allFinishedSem(),
         m_waitMutex(),
         m_waitCond(),
         m_lastMark(0),
         m_completedMark(0),
+        m_plansFinished(0),
 #endif
         m_configuration(makeAdapterConfiguration()),
         m_manager(new InterfaceManager(this, m_configuration.get())),
@@ -286,7 +284,6 @@ namespace PLEXIL
         m_runExecInBkgndOnly(true),
         m_initialized(false),
         m_interfacesStarted(false),
-        m_planLoaded(false),
         m_stop(false),
         m_suspended(false)
     {
@@ -455,7 +452,6 @@ namespace PLEXIL
       assertTrue_2(m_interfacesStarted,
                    "ExecApplication: Fatal error: step() called before startInterfaces()");
       bool needsStep = false;
-      bool allFinished = false;
       {
 #ifdef PLEXIL_WITH_THREADS
         ThreadMutexGuard guard(m_execMutex);
@@ -466,19 +462,12 @@ namespace PLEXIL
         m_exec->step(StateCache::queryTime());
         // Take care of any plans which have finished
         m_exec->deleteFinishedPlans();
-        allFinished = m_exec->allPlansFinished();
         needsStep = m_exec->needsStep();
 #ifdef PLEXIL_WITH_THREADS
         if (!needsStep)
           publishResults();
 #endif
       }
-#ifdef PLEXIL_WITH_THREADS
-      if (m_planLoaded && allFinished) {
-        debugMsg("ExecApplication:step", " All plans finished ");
-        m_allFinishedSem.post();
-      }
-#endif
       return needsStep;
     }
 
@@ -489,7 +478,6 @@ namespace PLEXIL
       assertTrue_2(m_interfacesStarted,
                    "ExecApplication: Fatal error: step() called before startInterfaces()");
 
-      bool allFinished = false;
       {
 #ifdef PLEXIL_WITH_THREADS
         ThreadMutexGuard guard(m_execMutex);
@@ -506,18 +494,11 @@ namespace PLEXIL
 
         // Clean up
         m_exec->deleteFinishedPlans();
-        allFinished = m_exec->allPlansFinished();
         debugMsg("ExecApplication:runExec", " Queue empty and exec quiescent");
 #ifdef PLEXIL_WITH_THREADS
         publishResults();
 #endif
       }
-#ifdef PLEXIL_WITH_THREADS
-      if (m_planLoaded && allFinished) {
-        debugMsg("ExecApplication:runExec", " All plans finished ");
-        m_allFinishedSem.post();
-      }
-#endif
     }
 
     //
@@ -713,9 +694,15 @@ namespace PLEXIL
     {
 #ifdef PLEXIL_WITH_THREADS
       debugMsg("ExecApplication:waitForPlanFinished", " waiting");
-      int waitStatus = m_allFinishedSem.wait();
-      checkError(!waitStatus,
-                 "waitForPlanFinished: semaphore wait returned error " << waitStatus);
+      {
+        std::unique_lock<std::mutex> guard(m_waitMutex);
+        m_waitCond.wait(guard,
+                        [this]() -> bool
+                        {
+                          return m_plansFinished > 0
+                            && m_plansFinished == m_manager->plansAdded();
+                        });
+      }
       debugMsg("ExecApplication:waitForPlanFinished", " proceeding");
 #else // !defined(PLEXIL_WITH_THREADS)
       warn("waitForPlanFinished: Threads not enabled");
@@ -727,7 +714,8 @@ namespace PLEXIL
 #ifdef PLEXIL_WITH_THREADS
       ThreadMutexGuard guard(m_execMutex);
 #endif    
-      return m_exec->allPlansFinished();
+      return m_manager->plansProcessed() == m_manager->plansAdded()
+        && m_exec->allPlansFinished();
     }
 
     /**
@@ -814,7 +802,6 @@ namespace PLEXIL
       try {
         m_manager->handleAddPlan(planXml->document_element());
         debugMsg("ExecApplication:addPlan", " successful");
-        m_planLoaded = true;
         return true;
       }
       catch (const ParserException& e) {
@@ -840,12 +827,17 @@ namespace PLEXIL
     //
 
 #ifdef PLEXIL_WITH_THREADS
-    //! Tell the waiting threads which queue marks have been processed.
+    //! Tell the waiting threads which queue marks have been processed,
+    //! and whether all plans have finished.
     //! @note The caller must hold m_execMutex, and the exec must be quiescent.
     void publishResults()
     {
       std::lock_guard<std::mutex> const guard(m_waitMutex);
       m_completedMark = m_lastMark;
+      if (m_exec->allPlansFinished()) {
+        debugMsg("ExecApplication:publishResults", " All plans finished ");
+        m_plansFinished = m_manager->plansProcessed();
+      }
       m_waitCond.notify_all();
     }
 
diff --git a/src/app-framework/InterfaceManager.cc b/src/app-framework/InterfaceManager.cc
index 6b0db31..8870bcc 100644
--- a/src/app-framework/InterfaceManager.cc
+++ b/src/app-framework/InterfaceManager.cc
@@ -67,7 +67,9 @@ namespace PLEXIL
       m_application(app),
       m_configuration(config),
       m_inputQueue(),
-      m_markCount(0)
+      m_markCount(0),
+      m_plansAdded(0),
+      m_plansProcessed(0)
   {
   }
 
@@ -355,6 +357,8 @@ namespace PLEXIL
     assertTrue_1(entry);
 
     entry->initForAddPlan(root);
+    ++m_plansAdded;
+
     // Once the plan is in the queue the exec can start executing it,
     // so tell the listeners about the plan first.
     m_application->listenerHub()->notifyOfAddPlan(planXml);
@@ -540,6 +544,7 @@ namespace PLEXIL
           g_exec->addPlan(pid);
         }
         entry->plan = nullptr;
+        ++m_plansProcessed;
         needsStep = true;
         break;
 
diff --git a/src/app-framework/InterfaceManager.hh b/src/app-framework/InterfaceManager.hh
index 197f77d..be337f1 100644
--- a/src/app-framework/InterfaceManager.hh
+++ b/src/app-framework/InterfaceManager.hh
@@ -89,6 +89,21 @@ namespace PLEXIL
     //! @return The sequence number of the mark.
     unsigned int markQueue();
 
+    //! Get the number of plans accepted for execution so far.
+    //! @return The count.
+    unsigned int plansAdded() const
+    {
+      return m_plansAdded;
+    }
+
+    //! Get the number of those plans which have been given to the Exec.
+    //! @return The count.
+    //! @note Should only be called with exec locked by the current thread.
+    unsigned int plansProcessed() const
+    {
+      return m_plansProcessed;
+    }
+
     //
     // API to interface handlers
     //
@@ -213,6 +228,12 @@ namespace PLEXIL
 
     //! Index of last queue mark enqueued.
     std::atomic<unsigned int> m_markCount;
+
+    //! Number of plans accepted for execution.
+    std::atomic<unsigned int> m_plansAdded;
+
+    //! Number of plans given to the Exec.
+    unsigned int m_plansProcessed;
   };
 
 }
diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index e91be66..e43ccb7 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -230,8 +230,8 @@ namespace PLEXIL
                  " deleting node " << node->getNodeId() << ' ' << node);
         m_plan.remove_if([node] (NodePtr const &n) -> bool
                          { return node == n.get(); });
+        m_finishedRootNodesDeleted = true;
       }
-      m_finishedRootNodesDeleted = true;
       debugMsg("PlexilExec:deleteFinishedPlans",
                " now " << m_plan.size() << " root nodes");
     }
-- 
2.43.0


From a442174dc41ad2fbfae8306ca0f0a43e51f1b97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 021/119] fix: ItimerTimebase::stop() discards an alarm which
 is already pending

An alarm raised just before stop() and not yet handled by any thread met the
default action and killed the process.
---
 src/app-framework/ItimerTimebase.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index a73eb1f..6b12466 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -142,6 +142,10 @@ namespace PLEXIL
       struct sigaction saction;
       sigemptyset(&saction.sa_mask);
       saction.sa_flags = 0;
+      // A signal which is already pending would now terminate the process.
+      // Ignoring it discards it.
+      saction.sa_handler = SIG_IGN;
+      sigaction(SIGALRM, &saction, nullptr);
       saction.sa_handler = SIG_DFL;
       if (sigaction(SIGALRM, &saction, nullptr)) {
         warn("ItimerTimebase::stop: sigaction failed, errno = "
-- 
2.43.0


From c35391c8e411f7e4d19c1409f3aae314215c3d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:55 +0000
Subject: [PATCH 022/119] fix: ItimerTimebase wakes the exec at or after the
 deadline, never before

A deadline was cut down to whole microseconds, so the exec could find the
time not yet reached and never be woken again; a deadline equal to the current
microsecond disarmed the timer.
---
 src/app-framework/ItimerTimebase.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index 6b12466..71bec6b 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -172,13 +172,19 @@ namespace PLEXIL
       // Convert the deadline to timeval and get the current time
       struct timeval deadline, now;
       deadline = doubleToTimeval(d);
+      if (timevalToDouble(deadline) < d) {
+        // Round up, to be sure that d has been reached when the timer expires
+        struct timeval const one_usec = {0, 1};
+        deadline = deadline + one_usec;
+      }
       checkInterfaceError(!gettimeofday(&now, nullptr),
                           "ItimerTimebase:setTimer: gettimeofday failed, errno = "
                           << errno << ":\n " << strerror(errno));
                           
       // Have we missed the deadline already?
-      if (deadline < now) {
-        // Already past the scheduled time
+      // An interval of 0 would disable the timer.
+      if (!(now < deadline)) {
+        // At or past the scheduled time
         debugMsg("ItimerTimebase:setTimer",
                  " new value " << std::fixed << std::setprecision(6) << d
                  << " is in past, calling wakeup function now");
-- 
2.43.0


From bc88ce7f31c99a109bc47e5c1bb00124fb724a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 023/119] fix: No alarm kills the process after
 ItimerTimebase::stop()

A handler still running in another thread could set the timer again, and the
alarm then met the default action.
---
 src/app-framework/ItimerTimebase.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index 71bec6b..b8e02c9 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -138,15 +138,13 @@ namespace PLEXIL
              << errno << ":\n " << strerror(errno));
       }
 
-      // Restore default signal handler
+      // Ignore the signal from now on.  The default action would terminate
+      // the process if an alarm is still pending, or if a handler which is
+      // running in another thread sets the timer again.
       struct sigaction saction;
       sigemptyset(&saction.sa_mask);
       saction.sa_flags = 0;
-      // A signal which is already pending would now terminate the process.
-      // Ignoring it discards it.
       saction.sa_handler = SIG_IGN;
-      sigaction(SIGALRM, &saction, nullptr);
-      saction.sa_handler = SIG_DFL;
       if (sigaction(SIGALRM, &saction, nullptr)) {
         warn("ItimerTimebase::stop: sigaction failed, errno = "
              << errno << ":\n " << strerror(errno));
-- 
2.43.0


From 89930e5bbeff39f12b5bc95475ffb221f025c0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 024/119] fix: PosixTimebase: a wakeup in progress no longer
 uses a timer stop() has deleted

The exception thrown for the failing timer_settime() ended the process.  The
timebase can also be started again after it was stopped.
---
 src/app-framework/PosixTimebase.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/app-framework/PosixTimebase.cc b/src/app-framework/PosixTimebase.cc
index 833bbac..97e9fd9 100644
--- a/src/app-framework/PosixTimebase.cc
+++ b/src/app-framework/PosixTimebase.cc
@@ -34,6 +34,7 @@
 
 #include <csignal>
 #include <ctime>
+#include <mutex>
 
 namespace PLEXIL
 {
@@ -51,6 +52,7 @@ namespace PLEXIL
     //! \param arg The parameter passed to the timer wakeup function.
     PosixTimebase(WakeupFn const &fn)
       : Timebase(fn),
+        m_timerMutex(),
         m_timer()
     {
       debugMsg("PosixTimebase", " constructor");
@@ -87,7 +89,6 @@ namespace PLEXIL
         return;
       }
 
-      m_started = true;
       debugMsg("PosixTimebase:start", " entered");
 
       // Construct the timer
@@ -102,6 +103,7 @@ namespace PLEXIL
                                         &m_timer),
                           "PosixTimebase: timer_create failed, errno = "
                           << errno << ":\n " << strerror(errno));
+      m_started = true;
 
       if (!m_interval_usec) {
         debugMsg("PosixTimebase:start", " deadline mode");
@@ -136,12 +138,14 @@ namespace PLEXIL
 
     virtual void stop()
     {
+      std::lock_guard<std::mutex> const guard(m_timerMutex);
       if (!m_started) {
         debugMsg("PosixTimebase:stop", " not running, ignored");
         return;
       }
 
       debugMsg("PosixTimebase:stop", " entered");
+      m_started = false;
 
       // Whether tick or deadline, disable the timer
       struct itimerspec tymrSpec = {{0, 0}, {0, 0}};
@@ -191,6 +195,14 @@ namespace PLEXIL
         return;
       }
 
+      // A wakeup which is still in progress can get here after stop()
+      // has deleted the timer.
+      std::lock_guard<std::mutex> const guard(m_timerMutex);
+      if (!m_started) {
+        debugMsg("PosixTimebase:setTimer", " not running, ignoring");
+        return;
+      }
+
       // Set the timer for the deadline
       checkInterfaceError(!timer_settime(m_timer,
                                          TIMER_ABSTIME, // flags
@@ -212,7 +224,8 @@ namespace PLEXIL
     // Member variables
     //
 
-    timer_t  m_timer;  //!< The timer.
+    std::mutex m_timerMutex;  //!< Serializes use of the timer with stop().
+    timer_t    m_timer;       //!< The timer.
   };
 
   void registerPosixTimebase()
-- 
2.43.0


From a21fd4fde8cce7cc62937d454a3c5b3bc32f15c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 025/119] fix: A timer wakeup no longer replaces the deadline
 the exec is setting

A wakeup which found that it was early set the timer again to the deadline it
had read, and could so overwrite one set by the exec in the meantime.  The
exec then waited forever.
---
 src/app-framework/TimeAdapter.cc | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/app-framework/TimeAdapter.cc b/src/app-framework/TimeAdapter.cc
index 26e8d30..4e13e55 100644
--- a/src/app-framework/TimeAdapter.cc
+++ b/src/app-framework/TimeAdapter.cc
@@ -42,6 +42,7 @@
 
 #include <iomanip> // std::setprecision()
 #include <memory>  // std::unique_ptr<>
+#include <mutex>
 
 //
 // TODO: Document!!
@@ -65,8 +66,10 @@ namespace PLEXIL
 
     //! \brief Primary constructor.
     //! \param Pointer to a Timebase instance.
-    TimeLookupHandler(Timebase *timebase)
-      : m_timebase(timebase)
+    //! \param Reference to the mutex which serializes setting its timer.
+    TimeLookupHandler(Timebase *timebase, std::recursive_mutex &mtx)
+      : m_timebase(timebase),
+        m_timerMutex(mtx)
     {
     }
     
@@ -97,6 +100,7 @@ namespace PLEXIL
     {
       debugMsg("TimeLookupHandler:setThresholds",
                " requesting wakeup at " << std::setprecision(15) << hi);
+      std::lock_guard<std::recursive_mutex> const guard(m_timerMutex);
       m_timebase->setTimer(hi);
     }
 
@@ -107,6 +111,7 @@ namespace PLEXIL
     //
 
     Timebase *m_timebase;
+    std::recursive_mutex &m_timerMutex;
   };
 
   //! \class TimeAdapter
@@ -120,6 +125,7 @@ namespace PLEXIL
     //! \param conf Pointer to this instance's configuration data.
     TimeAdapter(AdapterExecInterface &intf, AdapterConf *conf)
       : InterfaceAdapter(intf, conf),
+        m_timerMutex(),
         m_timebase()
     {
     }
@@ -136,7 +142,7 @@ namespace PLEXIL
       // Construct Timebase
       pugi::xml_node const tb_xml = getXml().child(InterfaceSchema::TIMEBASE_TAG);
       m_timebase.reset(makeTimebase(tb_xml, [this]() -> void { timeout(this); }));
-      config->registerLookupHandler(std::make_shared<TimeLookupHandler>(m_timebase.get()),
+      config->registerLookupHandler(std::make_shared<TimeLookupHandler>(m_timebase.get(), m_timerMutex),
                                     "time");
       return true;
     }
@@ -189,11 +195,15 @@ namespace PLEXIL
       debugMsg("TimeAdapter:timeout", " at " << std::setprecision(15) << now);
 
       // Check if timer went off too soon.
-      double next = tb->getNextWakeup();
-      if (next && now < next) {
-        // Alarm went off too early. Hit the snooze button.
-        debugMsg("TimeAdapter:timeout", " early wakeup, resetting");
-        tb->setTimer(next); // possibility of reentrant call to this function
+      {
+        // The exec may be setting the timer; don't undo what it does.
+        std::lock_guard<std::recursive_mutex> const guard(adpt->m_timerMutex);
+        double next = tb->getNextWakeup();
+        if (next && now < next) {
+          // Alarm went off too early. Hit the snooze button.
+          debugMsg("TimeAdapter:timeout", " early wakeup, resetting");
+          tb->setTimer(next); // possibility of reentrant call to this function
+        }
       }
 
       // Notify in any case
@@ -204,6 +214,9 @@ namespace PLEXIL
     // Member variables
     //
 
+    //! Held while the timer is set, which the exec and the timer's own
+    //! wakeups may do at the same time.  A wakeup can happen inside setTimer().
+    std::recursive_mutex m_timerMutex;
     std::unique_ptr<Timebase> m_timebase;
   };
 
-- 
2.43.0


From 3712aa6371d2ade585a043f6c57eb0312a429bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:37 +0000
Subject: [PATCH 026/119] fix: A wakeup which arrives after stop() is ignored
 also when the exec runs opportunistically

The notifying thread, e.g. that of a timer which had expired just before,
failed an assertion, which ended the process.
---
 src/app-framework/ExecApplication.cc | 65 ++++++++++++++++------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index 5cc21dc..d6e87a8 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -478,27 +478,10 @@ namespace PLEXIL
       assertTrue_2(m_interfacesStarted,
                    "ExecApplication: Fatal error: step() called before startInterfaces()");
 
-      {
 #ifdef PLEXIL_WITH_THREADS
-        ThreadMutexGuard guard(m_execMutex);
-#endif
-        debugMsg("ExecApplication:runExec", " Processing queue");
-        m_manager->processQueue();
-        do {
-          do {
-            debugMsg("ExecApplication:runExec", " Stepping exec");
-            m_exec->step(StateCache::queryTime());
-          } while (m_exec->needsStep());
-          debugMsg("ExecApplication:runExec", " Processing queue");
-        } while (m_manager->processQueue());
-
-        // Clean up
-        m_exec->deleteFinishedPlans();
-        debugMsg("ExecApplication:runExec", " Queue empty and exec quiescent");
-#ifdef PLEXIL_WITH_THREADS
-        publishResults();
+      ThreadMutexGuard guard(m_execMutex);
 #endif
-      }
+      runExecInternal();
     }
 
     //
@@ -613,8 +596,13 @@ namespace PLEXIL
       m_configuration->stop();
       m_listener->stop();
 
-      m_interfacesStarted = false;
-      m_initialized = false;
+      {
+#ifdef PLEXIL_WITH_THREADS
+        ThreadMutexGuard guard(m_execMutex);
+#endif
+        m_interfacesStarted = false;
+        m_initialized = false;
+      }
 
 #ifdef PLEXIL_WITH_THREADS
       // Tell anyone waiting that we're finished
@@ -645,12 +633,13 @@ namespace PLEXIL
 #ifdef PLEXIL_WITH_THREADS
       // FIXME: Don't run if called from thread holding mutex - undefined behavior
       // How to fix? Call command handlers from outside the mutex hold.
-      if (!m_runExecInBkgndOnly && m_execMutex.try_lock()) {
-        // Exec is idle, so run it
-        // (runExec() acquires the mutex itself)
-        m_execMutex.unlock();
-        debugMsg("ExecApplication:notify", " exec was idle, stepping it");
-        this->runExec();
+      std::unique_lock<std::mutex> guard(m_execMutex, std::defer_lock);
+      if (!m_runExecInBkgndOnly && guard.try_lock()) {
+        // Exec is idle, so run it, unless stop() has finished
+        if (m_interfacesStarted) {
+          debugMsg("ExecApplication:notify", " exec was idle, stepping it");
+          runExecInternal();
+        }
       }
       else {
         // Some thread currently owns the exec. Could be this thread.
@@ -826,6 +815,28 @@ namespace PLEXIL
     // Implementation methods
     //
 
+    //! Run the exec until the queue is empty and the plan state is quiescent.
+    //! @note The caller must hold m_execMutex.
+    void runExecInternal()
+    {
+      debugMsg("ExecApplication:runExec", " Processing queue");
+      m_manager->processQueue();
+      do {
+        do {
+          debugMsg("ExecApplication:runExec", " Stepping exec");
+          m_exec->step(StateCache::queryTime());
+        } while (m_exec->needsStep());
+        debugMsg("ExecApplication:runExec", " Processing queue");
+      } while (m_manager->processQueue());
+
+      // Clean up
+      m_exec->deleteFinishedPlans();
+      debugMsg("ExecApplication:runExec", " Queue empty and exec quiescent");
+#ifdef PLEXIL_WITH_THREADS
+      publishResults();
+#endif
+    }
+
 #ifdef PLEXIL_WITH_THREADS
     //! Tell the waiting threads which queue marks have been processed,
     //! and whether all plans have finished.
-- 
2.43.0


From 8f364e647813f59e853113fe431dd6a9c25cab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:18 +0000
Subject: [PATCH 027/119] fix: SerializedInputQueue::flush() no longer
 deadlocks

It called release(), which locks the mutex flush() already holds.
---
 src/app-framework/SerializedInputQueue.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/SerializedInputQueue.cc b/src/app-framework/SerializedInputQueue.cc
index 239a8a6..ab21cbb 100644
--- a/src/app-framework/SerializedInputQueue.cc
+++ b/src/app-framework/SerializedInputQueue.cc
@@ -131,7 +131,10 @@ namespace PLEXIL
     QueueEntry *temp;
     while ((temp = m_queueGet)) {
       m_queueGet = temp->next;
-      release(temp);
+      // release() would lock the mutex again
+      temp->reset();
+      temp->next = m_freeList;
+      m_freeList = temp;
     }
     m_queuePut = nullptr;
   }
-- 
2.43.0


From c49e0b3b7934642b6e0fcd6031986bd26f84cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:37 +0000
Subject: [PATCH 028/119] fix: ItimerTimebase can be started again after it was
 stopped

stop() left it marked as started, so start() did nothing, and no timer signal
was handled any more.
---
 src/app-framework/ItimerTimebase.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index b8e02c9..8bd3dfc 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -130,6 +130,7 @@ namespace PLEXIL
       }
 
       debugMsg("ItimerTimebase:stop", " entered");
+      m_started = false;
 
       // Disable the timer
       struct itimerval tymrVal = {{0, 0}, {0, 0}};
@@ -155,8 +156,11 @@ namespace PLEXIL
 
     virtual void setTimer(double d)
     {
-      checkInterfaceError(m_started,
-                          "ItimerTimebase: setTimer() called when inactive");
+      // A wakeup which is still in progress can get here after stop().
+      if (!m_started) {
+        debugMsg("ItimerTimebase:setTimer", " not running, ignoring");
+        return;
+      }
 
       if (m_interval_usec) {
         debugMsg("ItimerTimebase:setTimer", " tick mode, ignoring");
-- 
2.43.0


From 9e1237871bc4668d6b3b5cb634cd4d146fb143ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:59 +0000
Subject: [PATCH 029/119] fix: A change lookup notifies when its tolerance
 becomes unknown

---
 src/intfc/Lookup.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index e78c76c..9c70094 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1051,7 +1051,7 @@ namespace PLEXIL
           m_cachedValue.reset();
           // Tell the cache entry about it
           m_entry->updateThresholds(m_cachedState);
-          return valueChanged; // ??
+          return true; // the current value, no longer the cached one, is now visible
         }
       }
       else if (this->m_entry && this->m_entry->isKnown() && m_tolerance->isKnown()) {
-- 
2.43.0


From e26bee5781345eefdac42fddd468870508c289e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:34 +0000
Subject: [PATCH 030/119] fix: UdpAdapter sends messages whose first parameter
 is not a string

---
 src/interfaces/UdpAdapter/UdpAdapter.cc | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index 3818609..47b4324 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -248,13 +248,6 @@ namespace PLEXIL
         return;
       }
       
-      if (args[0].valueType() != STRING_TYPE) {
-        warn("UdpAdapter:executeDefaultCommand: message name must be a string");
-        intf->handleCommandAck(cmd, COMMAND_FAILED);
-        intf->notifyOfExternalEvent();
-        return;
-      }
-      
       std::string const &msgName = cmd->getName();
       debugMsg("UdpAdapter:executeDefaultCommand",
                " called for \"" << msgName << "\" with " << args.size() << " args");
-- 
2.43.0


From 78939d52dbb002466354256cdcbe17dd36b15a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:38 +0000
Subject: [PATCH 031/119] fix: UdpAdapter ignores datagrams too short for their
 message

---
 src/interfaces/UdpAdapter/UdpAdapter.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index 47b4324..da6bcb2 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -819,6 +819,13 @@ namespace PLEXIL
                          const unsigned char* buffer,
                          size_t length)
     {
+      if (length < msgDef.len) {
+        // The rest of the buffer was not received with this datagram
+        warn("handleUdpMessage: datagram for \"" << msgDef.name << "\" has " << length
+             << " bytes, expected " << msgDef.len << ", ignored");
+        return -1;
+      }
+
       // Handle a UDP message once it has indeed arrived.
       // msgDef is passed in, therefore, we will assume it is good.
       debugMsg("UdpAdapter:handleUdpMessage", " called for " << msgDef.name);
-- 
2.43.0


From 3dca7c6b235735695f49b5b0d877645c52f1e6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 032/119] fix: UdpEventLoop goes on after a signal interrupts
 poll()

---
 src/interfaces/UdpAdapter/UdpEventLoop.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/interfaces/UdpAdapter/UdpEventLoop.cc b/src/interfaces/UdpAdapter/UdpEventLoop.cc
index d91d0ef..c2ce880 100644
--- a/src/interfaces/UdpAdapter/UdpEventLoop.cc
+++ b/src/interfaces/UdpAdapter/UdpEventLoop.cc
@@ -362,6 +362,8 @@ namespace PLEXIL
       do {
         int nReady = poll(pollfds.data(), pollfds.size(), -1);
         if (nReady < 0) {
+          if (errno == EINTR)
+            continue; // interrupted by a signal, nothing is wrong
           warn("UdpEventLoop: poll() failed: " << strerror(errno));
           break;
         }
-- 
2.43.0


From 8a8913112b5f8e4391c42265a776361e37fb4e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 033/119] fix: UdpAdapter receives all messages of a port on
 one socket

---
 src/interfaces/UdpAdapter/UdpAdapter.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index da6bcb2..a29ed16 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -559,7 +559,11 @@ namespace PLEXIL
         abortCommand(cmd, intf, false);
         return;
       }
-      m_eventLoop->closeListener(msg.local_port);
+      auto const open = m_listening.find(msg.local_port);
+      if (open != m_listening.end() && open->second == msgName) {
+        m_eventLoop->closeListener(msg.local_port);
+        m_listening.erase(open);
+      }
 
       debugMsg("UdpAdapter:abortCommand", " ReceiveCommand(\"" << msgName << "\") complete");
 
@@ -797,6 +801,16 @@ namespace PLEXIL
       }
 
       // Hand off to the event loop
+      auto const open = m_listening.find(msg.local_port);
+      if (open != m_listening.end()) {
+        // A second socket on this port would take the datagrams away from the first
+        if (open->second == name)
+          return 0;
+        warn("UdpAdapter:startUdpMessageReceiver: port " << msg.local_port
+             << " is already used to receive " << open->second);
+        return -1;
+      }
+
       if (!m_eventLoop->openListener(msg.local_port,
                                      msg.len,
                                      [this, &msg](in_port_t port,
@@ -810,6 +824,7 @@ namespace PLEXIL
         warn("UdpAdapter:startUdpMessageReceiver: openListener() failed for " << name);
         return -1;
       }
+      m_listening[msg.local_port] = name;
       debugMsg("UdpAdapter:startUdpMessageReceiver",
                  " " << name << " listener started");
       return 0;
@@ -1345,6 +1360,7 @@ namespace PLEXIL
     // Somewhere to hang the messages, default ports and peers, threads and sockets
     std::string m_default_peer;
     MessageMap m_messages;
+    std::map<unsigned int, std::string> m_listening; // local port -> message received on it
     MessageQueueMap m_messageQueues;
     unsigned int m_default_local_port;
     unsigned int m_default_peer_port;
-- 
2.43.0


From 480a7927e83503af9757abccefafcf8632188787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:24 +0000
Subject: [PATCH 034/119] fix: UdpAdapter reports a message which could not be
 sent as failed

---
 src/interfaces/UdpAdapter/UdpAdapter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index a29ed16..ea85c54 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -281,7 +281,7 @@ namespace PLEXIL
       // Clean up some (one hopes)
       delete[] udp_buffer;
       // Do the internal Plexil Boiler Plate (as per example in IpcAdapter.cc)
-      intf->handleCommandAck(cmd, COMMAND_SUCCESS);
+      intf->handleCommandAck(cmd, status < 0 ? COMMAND_FAILED : COMMAND_SUCCESS);
       intf->notifyOfExternalEvent();
     }
 
-- 
2.43.0


From 070776e6ebb9b46c7456caa6e99017d0ebcefff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:24 +0000
Subject: [PATCH 035/119] fix: send_message_connect closes its socket when it
 cannot connect

---
 src/interfaces/UdpAdapter/udp-utils.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interfaces/UdpAdapter/udp-utils.cc b/src/interfaces/UdpAdapter/udp-utils.cc
index 505765b..ef77b86 100644
--- a/src/interfaces/UdpAdapter/udp-utils.cc
+++ b/src/interfaces/UdpAdapter/udp-utils.cc
@@ -221,6 +221,7 @@ namespace PLEXIL
     int connect_err = connect(sock, (struct sockaddr *)&peer_addr, sizeof(peer_addr));
     if (connect_err < 0) {
       perror("connect() returned -1");
+      close(sock);
       return -1;
     }
 
-- 
2.43.0


From 9b2d35d05079c5a88b9308c1a2a242df8032b9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:59 +0000
Subject: [PATCH 036/119] fix: UdpEventLoop delivers empty datagrams

---
 src/interfaces/UdpAdapter/UdpEventLoop.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/interfaces/UdpAdapter/UdpEventLoop.cc b/src/interfaces/UdpAdapter/UdpEventLoop.cc
index c2ce880..2f180e1 100644
--- a/src/interfaces/UdpAdapter/UdpEventLoop.cc
+++ b/src/interfaces/UdpAdapter/UdpEventLoop.cc
@@ -556,10 +556,7 @@ namespace PLEXIL
       if (nbytes < 0) {
         warn("UdpEventLoop: recvfrom() failed on port " << listener->port << ": " << strerror(errno));
       }
-      else if (!nbytes) {
-        warn("UdpEventLoop: socket closed unexpectedly on port " << listener->port);
-      }
-      else {
+      else { // n.b. a datagram may be empty
         (listener->func)(listener->port, listener->buffer.get(), (size_t) nbytes,
                          reinterpret_cast<const struct sockaddr *>(listener->addrBuf.get()),
                          listener->addrSizeBuf);
-- 
2.43.0


From 0aca46afa9a65ed299b58d73fc2d95aa27eee0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 037/119] fix: MessageQueueMap pairs messages and recipients
 under its lock

---
 src/interfaces/UdpAdapter/MessageQueueMap.cc | 88 +++++++++++---------
 src/interfaces/UdpAdapter/MessageQueueMap.hh | 11 +--
 2 files changed, 51 insertions(+), 48 deletions(-)

diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.cc b/src/interfaces/UdpAdapter/MessageQueueMap.cc
index 225b82a..9bd04f0 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.cc
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.cc
@@ -59,10 +59,16 @@ namespace PLEXIL
    */
   void MessageQueueMap::addRecipient(const std::string& message, Command *cmd) {
     debugMsg("MessageQueueMap:addRecipient", ' ' << this << " for \"" << message << "\"");
-    PairingQueue* que = ensureQueue(message);
-    que->m_recipientQueue.push(cmd);
-    updateQueue(que);
-    debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << que->m_name << '"');
+    bool paired = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* que = ensureQueue(message);
+      que->m_recipientQueue.push(cmd);
+      paired = updateQueue(que);
+    }
+    if (paired)
+      m_execInterface.notifyOfExternalEvent();
+    debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << message << '"');
   }
 
   /**
@@ -72,13 +78,19 @@ namespace PLEXIL
    */
   void MessageQueueMap::addMessage(const std::string& message) {
     debugMsg("MessageQueueMap:addMessage", ' ' << this << " entered for \"" << message << "\"");
-    PairingQueue* pq = ensureQueue(message);
-    if (!m_allowDuplicateMessages)
-      while (!pq->m_messageQueue.empty())
-        pq->m_messageQueue.pop();
-    pq->m_messageQueue.emplace(Value(message));
-    updateQueue(pq);
-    debugMsg("MessageQueueMap:addMessage", ' ' << this << " Message \"" << pq->m_name << "\" added");
+    bool paired = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* pq = ensureQueue(message);
+      if (!m_allowDuplicateMessages)
+        while (!pq->m_messageQueue.empty())
+          pq->m_messageQueue.pop();
+      pq->m_messageQueue.emplace(Value(message));
+      paired = updateQueue(pq);
+    }
+    if (paired)
+      m_execInterface.notifyOfExternalEvent();
+    debugMsg("MessageQueueMap:addMessage", ' ' << this << " Message \"" << message << "\" added");
   }
 
   /**
@@ -90,14 +102,20 @@ namespace PLEXIL
    */
   void MessageQueueMap::addMessage(const std::string& message, const Value& param) {
     debugMsg("MessageQueueMap:addMessage", ' ' << this << " entered for \"" << message << "\"");
-    PairingQueue* pq = ensureQueue(message);
-    if (!m_allowDuplicateMessages)
-      while (!pq->m_messageQueue.empty())
-        pq->m_messageQueue.pop();
-    pq->m_messageQueue.emplace(param);
-    updateQueue(pq);
+    bool paired = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* pq = ensureQueue(message);
+      if (!m_allowDuplicateMessages)
+        while (!pq->m_messageQueue.empty())
+          pq->m_messageQueue.pop();
+      pq->m_messageQueue.emplace(param);
+      paired = updateQueue(pq);
+    }
+    if (paired)
+      m_execInterface.notifyOfExternalEvent();
     debugMsg("MessageQueueMap:addMessage",
-             ' ' << this << " Message \"" << pq->m_name << "\" added, value = \"" << param << '"');
+             ' ' << this << " Message \"" << message << "\" added, value = \"" << param << '"');
   }
 
   /**
@@ -117,37 +135,25 @@ namespace PLEXIL
     m_allowDuplicateMessages = flag;
   }
 
-  //! @brief Get the PairingQueue for this message, if it exists.
-  MessageQueueMap::PairingQueue* MessageQueueMap::getQueue(const std::string& message)
-  {
-    std::lock_guard<std::mutex> guard(m_mutex);
-    QueueMap::iterator it = m_map.find(message);
-    if (m_map.end() != it)
-      return it->second.get();
-    return nullptr;
-  }
-
   //! @brief Get or construct the PairingQueue for this message.
+  //! @note Caller must hold m_mutex.
   MessageQueueMap::PairingQueue * MessageQueueMap::ensureQueue(const std::string& message)
   {
-    PairingQueue* result = nullptr;
-    {
-      std::lock_guard<std::mutex> guard(m_mutex);
-      QueueMap::iterator it = m_map.find(message);
-      if (m_map.end() == it) {
-        it = m_map.emplace(QueueMap::value_type(message,
-                                                std::unique_ptr<PairingQueue>(new PairingQueue(message)))).first;
-      }
-      return it->second.get();
+    QueueMap::iterator it = m_map.find(message);
+    if (m_map.end() == it) {
+      it = m_map.emplace(QueueMap::value_type(message,
+                                              std::unique_ptr<PairingQueue>(new PairingQueue(message)))).first;
+      debugMsg("MessageQueueMap:ensureQueue", " created new queue with name \"" << message << '"');
     }
-    debugMsg("MessageQueueMap:ensureQueue", " created new queue with name \"" << message << '"');
-    return result;
+    return it->second.get();
   }
 
   /**
    * @brief Resolves matches between messages and recipients. Should be called whenever updates occur to a queue.
+   * @return True if any were found. The caller should then notify the Exec.
+   * @note Caller must hold m_mutex.
    */
-  void MessageQueueMap::updateQueue(PairingQueue* queue)
+  bool MessageQueueMap::updateQueue(PairingQueue* queue)
   {
     debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name << " entered");
     MessageQueue& mq = queue->m_messageQueue;
@@ -164,8 +170,8 @@ namespace PLEXIL
     }
     if (valChanged) {
       debugMsg("MessageQueueMap:updateQueue", " Message \"" << queue->m_name << "\" paired and sent");
-      m_execInterface.notifyOfExternalEvent();
     }
+    return valChanged;
   }
 
 }
diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.hh b/src/interfaces/UdpAdapter/MessageQueueMap.hh
index d38df4d..5603a6d 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.hh
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.hh
@@ -119,21 +119,18 @@ namespace PLEXIL
       ~PairingQueue() {}
     };
 
-    /**
-     * @brief Private function that returns the queue for the given message, if it exists.
-     */
-    PairingQueue* getQueue(const std::string& message);
-
     /**
      * @brief Private function that returns the queue for the given message. Creates a new queue
-     * if one does not already exist.
+     * if one does not already exist. Caller must hold m_mutex.
      */
     PairingQueue* ensureQueue(const std::string& message);
 
     /**
      * @brief Resolves matches between messages and recipients. Should be called whenever updates occur to a queue.
+     * Caller must hold m_mutex.
+     * @return True if any were found. The caller should then notify the Exec.
      */
-    void updateQueue(PairingQueue* queue);
+    bool updateQueue(PairingQueue* queue);
 
     //* @brief Map holding all message queues
     using QueueMap = std::map<std::string, std::unique_ptr<PairingQueue>>;
-- 
2.43.0


From 1443076c4c9a1d1f3e93342a27d5a20dbcc08083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 038/119] fix: A ReceiveCommand which failed takes no message

---
 src/interfaces/UdpAdapter/UdpAdapter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index ea85c54..3efc38f 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -316,7 +316,6 @@ namespace PLEXIL
 
       debugMsg("UdpAdapter:executeReceiveCommandCommand", " called for " << msgName);
       std::string command = formatMessageName(msgName, RECEIVE_COMMAND_COMMAND);
-      m_messageQueues.addRecipient(command, cmd);
       // Set up the thread on which the message may/will eventually be received
       int status = startUdpMessageReceiver(msgName, cmd);
       if (status) {
@@ -324,6 +323,7 @@ namespace PLEXIL
         intf->handleCommandAck(cmd, COMMAND_FAILED);
       }
       else {
+        m_messageQueues.addRecipient(command, cmd);
         debugMsg("UdpAdapter:executeReceiveCommandCommand",
                  " message handler for \"" << command << "\" registered");
         intf->handleCommandAck(cmd, COMMAND_SENT_TO_SYSTEM);
-- 
2.43.0


From d92a10e8cdfd55bcd9f0e9a12cee27f3ff17442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 039/119] fix: Aborted ReceiveCommand and GetParameter commands
 take no message

---
 src/interfaces/UdpAdapter/MessageQueueMap.cc | 27 ++++++++++++++++++--
 src/interfaces/UdpAdapter/MessageQueueMap.hh | 15 ++++++++++-
 src/interfaces/UdpAdapter/UdpAdapter.cc      | 11 ++++++--
 3 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.cc b/src/interfaces/UdpAdapter/MessageQueueMap.cc
index 9bd04f0..fa924e3 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.cc
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.cc
@@ -63,7 +63,7 @@ namespace PLEXIL
     {
       std::lock_guard<std::mutex> guard(m_mutex);
       PairingQueue* que = ensureQueue(message);
-      que->m_recipientQueue.push(cmd);
+      que->m_recipientQueue.push_back(cmd);
       paired = updateQueue(que);
     }
     if (paired)
@@ -71,6 +71,29 @@ namespace PLEXIL
     debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << message << '"');
   }
 
+  /**
+   * @brief Removes the given recipient, if it is still waiting, e.g. because it was aborted.
+   * @param cmd The command instance
+   * @note Always executed from the Exec thread.
+   */
+  void MessageQueueMap::removeRecipient(Command *cmd) {
+    std::lock_guard<std::mutex> guard(m_mutex);
+    for (QueueMap::value_type &entry : m_map)
+      entry.second->m_recipientQueue.remove(cmd);
+  }
+
+  /**
+   * @brief Is any recipient waiting for the given message?
+   * @param message The message
+   * @return True if so.
+   * @note Always executed from the Exec thread.
+   */
+  bool MessageQueueMap::hasRecipient(const std::string& message) {
+    std::lock_guard<std::mutex> guard(m_mutex);
+    QueueMap::const_iterator it = m_map.find(message);
+    return it != m_map.end() && !it->second->m_recipientQueue.empty();
+  }
+
   /**
    * @brief Adds the given message to its queue. If there is a recipient waiting for the message, it is sent immediately.
    * @param message The message string to be added
@@ -165,7 +188,7 @@ namespace PLEXIL
       m_execInterface.handleCommandReturn(rq.front(), mq.front());
       debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name
                << " recipient inactive, ignoring");
-      rq.pop();
+      rq.pop_front();
       mq.pop();
     }
     if (valChanged) {
diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.hh b/src/interfaces/UdpAdapter/MessageQueueMap.hh
index 5603a6d..66fa31b 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.hh
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.hh
@@ -61,6 +61,19 @@ namespace PLEXIL
      */
     void addRecipient(const std::string &message, Command *cmd);
 
+    /**
+     * @brief Removes the given recipient, if it is still waiting, e.g. because it was aborted.
+     * @param cmd Pointer to the command requesting the message.
+     */
+    void removeRecipient(Command *cmd);
+
+    /**
+     * @brief Is any recipient waiting for the given message?
+     * @param message The message
+     * @return True if so.
+     */
+    bool hasRecipient(const std::string &message);
+
     /**
      * @brief Adds the given message to its queue. If there is a recipient
      * waiting for the message, it is sent immediately.
@@ -103,7 +116,7 @@ namespace PLEXIL
     using MessageQueue = std::queue<Value, std::list<Value>>;
 
     //* @brief Data structure containing the invoking command, for identifying and storing recipients
-    using RecipientQueue = std::queue<Command *, std::list<Command *>>;
+    using RecipientQueue = std::list<Command *>;
 
     //* @brief Data queue structure associating a message string with a queue of recipients and a queue of messages. Only one queue should have items at a time. */
     struct PairingQueue
diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index 3efc38f..ed39e3c 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -182,7 +182,12 @@ namespace PLEXIL
                                              { this->abortReceiveCommandCommand(cmd, intf); });
       config->registerCommandHandlerFunction(GET_PARAMETER_COMMAND,
                                              [this](Command *cmd, AdapterExecInterface *intf) -> void
-                                             { this->executeGetParameterCommand(cmd, intf); });
+                                             { this->executeGetParameterCommand(cmd, intf); },
+                                             [this](Command *cmd, AdapterExecInterface *intf) -> void
+                                             {
+                                               this->m_messageQueues.removeRecipient(cmd);
+                                               this->abortCommand(cmd, intf);
+                                             });
       config->registerCommandHandlerFunction(SEND_RETURN_VALUE_COMMAND,
                                              [this](Command *cmd, AdapterExecInterface *intf) -> void
                                              { this->executeSendReturnValueCommand(cmd, intf); });
@@ -559,8 +564,10 @@ namespace PLEXIL
         abortCommand(cmd, intf, false);
         return;
       }
+      m_messageQueues.removeRecipient(cmd);
       auto const open = m_listening.find(msg.local_port);
-      if (open != m_listening.end() && open->second == msgName) {
+      if (open != m_listening.end() && open->second == msgName
+          && !m_messageQueues.hasRecipient(formatMessageName(msgName, RECEIVE_COMMAND_COMMAND))) {
         m_eventLoop->closeListener(msg.local_port);
         m_listening.erase(open);
       }
-- 
2.43.0


From c6cd02b4bd2982223af532455aea5293c5a2c6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:33 +0000
Subject: [PATCH 040/119] fix: Socket sends all of its text, also when a signal
 interrupts it

---
 src/interfaces/Sockets/Socket.cpp | 27 ++++++++++++++++++++++++---
 src/interfaces/Sockets/Socket.h   |  2 ++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/interfaces/Sockets/Socket.cpp b/src/interfaces/Sockets/Socket.cpp
index e8ef88d..aaa8204 100644
--- a/src/interfaces/Sockets/Socket.cpp
+++ b/src/interfaces/Sockets/Socket.cpp
@@ -203,12 +203,30 @@ bool Socket::accept (Socket& new_socket) const
 
 bool Socket::send (const std::string s) const
 {
-   return ::send (m_sock, s.c_str(), s.size(), SOCK_MSG_NOSIGNAL) != -1;
+   return this->sendAll(s.c_str(), s.size());
 }
 
 bool Socket::send (char* msg, size_t size) const
 {
-   return ::send(m_sock, msg, size, SOCK_MSG_NOSIGNAL) != -1;
+   return this->sendAll(msg, size);
+}
+
+bool Socket::sendAll (const char* msg, size_t size) const
+{
+   while (size)
+   {
+      ssize_t n = ::send (m_sock, msg, size, SOCK_MSG_NOSIGNAL);
+      if (n == -1)
+      {
+         if (errno == EINTR)
+            continue;
+         return false;
+      }
+      // A signal may have left us with only part of it sent
+      msg += n;
+      size -= n;
+   }
+   return true;
 }
 
 int Socket::recv (std::string& s) const
@@ -219,7 +237,10 @@ int Socket::recv (std::string& s) const
    
    memset (buf, 0, MAXRECV + 1);
    
-   int status = ::recv (m_sock, buf, MAXRECV, 0);
+   int status;
+   do
+      status = ::recv (m_sock, buf, MAXRECV, 0);
+   while (status == -1 && errno == EINTR);
    
    if (status == -1)
    {
diff --git a/src/interfaces/Sockets/Socket.h b/src/interfaces/Sockets/Socket.h
index 7b92649..9f0d469 100644
--- a/src/interfaces/Sockets/Socket.h
+++ b/src/interfaces/Sockets/Socket.h
@@ -78,6 +78,8 @@ class Socket
 
  private:
 
+  bool sendAll (const char* msg, size_t size ) const;
+
   int m_sock;
   sockaddr_in m_addr;
 
-- 
2.43.0


From 2782e2eccaf56983cff2b1e1dd44b76fa15a6e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:33 +0000
Subject: [PATCH 041/119] fix: Writing to a Socket whose peer has closed it
 does not kill the process

---
 src/interfaces/Sockets/Socket.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/interfaces/Sockets/Socket.h b/src/interfaces/Sockets/Socket.h
index 9f0d469..beee794 100644
--- a/src/interfaces/Sockets/Socket.h
+++ b/src/interfaces/Sockets/Socket.h
@@ -38,12 +38,20 @@
 #include <netinet/in.h> // sockaddr_in
 #endif
 
+#ifdef HAVE_SYS_SOCKET_H
+#include <sys/socket.h> // MSG_NOSIGNAL
+#endif
+
 #include "SocketException.h"
 
 const int MAXHOSTNAME = 200;
 const int MAXCONNECTIONS = 5;
 const int MAXRECV = 500;
+#ifdef MSG_NOSIGNAL
+const int SOCK_MSG_NOSIGNAL = MSG_NOSIGNAL; // a closed peer is an error, not a SIGPIPE
+#else
 const int SOCK_MSG_NOSIGNAL = 0;
+#endif
 
 class Socket
 {
-- 
2.43.0


From 04c0695e49fb2a4f86db537d8e3b09a6481558b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 042/119] fix: LuvListener goes on without a viewer which has
 gone

---
 src/interfaces/LuvListener/LuvListener.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/interfaces/LuvListener/LuvListener.cc b/src/interfaces/LuvListener/LuvListener.cc
index b9b05cb..3db9263 100644
--- a/src/interfaces/LuvListener/LuvListener.cc
+++ b/src/interfaces/LuvListener/LuvListener.cc
@@ -28,6 +28,7 @@
 
 #include "ClientSocket.h"
 #include "Debug.hh"
+#include "Error.hh" // warn()
 #include "ExecListenerFactory.hh"
 #include "Expression.hh"
 #include "LuvFormat.hh"
@@ -243,8 +244,18 @@ namespace PLEXIL
     void sendMessage(const std::string& msg) const
     {
       debugMsg("LuvListener:sendMessage", " sending:\n" << msg);
-      *m_socket << msg << LUV_END_OF_MESSAGE;
-      waitForAck();
+      if (!m_socket)
+        return;
+      try {
+        *m_socket << msg << LUV_END_OF_MESSAGE;
+        waitForAck();
+      }
+      catch (const SocketException &e) {
+        // The viewer has gone. The Exec goes on without it.
+        warn("LuvListener: lost connection to viewer: " << e.description());
+        delete m_socket;
+        m_socket = nullptr;
+      }
     }
 
     //* Wait for acknowledgement from the viewer.
@@ -267,7 +278,7 @@ namespace PLEXIL
 	//
 	// Member variables
 	//
-    Socket* m_socket;
+    mutable Socket* m_socket; // null when not connected
     std::string m_host;
 	uint16_t m_port;
     bool m_block;
-- 
2.43.0


From 18e6c9c354a110e3dec394517e1449198eb8fa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 043/119] fix: LuvListener sends each message as a whole

---
 src/interfaces/LuvListener/LuvListener.cc | 25 +++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/interfaces/LuvListener/LuvListener.cc b/src/interfaces/LuvListener/LuvListener.cc
index 3db9263..e31a1e4 100644
--- a/src/interfaces/LuvListener/LuvListener.cc
+++ b/src/interfaces/LuvListener/LuvListener.cc
@@ -39,6 +39,10 @@
 #include <sstream>
 #include <string>
 
+#ifdef PLEXIL_WITH_THREADS
+#include <mutex>
+#endif
+
 #include <cstdlib>
 #include <cstring>  // strdup()
 
@@ -129,6 +133,7 @@ namespace PLEXIL
     {
       debugMsg("LuvListener:implementNotifyNodeTransition",
                " for " << trans.node->getNodeId());
+      Guard guard(*this);
       if (m_socket) {
         std::ostringstream s;
         LuvFormat::formatTransition(s, trans);
@@ -144,6 +149,7 @@ namespace PLEXIL
     implementNotifyAddPlan(pugi::xml_node const plan) const override
     {
       debugMsg("LuvListener:implementNotifyAddPlan", " entered");
+      Guard guard(*this);
       if (m_socket) {
         sendPlanInfo();
         std::ostringstream s;
@@ -159,6 +165,7 @@ namespace PLEXIL
     virtual void
     implementNotifyAddLibrary(pugi::xml_node const libNode) const override
     {
+      Guard guard(*this);
       if (m_socket) {
         sendPlanInfo();
         std::ostringstream s;
@@ -178,6 +185,7 @@ namespace PLEXIL
                               std::string const &destName,
                               Value const &value) const override
     {
+      Guard guard(*this);
       if (m_socket) {
         std::ostringstream s;
         LuvFormat::formatAssignment(s, dest, destName, value);
@@ -197,6 +205,22 @@ namespace PLEXIL
     // Implementation details
     //
 
+    // Plans and libraries are added on other threads than the Exec's,
+    // each message must be sent as a whole.
+#ifdef PLEXIL_WITH_THREADS
+    struct Guard final
+    {
+      Guard(LuvListenerImpl const &l) : m_lock(l.m_mutex) {}
+      std::lock_guard<std::mutex> m_lock;
+    };
+    mutable std::mutex m_mutex;
+#else
+    struct Guard final
+    {
+      Guard(LuvListenerImpl const &) {}
+    };
+#endif
+
     /**
      * @brief Open the socket connection to the viewer.
      * @param port The IP port to which we are connecting.
@@ -228,6 +252,7 @@ namespace PLEXIL
     //* Close the socket.
     void closeSocket()
     {
+      Guard guard(*this);
       delete m_socket;
       m_socket = nullptr;
     }
-- 
2.43.0


From 27d81b0e4f4b8b118932b9b37f755993b74478a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 044/119] fix: LuvListener escapes the text it sends as XML

---
 src/interfaces/LuvListener/LuvFormat.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/interfaces/LuvListener/LuvFormat.cc b/src/interfaces/LuvListener/LuvFormat.cc
index fe60b6e..d2c52cf 100644
--- a/src/interfaces/LuvListener/LuvFormat.cc
+++ b/src/interfaces/LuvListener/LuvFormat.cc
@@ -90,7 +90,24 @@ namespace PLEXIL {
                          const char* tag,
                          const char* text) {
     simpleStartTag(s, tag);
-    s << text;
+    for (; *text; ++text)
+      switch (*text) {
+      case '<':
+        s << "&lt;";
+        break;
+
+      case '>':
+        s << "&gt;";
+        break;
+
+      case '&':
+        s << "&amp;";
+        break;
+
+      default:
+        s << *text;
+        break;
+      }
     endTag(s, tag);
   }
 
-- 
2.43.0


From c466f82743780ef35c337695ff35b29ec1af417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 045/119] fix: ExecApplication::step deletes finished plans
 only when the exec is quiescent

---
 src/app-framework/ExecApplication.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index d6e87a8..342acc8 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -460,13 +460,15 @@ namespace PLEXIL
         m_manager->processQueue();
         debugMsg("ExecApplication:step", " Stepping exec");
         m_exec->step(StateCache::queryTime());
-        // Take care of any plans which have finished
-        m_exec->deleteFinishedPlans();
         needsStep = m_exec->needsStep();
+        if (!needsStep) {
+          // Take care of any plans which have finished.
+          // Until the exec is quiescent, it can still refer to their nodes.
+          m_exec->deleteFinishedPlans();
 #ifdef PLEXIL_WITH_THREADS
-        if (!needsStep)
           publishResults();
 #endif
+        }
       }
       return needsStep;
     }
-- 
2.43.0


From 2cc39d7424cb7577be528c09856d068e411229e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:04 +0000
Subject: [PATCH 046/119] fix: ExecApplication::addLibrary reports failure when
 the library was refused

---
 src/app-framework/ExecApplication.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index 342acc8..5eebf7a 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -745,7 +745,7 @@ namespace PLEXIL
       }
       else {
         debugMsg("ExecApplication:addLibrary", " failed");
-        return true;
+        return false;
       }
     }
 
-- 
2.43.0


From 7db8decc4be2d81c028aade0705907ada2ffdd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 047/119] fix: addPlan, addLibrary and loadLibrary refuse a bad
 document instead of throwing

---
 src/app-framework/ExecApplication.cc | 22 ++++++++++++++--------
 src/app-framework/Launcher.cc        |  5 ++---
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index 5eebf7a..99055ac 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -28,11 +28,11 @@
 
 #include "AdapterConfiguration.hh"
 #include "Debug.hh"
+#include "Error.hh"
 #include "ExecListenerHub.hh"
 #include "InterfaceAdapter.hh"
 #include "InterfaceManager.hh"
 #include "InputQueue.hh"
-#include "ParserException.hh"
 #include "PlexilExec.hh"
 #include "PlexilSchema.hh"
 #include "StateCache.hh"
@@ -739,12 +739,18 @@ namespace PLEXIL
     virtual bool addLibrary(pugi::xml_document* libraryXml) override
     {
       // Delegate to InterfaceManager
-      if (m_manager->handleAddLibrary(libraryXml)) {
-        debugMsg("ExecApplication:addLibrary", " Library added");
-        return true;
+      try {
+        if (m_manager->handleAddLibrary(libraryXml)) {
+          debugMsg("ExecApplication:addLibrary", " Library added");
+          return true;
+        }
+        else {
+          debugMsg("ExecApplication:addLibrary", " failed");
+          return false;
+        }
       }
-      else {
-        debugMsg("ExecApplication:addLibrary", " failed");
+      catch (const std::exception& e) {
+        warn("addLibrary: Error:\n" << e.what());
         return false;
       }
     }
@@ -761,7 +767,7 @@ namespace PLEXIL
       try {
         result = m_manager->handleLoadLibrary(name);
       }
-      catch (const ParserException& e) {
+      catch (const std::exception& e) {
         warn("loadLibrary: Error:\n" << e.what());
         return false;
       }
@@ -795,7 +801,7 @@ namespace PLEXIL
         debugMsg("ExecApplication:addPlan", " successful");
         return true;
       }
-      catch (const ParserException& e) {
+      catch (const std::exception& e) {
         warn("addPlan: Plan parser error: \n" << e.what());
         return false;
       }
diff --git a/src/app-framework/Launcher.cc b/src/app-framework/Launcher.cc
index bee1ad5..fef5bef 100644
--- a/src/app-framework/Launcher.cc
+++ b/src/app-framework/Launcher.cc
@@ -37,7 +37,6 @@
 #include "InterfaceAdapter.hh"
 #include "Node.hh"
 #include "NodeTransition.hh"
-#include "ParserException.hh"
 #include "parser-utils.hh"
 #include "PlexilExec.hh" // g_exec
 #include "State.hh"
@@ -283,8 +282,8 @@ namespace PLEXIL
       debugMsg("LauncherAdapter:startPlan",
                ' ' << *nodeName << ": successfully added wrapper plan " << callerId)
     }
-    catch (ParserException &e) {
-      warn("Launching plan " << nodeName << " failed:\n"
+    catch (std::exception const &e) {
+      warn("Launching plan " << *nodeName << " failed:\n"
            << e.what());
       intf->handleCommandAck(cmd, COMMAND_FAILED);
       intf->notifyOfExternalEvent();
-- 
2.43.0


From 29f6ee196dbd625ff1a70af8a5d83b0ad83c0e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:05 +0000
Subject: [PATCH 048/119] fix: plans and libraries added from several threads
 are parsed one at a time

---
 src/app-framework/InterfaceManager.cc | 20 ++++++++++++++++++--
 src/app-framework/InterfaceManager.hh |  9 +++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/app-framework/InterfaceManager.cc b/src/app-framework/InterfaceManager.cc
index 8870bcc..4d07d58 100644
--- a/src/app-framework/InterfaceManager.cc
+++ b/src/app-framework/InterfaceManager.cc
@@ -350,7 +350,13 @@ namespace PLEXIL
     debugMsg("InterfaceManager:handleAddPlan", " entered");
 
     // parse the plan
-    NodeImpl *root = parsePlan(planXml); // can throw ParserException
+    NodeImpl *root = nullptr;
+    {
+#ifdef PLEXIL_WITH_THREADS
+      std::lock_guard<std::recursive_mutex> guard(m_parserMutex);
+#endif
+      root = parsePlan(planXml); // can throw ParserException
+    }
 
     assertTrue_1(m_inputQueue);
     QueueEntry *entry = m_inputQueue->allocate();
@@ -376,7 +382,11 @@ namespace PLEXIL
     checkError(doc,
                "InterfaceManager::handleAddLibrary: Null plan document");
 
-    // Hand off to librarian
+    // Hand off to librarian.
+    // The library can be replaced as soon as the lock is released.
+#ifdef PLEXIL_WITH_THREADS
+    std::lock_guard<std::recursive_mutex> guard(m_parserMutex);
+#endif
     Library const *l = loadLibraryDocument(doc);
     if (l) {
       pugi::xml_node const node = l->doc->document_element().child(NODE_TAG);
@@ -398,6 +408,9 @@ namespace PLEXIL
   bool
   InterfaceManager::handleLoadLibrary(std::string const &libName)
   {
+#ifdef PLEXIL_WITH_THREADS
+    std::lock_guard<std::recursive_mutex> guard(m_parserMutex);
+#endif
     if (loadLibraryNode(libName.c_str()))
       return true;
     return PLEXIL::isLibraryLoaded(libName.c_str());
@@ -409,6 +422,9 @@ namespace PLEXIL
   bool
   InterfaceManager::isLibraryLoaded(const std::string &libName) const
   {
+#ifdef PLEXIL_WITH_THREADS
+    std::lock_guard<std::recursive_mutex> guard(m_parserMutex);
+#endif
     return PLEXIL::isLibraryLoaded(libName.c_str());
   }
 
diff --git a/src/app-framework/InterfaceManager.hh b/src/app-framework/InterfaceManager.hh
index be337f1..db4fee4 100644
--- a/src/app-framework/InterfaceManager.hh
+++ b/src/app-framework/InterfaceManager.hh
@@ -31,6 +31,10 @@
 #include <atomic>
 #include <memory>
 
+#ifdef PLEXIL_WITH_THREADS
+#include <mutex>
+#endif
+
 // Forward reference
 namespace pugi
 {
@@ -234,6 +238,11 @@ namespace PLEXIL
 
     //! Number of plans given to the Exec.
     unsigned int m_plansProcessed;
+
+#ifdef PLEXIL_WITH_THREADS
+    //! The parser and the library map are shared by all threads.
+    mutable std::recursive_mutex m_parserMutex;
+#endif
   };
 
 }
-- 
2.43.0


From 91d0705ff338880dab2e2b5f38631c14af40292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:59 +0000
Subject: [PATCH 049/119] fix: a plan calling a library which calls itself is
 refused

---
 src/xml-parser/parseLibraryCall.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/xml-parser/parseLibraryCall.cc b/src/xml-parser/parseLibraryCall.cc
index 629cc5c..a7bd15b 100644
--- a/src/xml-parser/parseLibraryCall.cc
+++ b/src/xml-parser/parseLibraryCall.cc
@@ -134,6 +134,17 @@ namespace PLEXIL
                                      << callXml.first_child().child_value()
                                      << " not found while expanding LibraryNodeCall node "
                                      << node->getNodeId());
+    // A library which calls itself, directly or not, would expand forever
+    for (NodeImpl const *n = node; n->getParentNode(); n = n->getParentNode()) {
+      checkParserExceptionWithLocation(n->getParentNode()->getType() != NodeType_LibraryNodeCall
+                                       || n->getNodeId() != callXml.first_child().child_value(),
+                                       callXml,
+                                       "Library node "
+                                       << n->getNodeId()
+                                       << " calls itself in LibraryNodeCall node "
+                                       << node->getNodeId());
+    }
+
     // Construct call
     // Template was checked before it was added to library
     node->addChild(constructPlan(l->doc->document_element(), l->symtab, node));
-- 
2.43.0


From 7d61f514bb514e69bedc2af82a57436e68e07e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 050/119] fix: a library document which is added again stays in
 the library

---
 src/xml-parser/planLibrary.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/xml-parser/planLibrary.cc b/src/xml-parser/planLibrary.cc
index 4fd25a5..2346ccb 100644
--- a/src/xml-parser/planLibrary.cc
+++ b/src/xml-parser/planLibrary.cc
@@ -155,8 +155,7 @@ namespace PLEXIL
     Library *l = findLibraryNode(nodeId);
 
     if (l && plan == l->doc->document_element()) {
-      // Same plan, no need to go any further
-      delete doc;
+      // Same document, no need to go any further
       return l;
     }
 
-- 
2.43.0


From 0d3840520a97e129e1ce5fd7a2aac2bbe0a589cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 051/119] fix: the values of a library call's aliases are
 checked like all expressions

---
 src/xml-parser/parseLibraryCall.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml-parser/parseLibraryCall.cc b/src/xml-parser/parseLibraryCall.cc
index a7bd15b..a18d240 100644
--- a/src/xml-parser/parseLibraryCall.cc
+++ b/src/xml-parser/parseLibraryCall.cc
@@ -84,6 +84,7 @@ namespace PLEXIL
                                      "Alias for \"" << name
                                      << "\" has malformed value expression in LibraryNodeCall node " 
                                      << callerId);
+    checkExpression(callerId.c_str(), temp); // for effect
   }
 
   void checkLibraryCall(char const *callerId, xml_node const callXml)
-- 
2.43.0


From 315682fb8b0f0aacfae73b9b11f380e9a4035710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:54 +0000
Subject: [PATCH 052/119] fix: accept every command handle value the language
 defines as a literal

The schemas and the release notes list COMMAND_ABORTED, COMMAND_ABORT_FAILED and
COMMAND_INTERFACE_ERROR, and the translation of SynchronousCommand uses one of
them, but the parser rejected all three.
---
 src/xml-parser/ConstantFactory.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xml-parser/ConstantFactory.cc b/src/xml-parser/ConstantFactory.cc
index 1124371..922a5d1 100644
--- a/src/xml-parser/ConstantFactory.cc
+++ b/src/xml-parser/ConstantFactory.cc
@@ -395,6 +395,9 @@ namespace PLEXIL
     case COMMAND_FAILED:
     case COMMAND_DENIED:
     case COMMAND_SUCCESS:
+    case COMMAND_ABORTED:
+    case COMMAND_ABORT_FAILED:
+    case COMMAND_INTERFACE_ERROR:
       return COMMAND_HANDLE_TYPE; // is OK
 
     default:
@@ -430,6 +433,15 @@ namespace PLEXIL
     case COMMAND_SUCCESS:
       return COMMAND_SUCCESS_CONSTANT();
 
+    case COMMAND_ABORTED:
+      return COMMAND_ABORTED_CONSTANT();
+
+    case COMMAND_ABORT_FAILED:
+      return COMMAND_ABORT_FAILED_CONSTANT();
+
+    case COMMAND_INTERFACE_ERROR:
+      return COMMAND_INTERFACE_ERROR_CONSTANT();
+
     default:
       reportParserExceptionWithLocation(expr,
                                         "createExpression: Invalid CommandHandleValue");
-- 
2.43.0


From da6648ecb25dc21547be44762c669fff98aaa556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:39 +0000
Subject: [PATCH 053/119] fix: compare an undeclared value to an integer as
 reals, from either side

Undeclared > 10 was compared as integers, and a real value from the interface
made the exec throw; 10 < Undeclared was compared as reals and worked.
A string compared to an undeclared value was refused on one side only.
---
 src/xml-parser/Operations.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xml-parser/Operations.cc b/src/xml-parser/Operations.cc
index 3c2d189..ff01ef5 100644
--- a/src/xml-parser/Operations.cc
+++ b/src/xml-parser/Operations.cc
@@ -635,9 +635,8 @@ namespace PLEXIL
     if (typeA == UNKNOWN_TYPE) {
       switch (typeB) {
       case REAL_TYPE:
-        return REAL_TYPE;
       case INTEGER_TYPE:
-        return INTEGER_TYPE;
+        return REAL_TYPE; // safe
       case STRING_TYPE:
         return STRING_TYPE;
       default:
@@ -662,6 +661,9 @@ namespace PLEXIL
       else
         return UNKNOWN_TYPE; // illegal
 
+    case STRING_TYPE:
+      return typeB == UNKNOWN_TYPE ? STRING_TYPE : UNKNOWN_TYPE;
+
     default:
       return UNKNOWN_TYPE;
     }
-- 
2.43.0


From 277aeb87830febb2507b3c02142de6234aa410dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:08 +0000
Subject: [PATCH 054/119] fix: stop what has been started when starting the
 interfaces fails

A failed start() of an adapter or listener left the earlier ones running, and
stop() did nothing because the application had never started.
---
 src/app-framework/AdapterConfiguration.cc | 11 ++++++-----
 src/app-framework/ExecApplication.cc      |  1 +
 src/app-framework/ExecListenerHub.cc      |  7 +++++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/app-framework/AdapterConfiguration.cc b/src/app-framework/AdapterConfiguration.cc
index 5d00cca..f69800a 100644
--- a/src/app-framework/AdapterConfiguration.cc
+++ b/src/app-framework/AdapterConfiguration.cc
@@ -319,13 +319,14 @@ namespace PLEXIL {
     virtual bool start()
     {
       debugMsg("AdapterConfiguration:start", " starting interface adapters");
-      bool success = true;
-      for (InterfaceAdapterPtr &a : m_adapters) {
-        success = a->start();
-        if (!success) {
+      for (size_t i = 0; i < m_adapters.size(); ++i) {
+        if (!m_adapters[i]->start()) {
           warn("start: start failed for adapter type \""
-               << a->getXml().attribute(InterfaceSchema::ADAPTER_TYPE_ATTR).value()
+               << m_adapters[i]->getXml().attribute(InterfaceSchema::ADAPTER_TYPE_ATTR).value()
                << '"');
+          // Nobody will stop those which have been started already
+          while (i--)
+            m_adapters[i]->stop();
           return false;
         }
       }
diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index 99055ac..ea8a53c 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -438,6 +438,7 @@ namespace PLEXIL
 
       if (!m_listener->start()) {
         warn("ExecApplication: Error: failed to start Exec listeners");
+        m_configuration->stop();
         return false;
       }
 
diff --git a/src/app-framework/ExecListenerHub.cc b/src/app-framework/ExecListenerHub.cc
index 7057dad..fd0678d 100644
--- a/src/app-framework/ExecListenerHub.cc
+++ b/src/app-framework/ExecListenerHub.cc
@@ -169,10 +169,13 @@ namespace PLEXIL
    */
   bool ExecListenerHub::start()
   {
-    for (ExecListenerPtr const &listener : m_listeners) {
-      if (!listener->start()) {
+    for (size_t i = 0; i < m_listeners.size(); ++i) {
+      if (!m_listeners[i]->start()) {
         debugMsg("ExecListenerHub:start",
                  " failed to start all Exec listeners, returning false");
+        // Nobody will stop those which have been started already
+        while (i--)
+          m_listeners[i]->stop();
         return false; // stop at first failure
       }
     }
-- 
2.43.0


From 4f39b2a4824f2dc893378b47a3aa1e61ee835b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 055/119] fix: an interface error of a threshold or update
 handler does not end the exec

executeCommand, invokeAbort and lookupNow report an InterfaceError of a handler
as a failed request; the same exception out of setThresholds, clearThresholds or
a planner update handler ended the exec's thread.
---
 src/app-framework/AdapterConfiguration.cc | 34 ++++++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/app-framework/AdapterConfiguration.cc b/src/app-framework/AdapterConfiguration.cc
index f69800a..e46e583 100644
--- a/src/app-framework/AdapterConfiguration.cc
+++ b/src/app-framework/AdapterConfiguration.cc
@@ -502,13 +502,25 @@ namespace PLEXIL {
     virtual void setThresholds(const State& state, Real hi, Real lo)
     {
       debugMsg("AdapterConfiguration:setThresholds", " (Real) state " << state);
-      getLookupHandler(state.name())->setThresholds(state, hi, lo);
+      try {
+        getLookupHandler(state.name())->setThresholds(state, hi, lo);
+      }
+      catch (InterfaceError const &e) {
+        warn("setThresholds: Error setting thresholds of " << state << ":\n"
+             << e.what());
+      }
     }
 
     virtual void setThresholds(const State& state, Integer hi, Integer lo)
     {
       debugMsg("AdapterConfiguration:setThresholds", " (Integer) state " << state);
-      getLookupHandler(state.name())->setThresholds(state, hi, lo);
+      try {
+        getLookupHandler(state.name())->setThresholds(state, hi, lo);
+      }
+      catch (InterfaceError const &e) {
+        warn("setThresholds: Error setting thresholds of " << state << ":\n"
+             << e.what());
+      }
     }
 
     //! Tell the interface that thresholds are no longer in effect
@@ -517,7 +529,13 @@ namespace PLEXIL {
     virtual void clearThresholds(const State& state)
     {
       debugMsg("AdapterConfiguration:clearThresholds", " for state " << state);
-      getLookupHandler(state.name())->clearThresholds(state);
+      try {
+        getLookupHandler(state.name())->clearThresholds(state);
+      }
+      catch (InterfaceError const &e) {
+        warn("clearThresholds: Error clearing thresholds of " << state << ":\n"
+             << e.what());
+      }
     }
 
     //! Execute a command.
@@ -575,7 +593,15 @@ namespace PLEXIL {
       debugMsg("AdapterConfiguration:updatePlanner",
                " sending planner update for node "
                << update->getNodeId());
-      (handler)(update, m_manager);
+      try {
+        (handler)(update, m_manager);
+      }
+      catch (InterfaceError const &e) {
+        warn("executeUpdate: Error sending planner update for node "
+             << update->getNodeId() << ":\n" << e.what());
+        m_manager->handleUpdateAck(update, false);
+        m_manager->notifyOfExternalEvent();
+      }
     }
 
   private:
-- 
2.43.0


From e5df65284306751adacf62b319256d256ff4d597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 056/119] fix: the SIGALRM handler of the itimer timebase only
 posts a semaphore

It called the wakeup function, whose debug messages allocate memory and
initialize static objects: interrupting a thread which was doing the same
stopped that thread forever. A thread calls the wakeup function now, as with
the POSIX timebase.
---
 src/app-framework/ItimerTimebase.cc | 85 ++++++++++++++++++++++++++---
 1 file changed, 78 insertions(+), 7 deletions(-)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index 8bd3dfc..3b469b4 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -38,6 +38,13 @@
 #include <sys/time.h>
 #endif
 
+#ifdef PLEXIL_WITH_THREADS
+#include "ThreadSemaphore.hh"
+
+#include <atomic>
+#include <thread>
+#endif
+
 namespace PLEXIL
 {
 
@@ -57,7 +64,10 @@ namespace PLEXIL
       debugMsg("ItimerTimebase", " constructor");
     }
 
-    virtual ~ItimerTimebase() = default;
+    virtual ~ItimerTimebase()
+    {
+      ItimerTimebase::stop();
+    }
 
     virtual double getTime() const
     {
@@ -98,6 +108,10 @@ namespace PLEXIL
       saction.sa_flags = 0;  // !SA_SIGINFO
       saction.sa_handler = &sigalrmHandler;
 
+#ifdef PLEXIL_WITH_THREADS
+      startWakeupThread();
+#endif
+
       checkInterfaceError(!sigaction(SIGALRM, &saction, nullptr),
                           "ItimerTimebase::start: sigaction failed, errno = "
                           << errno << ":\n " << strerror(errno));
@@ -151,6 +165,10 @@ namespace PLEXIL
              << errno << ":\n " << strerror(errno));
       }
 
+#ifdef PLEXIL_WITH_THREADS
+      stopWakeupThread();
+#endif
+
       debugMsg("ItimerTimebase:stop", " complete");
     }
 
@@ -213,20 +231,73 @@ namespace PLEXIL
 
   private:
 
-    // UGLY HACK
-    // This was the easiest way I could figure out to
-    // pass our wakeup function and args through the
-    // archaic sigaction() API.
+#ifdef PLEXIL_WITH_THREADS
+
+    //! \brief The signal handler, called when the timer expires.
+    //! \note The wakeup function is not async-signal-safe, so
+    //!       leave the work to the wakeup thread.
+    static void sigalrmHandler(int /* signo */)
+    {
+      int const savedErrno = errno;
+      s_alarm->post();
+      errno = savedErrno;
+    }
 
-    //! \brief Handler function passed to setitimer().
-    //! \param signo Signal number for which the handler is called; ignored.
+    //! \brief Start the thread which calls the wakeup function.
+    void startWakeupThread()
+    {
+      // Never deleted, as a signal can arrive late.
+      if (!s_alarm)
+        s_alarm = new ThreadSemaphore();
+
+      m_stopWakeups = false;
+
+      // Signals are the business of other threads
+      sigset_t all, previous;
+      sigfillset(&all);
+      pthread_sigmask(SIG_SETMASK, &all, &previous);
+      m_wakeupThread = std::thread([this]() -> void {
+                                     while (!s_alarm->wait() && !m_stopWakeups)
+                                       timebaseWakeup(this);
+                                   });
+      pthread_sigmask(SIG_SETMASK, &previous, nullptr);
+    }
+
+    //! \brief Stop the wakeup thread, and wait for it to finish
+    //!        unless this is the one.
+    void stopWakeupThread()
+    {
+      m_stopWakeups = true;
+      s_alarm->post();
+      if (m_wakeupThread.get_id() == std::this_thread::get_id())
+        m_wakeupThread.detach();
+      else
+        m_wakeupThread.join();
+    }
+
+    //! \brief Posted by the signal handler.
+    static ThreadSemaphore *s_alarm;
+
+    std::thread m_wakeupThread;
+    std::atomic<bool> m_stopWakeups {false};
+
+#else
+
+    //! \brief The signal handler, called when the timer expires.
+    //! \param signo The signal number; required by signal(), but unused.
     static void sigalrmHandler(int signo)
     {
       timebaseWakeup(Timebase::s_instance);
     }
 
+#endif
+
   };
 
+#ifdef PLEXIL_WITH_THREADS
+  ThreadSemaphore *ItimerTimebase::s_alarm = nullptr;
+#endif
+
   void registerItimerTimebase()
   {
     REGISTER_TIMEBASE(ItimerTimebase, "Itimer", 1);
-- 
2.43.0


From e640c1cffaec8bc329857ab189671448dcf75589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:16 +0000
Subject: [PATCH 057/119] fix: the array query operators accept array variables

ArraySize, ArrayMaxSize, ALL_KNOWN and ANY_KNOWN were refused by the
parser for any ArrayVariable, whose type is not known when the operator's
arguments are checked.
---
 src/xml-parser/Operations.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xml-parser/Operations.cc b/src/xml-parser/Operations.cc
index ff01ef5..42918ba 100644
--- a/src/xml-parser/Operations.cc
+++ b/src/xml-parser/Operations.cc
@@ -750,7 +750,9 @@ namespace PLEXIL
 
     virtual bool checkArgTypes(std::vector<ValueType> const &typeVec) const
     {
-      return isArrayType(typeVec.at(0));
+      ValueType typ = typeVec.at(0);
+      return isArrayType(typ)
+        || typ == UNKNOWN_TYPE; // e.g. variable reference, undeclared lookup
     }
 
     virtual ValueType getValueType(std::vector<ValueType> const & /* typeVec */,
-- 
2.43.0


From bf0249d742c4cffc93f18f9393bfaadc66e81676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:35 +0000
Subject: [PATCH 058/119] fix: array equality ignores what unknown elements
 used to hold

Two arrays with the same known elements compared as different when an
element unknown in both had been left with different former contents, so
EQArray and NEArray depended on the history of the array.
---
 src/value/ArrayImpl.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/value/ArrayImpl.cc b/src/value/ArrayImpl.cc
index f3bf677..7adfb5a 100644
--- a/src/value/ArrayImpl.cc
+++ b/src/value/ArrayImpl.cc
@@ -303,20 +303,33 @@ namespace PLEXIL
     return operator==(*typedOther);
   }
 
+  // Compare the known elements only: what an unknown element used to hold
+  // makes no difference. (Cf. operator< below.)
+  template <typename T>
+  static bool elementsEqual(std::vector<bool> const &known,
+                            std::vector<T> const &avec,
+                            std::vector<T> const &bvec)
+  {
+    for (size_t i = 0; i < known.size(); ++i)
+      if (known[i] && avec[i] != bvec[i])
+        return false;
+    return true;
+  }
+
   // Specific equality
   template <typename T>
   bool ArrayImpl<T>::operator==(ArrayImpl<T> const &other) const
   {
     if (!(this->getKnownVector() == other.getKnownVector()))
       return false;
-    return m_contents == other.m_contents;
+    return elementsEqual(this->getKnownVector(), m_contents, other.m_contents);
   }
 
   bool ArrayImpl<String>::operator==(ArrayImpl<String> const &other) const
   {
     if (!(this->getKnownVector() == other.getKnownVector()))
       return false;
-    return m_contents == other.m_contents;
+    return elementsEqual(this->getKnownVector(), m_contents, other.m_contents);
   }
 
   template <typename T>
@@ -425,7 +438,7 @@ namespace PLEXIL
     std::vector<T> const *avec, *bvec;
     arya.getContentsVector(avec);
     aryb.getContentsVector(bvec);
-    return *avec == *bvec;
+    return elementsEqual(arya.getKnownVector(), *avec, *bvec);
   }
 
   // Generic
-- 
2.43.0


From 50b5da58c83b2bba7cf0d156c57d29df0b1d8746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:07 +0000
Subject: [PATCH 059/119] fix: assignment to an array element uses the index it
 had when it started

---
 src/expr/ArrayReference.cc | 30 +++++++++++++++++++++++++++---
 src/expr/ArrayReference.hh | 18 ++++++++++++++++++
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/src/expr/ArrayReference.cc b/src/expr/ArrayReference.cc
index 89087f8..e453df3 100644
--- a/src/expr/ArrayReference.cc
+++ b/src/expr/ArrayReference.cc
@@ -228,18 +228,37 @@ namespace PLEXIL
     : Assignable(),
       ArrayReference(ary, idx, aryIsGarbage, idxIsGarbage),
       m_mutableArray(dynamic_cast<ArrayVariable *>(ary->getBaseExpression())),
-      m_saved(false)
+      m_fixedIndex(0),
+      m_saved(false),
+      m_indexFixed(false),
+      m_fixedIndexKnown(false)
   {
   }
 
+  char const *MutableArrayReference::getName() const
+  {
+    if (!m_indexFixed || !m_fixedIndexKnown)
+      return ArrayReference::getName();
+    std::ostringstream strm;
+    strm << getBaseExpression()->getName() << '[' << m_fixedIndex << ']';
+    *m_namePtr = strm.str();
+    return m_namePtr->c_str();
+  }
+
+  void MutableArrayReference::handleDeactivate()
+  {
+    m_indexFixed = false;
+    ArrayReference::handleDeactivate();
+  }
+
   bool MutableArrayReference::mutableSelfCheck(size_t &idx)
   {
     checkPlanError(m_mutableArray,
                    "Can't assign to an array element not associated with a variable");
     if (!m_mutableArray->isKnown())
       return false;
-    Integer idxTemp;
-    if (!m_index->getValue(idxTemp))
+    Integer idxTemp = m_fixedIndex;
+    if (!(m_indexFixed ? m_fixedIndexKnown : m_index->getValue(idxTemp)))
       return false; // index is unknown
     checkPlanError(idxTemp >= 0,
                    "Array index " << idxTemp << " is negative");
@@ -265,6 +284,11 @@ namespace PLEXIL
 
   void MutableArrayReference::saveCurrentValue()
   {
+    // The assignment and its retraction must affect the element being saved,
+    // even if the value of the index expression changes in the meantime.
+    m_fixedIndexKnown = m_index->getValue(m_fixedIndex);
+    m_indexFixed = true;
+
     size_t idx;
     if (!mutableSelfCheck(idx)) {
       // unknown or invalid
diff --git a/src/expr/ArrayReference.hh b/src/expr/ArrayReference.hh
index 309893e..e1d8acf 100644
--- a/src/expr/ArrayReference.hh
+++ b/src/expr/ArrayReference.hh
@@ -197,6 +197,10 @@ namespace PLEXIL {
     //! \brief Virtual destructor.
     ~MutableArrayReference() = default;
 
+    //! \brief Return the name of this expression.
+    //! \return Pointer to const character string.
+    virtual char const *getName() const override;
+
     //
     // Assignable API
     //
@@ -227,6 +231,11 @@ namespace PLEXIL {
 
     using Assignable::setValue;
 
+  protected:
+
+    //! \brief Actions to be performed upon deactivation.
+    virtual void handleDeactivate() override;
+
   private:
     // Default, copy, assignment disallowed
     MutableArrayReference() = delete;
@@ -250,8 +259,17 @@ namespace PLEXIL {
     //! \brief Value saved by saveCurrentValue().
     Value m_savedValue;
 
+    //! \brief Value of the index when saveCurrentValue() was called.
+    Integer m_fixedIndex;
+
     //! \brief True if saveCurrentValue() has been called, false otherwise.
     bool m_saved;
+
+    //! \brief True if m_fixedIndex is to be used until the next deactivation.
+    bool m_indexFixed;
+
+    //! \brief True if the index was known when saveCurrentValue() was called.
+    bool m_fixedIndexKnown;
   };
 
 } // namespace PLEXIL
-- 
2.43.0


From c968c591adb1855a6e2cb3c1c523b90c54f0b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:08 +0000
Subject: [PATCH 060/119] fix: plans can be launched with array arguments

---
 src/app-framework/Launcher.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/Launcher.cc b/src/app-framework/Launcher.cc
index fef5bef..55e2ae9 100644
--- a/src/app-framework/Launcher.cc
+++ b/src/app-framework/Launcher.cc
@@ -133,7 +133,8 @@ namespace PLEXIL
     if (isArrayType(vt)) {
       pugi::xml_node aryxml = parent.append_child("ArrayValue");
       char const *eltType = typeNameAsValue(arrayElementType(vt));
-      aryxml.append_attribute("Type").set_value(eltType);
+      aryxml.append_attribute("Type")
+        .set_value(valueTypeName(arrayElementType(vt)).c_str());
       Array const *ary;
       v.getValuePointer(ary); // better succeed!
       for (size_t i = 0; i < ary->size(); ++i) {
-- 
2.43.0


From 7eb3d415468741b5ccc61f157aa89b5fc65ae33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:08 +0000
Subject: [PATCH 061/119] fix: real arguments of a launched plan keep their
 exact value

---
 src/app-framework/Launcher.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/app-framework/Launcher.cc b/src/app-framework/Launcher.cc
index 55e2ae9..d83f1e2 100644
--- a/src/app-framework/Launcher.cc
+++ b/src/app-framework/Launcher.cc
@@ -42,6 +42,9 @@
 #include "State.hh"
 
 #include <algorithm> // std::find_if()
+#include <iomanip>   // std::setprecision()
+#include <limits>
+#include <sstream>
 
 namespace PLEXIL
 {
@@ -127,6 +130,18 @@ namespace PLEXIL
   // Helper functions
   //
 
+  // The value read back from the text is exactly the one printed.
+  static std::string valueText(Value const &v)
+  {
+    Real r;
+    if (v.valueType() == REAL_TYPE && v.getValue(r)) {
+      std::ostringstream s;
+      s << std::setprecision(std::numeric_limits<Real>::max_digits10) << r;
+      return s.str();
+    }
+    return v.valueToString();
+  }
+
   static void valueToExprXml(pugi::xml_node parent, Value const &v)
   {
     ValueType vt = v.valueType();
@@ -140,13 +155,13 @@ namespace PLEXIL
       for (size_t i = 0; i < ary->size(); ++i) {
         // quick & dirty
         aryxml.append_child(eltType).append_child(pugi::node_pcdata)
-          .set_value(ary->getElementValue(i).valueToString().c_str());
+          .set_value(valueText(ary->getElementValue(i)).c_str());
       }
     }
     else {
       // Scalar value
       parent.append_child(typeNameAsValue(vt)).append_child(pugi::node_pcdata)
-        .set_value(v.valueToString().c_str());
+        .set_value(valueText(v).c_str());
     }
   }
 
-- 
2.43.0


From 78d46df64daf11ba03075d335b47d8b53289d524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:33 +0000
Subject: [PATCH 062/119] fix: arrays with unknown elements can be passed to a
 launched plan

---
 src/app-framework/Launcher.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app-framework/Launcher.cc b/src/app-framework/Launcher.cc
index d83f1e2..77f4054 100644
--- a/src/app-framework/Launcher.cc
+++ b/src/app-framework/Launcher.cc
@@ -133,6 +133,8 @@ namespace PLEXIL
   // The value read back from the text is exactly the one printed.
   static std::string valueText(Value const &v)
   {
+    if (!v.isKnown())
+      return "UNKNOWN"; // may be an array element
     Real r;
     if (v.valueType() == REAL_TYPE && v.getValue(r)) {
       std::ostringstream s;
-- 
2.43.0


From 93146501483e30c00592e158cc6416e7531fd0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:57 +0000
Subject: [PATCH 063/119] fix: simulator: serialise scheduling; never lose or
 misdate a response

Responses were popped and the timer was set by the simulator's thread and the
comm relay's thread at once; a response due immediately could disarm the
timer, and one due on a whole second was not scheduled.
---
 src/apps/StandAloneSimulator/Simulator.cc     | 98 ++++++++++---------
 src/apps/StandAloneSimulator/TimingService.cc | 12 ++-
 src/apps/StandAloneSimulator/TimingService.hh |  1 +
 3 files changed, 60 insertions(+), 51 deletions(-)

diff --git a/src/apps/StandAloneSimulator/Simulator.cc b/src/apps/StandAloneSimulator/Simulator.cc
index 97a93d2..b3eb851 100644
--- a/src/apps/StandAloneSimulator/Simulator.cc
+++ b/src/apps/StandAloneSimulator/Simulator.cc
@@ -40,6 +40,7 @@
 
 #include <iomanip>
 #include <memory>
+#include <mutex>
 #include <thread>
 
 #include <cerrno>
@@ -63,6 +64,9 @@ private:
   std::unique_ptr<Agenda> m_Agenda;
   std::unique_ptr<ResponseManagerMap> m_CmdToRespMgr;
   std::thread m_SimulatorThread;
+  // Guards the agenda, the timer, and the lookup values, which are used by
+  // both the simulator thread and the comm relay's thread.
+  mutable std::mutex m_mutex;
   bool m_Started;
   bool m_Stop;
 
@@ -75,6 +79,7 @@ public:
       m_Agenda(agenda),
       m_CmdToRespMgr(map),
       m_SimulatorThread(),
+      m_mutex(),
       m_Started(false),
       m_Stop(false)
   {
@@ -139,17 +144,9 @@ public:
     // Set the timer for the first event, if any
     //
 
-    timeval firstWakeup;
-    firstWakeup.tv_sec = firstWakeup.tv_usec = 0;
-    if (!m_Agenda->empty())
-      firstWakeup = m_Agenda->nextResponseTime();
-
-    if (firstWakeup.tv_sec != 0 || firstWakeup.tv_usec != 0) {
-      debugMsg("Simulator:start",
-               " scheduling first event at "
-               << std::setiosflags(std::ios_base::fixed) << std::setprecision(6)
-               << timevalToDouble(firstWakeup));
-      scheduleNextResponse(firstWakeup);
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      scheduleNextResponse();
     }
 
     //
@@ -190,13 +187,12 @@ public:
   void scheduleResponseForCommand(const std::string& command,
                                   void* uniqueId)
   {
-    timeval time;
-    gettimeofday(&time, nullptr);
     debugMsg("Simulator:scheduleResponseForCommand",
              " for : " << command);
-    bool valid = constructNextResponse(command, uniqueId, time, MSG_COMMAND);
+    std::lock_guard<std::mutex> guard(m_mutex);
+    bool valid = constructNextResponse(command, uniqueId, MSG_COMMAND);
     if (valid)
-      scheduleNextResponse(time);
+      scheduleNextResponse();
     else
       debugMsg("Simulator:scheduleResponseForCommand",
                "Not a command that needs a response.");
@@ -209,6 +205,7 @@ public:
    */
   ResponseMessage* getLookupNowResponse(const std::string& stateName, void* uniqueId) const
   {
+    std::lock_guard<std::mutex> guard(m_mutex);
     NameValueMap::const_iterator it = m_LookupNowValueMap.find(stateName);
     if (it == m_LookupNowValueMap.end())
       return nullptr; // Name not known or no value established yet
@@ -231,7 +228,6 @@ private:
 
   bool constructNextResponse(const std::string& command,
                              void* uniqueId, 
-                             timeval& time,
                              int type)
   {
     ResponseManagerMap::const_iterator iter  = m_CmdToRespMgr->find(command);
@@ -274,8 +270,16 @@ private:
     m_Agenda->scheduleResponse(eventTime, msg);
   }
 
-  void scheduleNextResponse(const timeval& time)
+  /**
+   * @brief Make sure the simulator thread wakes up when the next response is due.
+   * @note The caller must hold m_mutex.
+   */
+  void scheduleNextResponse()
   {
+    if (m_Agenda->empty())
+      return;
+
+    timeval const time = m_Agenda->nextResponseTime();
     timeval nextEvent;
     m_TimingService.getTimer(nextEvent);
     if ((nextEvent.tv_sec == 0 && nextEvent.tv_usec == 0)
@@ -283,16 +287,13 @@ private:
       // Schedule timer
       debugMsg("Simulator:scheduleNextResponse", " Scheduling a timer");
       bool timeIsFuture = m_TimingService.setTimer(time);
-      if (timeIsFuture) {
-        debugMsg("Simulator:scheduleNextResponse",
-                 " Timer set for "
-                 << std::setiosflags(std::ios_base::fixed) << std::setprecision(6)
-                 << timevalToDouble(time));
-      }
-      else {
-        debugMsg("Simulator:scheduleNextResponse", " Immediate response required");
-        handleWakeUp();
-      }
+      condDebugMsg(timeIsFuture,
+                   "Simulator:scheduleNextResponse",
+                   " Timer set for "
+                   << std::setiosflags(std::ios_base::fixed) << std::setprecision(6)
+                   << timevalToDouble(time));
+      condDebugMsg(!timeIsFuture,
+                   "Simulator:scheduleNextResponse", " Immediate response required");
     }
     else {
       debugMsg("Simulator:scheduleNextResponse",
@@ -312,19 +313,26 @@ private:
     //
     // Send every message with a scheduled time earlier than now.
     //
-    while (!m_Agenda->empty()) {
-      timeval const &responseTime = m_Agenda->nextResponseTime();
-      debugMsg("Simulator:handleWakeUp", " next response at "
-               << responseTime.tv_sec << '.' << responseTime.tv_usec);
-      if (responseTime > now)
-        break;
-    
-      ResponseMessage *resp = m_Agenda->popResponse();
-      checkError(resp,
-                 "Simulator:handleWakeup: Agenda::popResponse returned null");
-      if (resp->getMessageType() == MSG_TELEMETRY) {
-        // Store the value for subsequent LookupNow requests
-        m_LookupNowValueMap[resp->getName()] = resp->getValue();
+    while (true) {
+      timeval responseTime;
+      ResponseMessage *resp = nullptr;
+      {
+        std::lock_guard<std::mutex> guard(m_mutex);
+        if (m_Agenda->empty())
+          break;
+        responseTime = m_Agenda->nextResponseTime();
+        debugMsg("Simulator:handleWakeUp", " next response at "
+                 << responseTime.tv_sec << '.' << responseTime.tv_usec);
+        if (responseTime > now)
+          break;
+
+        resp = m_Agenda->popResponse();
+        checkError(resp,
+                   "Simulator:handleWakeup: Agenda::popResponse returned null");
+        if (resp->getMessageType() == MSG_TELEMETRY) {
+          // Store the value for subsequent LookupNow requests
+          m_LookupNowValueMap[resp->getName()] = resp->getValue();
+        }
       }
       debugMsg("Simulator:handleWakeUp", " sending response "
                << resp->getName() << " value " << resp->getValue()
@@ -340,13 +348,9 @@ private:
     //
     // Schedule next wakeup, if any
     //
-    struct timeval nextWakeup = m_Agenda->nextResponseTime();
-    if (nextWakeup.tv_sec != 0 && nextWakeup.tv_usec != 0) {
-      debugMsg("Simulator:handleWakeUp",
-               " Scheduling next wakeup at "
-               << std::setiosflags(std::ios_base::fixed) << std::setprecision(6)
-               << timevalToDouble(nextWakeup));
-      scheduleNextResponse(nextWakeup);
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      scheduleNextResponse();
     }
     debugMsg("Simulator:handleWakeUp", " completed");
   }
diff --git a/src/apps/StandAloneSimulator/TimingService.cc b/src/apps/StandAloneSimulator/TimingService.cc
index 3af7657..83e6347 100644
--- a/src/apps/StandAloneSimulator/TimingService.cc
+++ b/src/apps/StandAloneSimulator/TimingService.cc
@@ -181,10 +181,14 @@ bool TimingService::setTimer(const timeval& time)
   myTimer.it_interval.tv_sec = myTimer.it_interval.tv_usec = 0;
   myTimer.it_value = time - now;
       
-  if (myTimer.it_value.tv_sec < 0 || myTimer.it_value.tv_usec < 0) {
+  bool isFuture = myTimer.it_value.tv_sec > 0
+	|| (myTimer.it_value.tv_sec == 0 && myTimer.it_value.tv_usec > 0);
+  if (!isFuture) {
+	// A zero value would disarm the timer
 	debugMsg("TimingService:setTimer",
-			 " Not setting interval timer, requested time is in the past");
-	return false;
+			 " Requested time is not in the future, expiring as soon as possible");
+	myTimer.it_value.tv_sec = 0;
+	myTimer.it_value.tv_usec = 1;
   }
       
   int status = setitimer(ITIMER_REAL, &myTimer, nullptr);
@@ -194,7 +198,7 @@ bool TimingService::setTimer(const timeval& time)
 		   " Set interval timer for "
 		   << std::setiosflags(std::ios_base::fixed) << std::setprecision(6)
 		   << timevalToDouble(myTimer.it_value));
-  return true;
+  return isFuture;
 }
 
 /**
diff --git a/src/apps/StandAloneSimulator/TimingService.hh b/src/apps/StandAloneSimulator/TimingService.hh
index 1353587..caecda6 100644
--- a/src/apps/StandAloneSimulator/TimingService.hh
+++ b/src/apps/StandAloneSimulator/TimingService.hh
@@ -71,6 +71,7 @@ public:
    * @brief Set the timer for the specified absolute time.
    * @param time Const reference to a timeval with the requested wakeup time.
    * @return True if the time is in the future, false otherwise.
+   * @note If the time is not in the future, the timer expires as soon as possible.
    */
   bool setTimer(const timeval& time);
 
-- 
2.43.0


From b91c424d9e3fa2646d72de55a6ba422230f41686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:57 +0000
Subject: [PATCH 064/119] fix: simulator: a command with no response left in
 the script is not fatal

---
 src/apps/StandAloneSimulator/CommandResponseManager.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/apps/StandAloneSimulator/CommandResponseManager.cc b/src/apps/StandAloneSimulator/CommandResponseManager.cc
index f2eb1f2..b8c646f 100644
--- a/src/apps/StandAloneSimulator/CommandResponseManager.cc
+++ b/src/apps/StandAloneSimulator/CommandResponseManager.cc
@@ -101,12 +101,8 @@ public:
              " " << m_Identifier << ", count: " << m_Counter);
     ++m_Counter;
 
-    // This shouldn't happen, but check anyway just in case
-    assertTrueMsg(respBase != nullptr,
-                  "getResponses: Internal error: No response found for \""
-                  << m_Identifier << "\"");
-
-    if (respBase->numberOfResponses > 0) {
+    // The script may have no default, and no response for this index
+    if (respBase && respBase->numberOfResponses > 0) {
       tDelay = respBase->delay;
       return respBase;
     }
-- 
2.43.0


From 88a8428d955061ac53dee996fb15ad1625f35d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:57 +0000
Subject: [PATCH 065/119] fix: simulator: negative values in scripts were taken
 for comments

---
 src/apps/StandAloneSimulator/LineInStream.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/apps/StandAloneSimulator/LineInStream.cc b/src/apps/StandAloneSimulator/LineInStream.cc
index 466b5c6..0c6471f 100644
--- a/src/apps/StandAloneSimulator/LineInStream.cc
+++ b/src/apps/StandAloneSimulator/LineInStream.cc
@@ -28,6 +28,16 @@
 
 #include "Debug.hh"
 
+// Numbers may start with a sign or a decimal point
+static bool startsNumber(char const *s)
+{
+  if (*s == '-' || *s == '+')
+    ++s;
+  if (*s == '.')
+    ++s;
+  return isdigit(*s);
+}
+
 LineInStream::LineInStream()
   : m_filename(),
     m_filestream(),
@@ -74,7 +84,8 @@ std::istream &LineInStream::getLine()
     size_t firstNonWhitespace = m_linebuf.find_first_not_of(" \t\n\r");
     ignoreLine = (m_linebuf.size() == 0)
       || (std::string::npos == firstNonWhitespace)
-      || !isalnum(m_linebuf[firstNonWhitespace]);
+      || !(isalnum(m_linebuf[firstNonWhitespace])
+           || startsNumber(m_linebuf.c_str() + firstNonWhitespace));
     condDebugMsg(ignoreLine,
                  "LineInStream:getLine",
                  " ignoring blank or comment line");
-- 
2.43.0


From c694a50d2b8b511aca9f8a8612cd3c2c2d01d0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:57 +0000
Subject: [PATCH 066/119] fix: simulator: responses due at the same time go out
 in the order of the script

---
 src/apps/StandAloneSimulator/Agenda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apps/StandAloneSimulator/Agenda.cc b/src/apps/StandAloneSimulator/Agenda.cc
index 599b497..533673e 100644
--- a/src/apps/StandAloneSimulator/Agenda.cc
+++ b/src/apps/StandAloneSimulator/Agenda.cc
@@ -116,7 +116,7 @@ public:
   {
     std::lock_guard<std::mutex> g(*m_mutex);
     AgendaQueue::iterator it = m_queue.begin();
-    while (it != m_queue.end() && it->first < tym)
+    while (it != m_queue.end() && !(tym < it->first))
       ++it;
     m_queue.emplace(it, AgendaEntry(tym, std::unique_ptr<ResponseMessage>(msg)));
   }
-- 
2.43.0


From ca0a429b89ca32fe887d8da7d0d650030cbf506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:28 +0000
Subject: [PATCH 067/119] fix: IPC: a message of unknown type on the bus no
 longer ends the executive

---
 src/interfaces/IpcUtils/IpcFacade.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/interfaces/IpcUtils/IpcFacade.cc b/src/interfaces/IpcUtils/IpcFacade.cc
index fe81b57..5b5ea30 100644
--- a/src/interfaces/IpcUtils/IpcFacade.cc
+++ b/src/interfaces/IpcUtils/IpcFacade.cc
@@ -466,9 +466,8 @@ namespace PLEXIL
     }
 
     default:
-      // TODO: handle error more gracefully
-      errorMsg("getPlexilMsgValue: invalid or unimplemented message type "
-               << msg->msgType);
+      warn("getPlexilMsgValue: invalid or unimplemented message type "
+           << msg->msgType);
       // fall thru...
 
     case PlexilMsgType_UnknownValue:
@@ -1238,8 +1237,9 @@ namespace PLEXIL
       break;
 
     default:
-      errorMsg("IpcFacade::handleMessage: Received unimplemented or invalid message type "
-               << msgType);
+      // Could come from any program on the bus, so no reason to quit
+      warn("IpcFacade::handleMessage: Received unimplemented or invalid message type "
+           << msgType << ", ignoring");
       break;
     }
   }
-- 
2.43.0


From 36c71053a669bacfe7f1c16fcabfa7629e93559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:28 +0000
Subject: [PATCH 068/119] fix: IPC: a sender restarted in the middle of a
 message sequence no longer ends the executive

---
 src/interfaces/IpcUtils/IpcFacade.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/interfaces/IpcUtils/IpcFacade.cc b/src/interfaces/IpcUtils/IpcFacade.cc
index 5b5ea30..8cc5a21 100644
--- a/src/interfaces/IpcUtils/IpcFacade.cc
+++ b/src/interfaces/IpcUtils/IpcFacade.cc
@@ -1256,12 +1256,18 @@ namespace PLEXIL
   {
     IpcMessageId const msgId(msgData->senderUID, msgData->serial);
 
-    // Check that this isn't a duplicate leader
+    // The sender may have been restarted in the middle of a sequence.
+    // If so, drop what we have of the old one.
     IncompleteMessageMap::iterator it = m_incompletes.find(msgId);
-    assertTrueMsg(it == m_incompletes.end(),
-                  "IpcFacade " << m_myUID
-                  << ": internal error: received duplicate leader for sender "
-                  << msgData->senderUID << ", serial " << msgData->serial);
+    if (it != m_incompletes.end()) {
+      warn("IpcFacade " << m_myUID
+           << ": received duplicate leader for sender "
+           << msgData->senderUID << ", serial " << msgData->serial
+           << ", discarding incomplete sequence");
+      for (PlexilMsgBase *msg : it->second)
+        IPC_freeData(IPC_msgFormatter(msgFormatForType((PlexilMsgType) msg->msgType)), (void *) msg);
+      m_incompletes.erase(it);
+    }
 
     if (msgData->count == 0) {
       debugMsg("IpcFacade:cacheMessageLeader", " count == 0, processing immediately");
-- 
2.43.0


From aca6fce483ffcf98fa97f23633d96a16aba949ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:28 +0000
Subject: [PATCH 069/119] fix: IPC: a message which could not be published was
 reported as sent

---
 src/interfaces/IpcUtils/IpcFacade.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/IpcUtils/IpcFacade.cc b/src/interfaces/IpcUtils/IpcFacade.cc
index 8cc5a21..d7326fe 100644
--- a/src/interfaces/IpcUtils/IpcFacade.cc
+++ b/src/interfaces/IpcUtils/IpcFacade.cc
@@ -711,13 +711,16 @@ namespace PLEXIL
   uint32_t IpcFacade::publishMessage(std::string const &command)
   {
     assertTrue_2(m_isStarted, "publishMessage called before started");
+    uint32_t serial = getSerialNumber();
     struct PlexilStringValueMsg packet =
       { { PlexilMsgType_Message,
           0,
-          getSerialNumber(),
+          serial,
           m_myUID.c_str() },
         command.c_str() };
-    return IPC_publishData(STRING_VALUE_MSG, (void *) &packet);
+    IPC_RETURN_TYPE result = IPC_publishData(STRING_VALUE_MSG, (void *) &packet);
+    setError(result);
+    return result == IPC_OK ? serial : ERROR_SERIAL;
   }
 
   uint32_t IpcFacade::publishCommand(std::string const &command,
-- 
2.43.0


From fd9dec39b19d83a1916f6747f6ac641f92864ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:28 +0000
Subject: [PATCH 070/119] fix: IPC: string values of planner updates were read
 after they were freed

---
 src/interfaces/IpcUtils/IpcFacade.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interfaces/IpcUtils/IpcFacade.cc b/src/interfaces/IpcUtils/IpcFacade.cc
index d7326fe..25d4c0b 100644
--- a/src/interfaces/IpcUtils/IpcFacade.cc
+++ b/src/interfaces/IpcUtils/IpcFacade.cc
@@ -308,8 +308,9 @@ namespace PLEXIL
     }
   }
 
+  // N.B. The message refers to the name and the value, which must outlive it.
   struct PlexilMsgBase* constructPlexilPairMsg(std::string const& name,
-                                               Value const val)
+                                               Value const &val)
   {
     PlexilMsgBase* result = nullptr;
     if (val.isKnown()) {
-- 
2.43.0


From 1e38a08ce4d6ea91956097c3c9d4b244ac07cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:28 +0000
Subject: [PATCH 071/119] fix: IPC: planner updates with unknown or array
 values crashed the executive

---
 src/interfaces/IpcUtils/IpcFacade.cc | 32 ++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/IpcUtils/IpcFacade.cc b/src/interfaces/IpcUtils/IpcFacade.cc
index 25d4c0b..e7405ec 100644
--- a/src/interfaces/IpcUtils/IpcFacade.cc
+++ b/src/interfaces/IpcUtils/IpcFacade.cc
@@ -308,6 +308,23 @@ namespace PLEXIL
     }
   }
 
+  //! Can this value be sent in a pair message?
+  static bool isPairValue(Value const &val)
+  {
+    if (!val.isKnown())
+      return false;
+    switch (val.valueType()) {
+    case BOOLEAN_TYPE:
+    case INTEGER_TYPE:
+    case REAL_TYPE:
+    case STRING_TYPE:
+      return true;
+
+    default:
+      return false;
+    }
+  }
+
   // N.B. The message refers to the name and the value, which must outlive it.
   struct PlexilMsgBase* constructPlexilPairMsg(std::string const& name,
                                                Value const &val)
@@ -847,15 +864,26 @@ namespace PLEXIL
     debugMsg("IpcFacade:publishUpdate",
              ' ' << m_myUID << " sending planner update for \"" << nodeName << "\"");
     uint32_t serial = getSerialNumber();
+
+    // Some values have no representation in a pair message
+    std::vector<std::pair<std::string, Value> > pairs;
+    for (std::pair<std::string, Value> const &p : update) {
+      if (isPairValue(p.second))
+        pairs.push_back(p);
+      else
+        warn("IpcFacade: value of \"" << p.first << "\" in planner update for \"" << nodeName
+             << "\" is unknown or not a scalar, not sending it");
+    }
+
     struct PlexilStringValueMsg updatePacket =
       {{PlexilMsgType_PlannerUpdate,
-        static_cast<uint16_t>(update.size()),
+        static_cast<uint16_t>(pairs.size()),
         serial,
         m_myUID.c_str()},
        nodeName.c_str()};
     IPC_RETURN_TYPE status = IPC_publishData(STRING_VALUE_MSG, (void*) &updatePacket);
     if (status == IPC_OK) {
-      status = sendPairs(update, serial);
+      status = sendPairs(pairs, serial);
     }
     setError(status);
     return status == IPC_OK ? serial : ERROR_SERIAL;
-- 
2.43.0


From 006103dc6dcb5f047fa634ff57804e297e6e7fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:28 +0000
Subject: [PATCH 072/119] fix: IPC: values which have no message format ended
 the executive

---
 src/interfaces/IpcUtils/IpcFacade.cc | 40 +++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/interfaces/IpcUtils/IpcFacade.cc b/src/interfaces/IpcUtils/IpcFacade.cc
index e7405ec..0e95031 100644
--- a/src/interfaces/IpcUtils/IpcFacade.cc
+++ b/src/interfaces/IpcUtils/IpcFacade.cc
@@ -150,6 +150,16 @@ namespace PLEXIL
     }
   }
 
+  //! Are all elements of the array known?
+  template <typename ARRAY>
+  static bool allElementsKnown(ARRAY const *ary)
+  {
+    for (size_t i = 0; i < ary->size(); ++i)
+      if (!ary->elementKnown(i))
+        return false;
+    return true;
+  }
+
   /**
    * @brief Utility function to create a value message from a PLEXIL Value.
    * @param val The Value to encode in the message.
@@ -209,6 +219,10 @@ namespace PLEXIL
         BooleanArray const *ba = nullptr;
         val.getValuePointer(ba);
         assertTrue_1(ba);
+        if (!allElementsKnown(ba)) {
+          warn("constructPlexilValueMsg: array has unknown elements");
+          return nullptr;
+        }
         size_t size = ba->size();
         unsigned char *bools = new unsigned char[size];
         for (size_t i = 0; i < size; i++) {
@@ -234,6 +248,10 @@ namespace PLEXIL
         IntegerArray const *ia = nullptr;
         val.getValuePointer(ia);
         assertTrue_1(ia);
+        if (!allElementsKnown(ia)) {
+          warn("constructPlexilValueMsg: array has unknown elements");
+          return nullptr;
+        }
         size_t size = ia->size();
         int32_t *nums = new int32_t[size];
         for (size_t i = 0; i < size; i++) 
@@ -254,6 +272,10 @@ namespace PLEXIL
         RealArray const *ra = nullptr;
         val.getValuePointer(ra);
         assertTrue_1(ra);
+        if (!allElementsKnown(ra)) {
+          warn("constructPlexilValueMsg: array has unknown elements");
+          return nullptr;
+        }
         size_t size = ra->size();
         double *nums = new double[size];
         for (size_t i = 0; i < size; i++) 
@@ -274,6 +296,10 @@ namespace PLEXIL
         StringArray const *sa = nullptr;
         val.getValuePointer(sa);
         assertTrue_1(sa);
+        if (!allElementsKnown(sa)) {
+          warn("constructPlexilValueMsg: array has unknown elements");
+          return nullptr;
+        }
         size_t size = sa->size();
         const char **strings = new const char*[size];
         for (size_t i = 0; i < size; i++) {
@@ -294,8 +320,8 @@ namespace PLEXIL
       }
 
       default:
-        errorMsg("constructPlexilValueMsg: Invalid or unimplemented PLEXIL data type "
-                 << val.valueType());
+        warn("constructPlexilValueMsg: Invalid or unimplemented PLEXIL data type "
+             << val.valueType());
         return nullptr;
       }
     }
@@ -909,17 +935,23 @@ namespace PLEXIL
     size_t nParams = args.size();
     // Construct parameter messages
     PlexilMsgBase* paramMsgs[nParams];
+    IPC_RETURN_TYPE result = IPC_OK;
     for (size_t i = 0; i < nParams; ++i) {
       PlexilMsgBase* paramMsg = constructPlexilValueMsg(args[i]);
+      paramMsgs[i] = paramMsg;
+      if (!paramMsg || !msgFormatForType((PlexilMsgType) paramMsg->msgType)) {
+        warn("IpcFacade: value " << args[i] << " cannot be sent");
+        result = IPC_Error;
+        nParams = i + (paramMsg ? 1 : 0);
+        break;
+      }
       // Fill in common fields
       paramMsg->count = i;
       paramMsg->serial = serial;
       paramMsg->senderUID = m_myUID.c_str();
-      paramMsgs[i] = paramMsg;
     }
     
     // Send the messages
-    IPC_RETURN_TYPE result = IPC_OK;
     for (size_t i = 0; i < nParams && result == IPC_OK; i++) {
       char const *msgFormat = msgFormatForType((PlexilMsgType) paramMsgs[i]->msgType);
       if (dest.empty()) {
-- 
2.43.0


From 2550851d05c17aa0c944a66d0979b66418d94341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:57 +0000
Subject: [PATCH 073/119] fix: IPC: serial numbers and message names were
 shared between threads without protection

---
 src/interfaces/IpcUtils/IpcFacade.cc | 10 ++++++++--
 src/interfaces/IpcUtils/IpcFacade.hh |  8 +++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/interfaces/IpcUtils/IpcFacade.cc b/src/interfaces/IpcUtils/IpcFacade.cc
index 0e95031..1139f3a 100644
--- a/src/interfaces/IpcUtils/IpcFacade.cc
+++ b/src/interfaces/IpcUtils/IpcFacade.cc
@@ -34,6 +34,7 @@
 #include <algorithm>
 #include <fstream>
 #include <map>
+#include <mutex>
 #include <thread>
 
 #include <cstdio>
@@ -43,7 +44,7 @@ namespace PLEXIL
 {
   // forward reference
   static bool definePlexilIPCMessageTypes(std::string uid);
-  static void myIpcDispatch(bool *flag_ptr);
+  static void myIpcDispatch(std::atomic<bool> *flag_ptr);
   static void ipcMessageHandler(MSG_INSTANCE /* rawMsg */,
                                 void * unmarshalledMsg,
                                 void * this_as_void_ptr);
@@ -62,6 +63,10 @@ namespace PLEXIL
 
     static MessageFormatMap sl_formatMap;
 
+    // Called from both the exec and the dispatch thread
+    static std::mutex sl_formatMutex;
+    std::lock_guard<std::mutex> guard(sl_formatMutex);
+
     MessageFormatKey const key(msgName, destId);
     std::string &resultString = sl_formatMap[key];
     if (!resultString.empty())
@@ -523,6 +528,7 @@ namespace PLEXIL
     m_myUID(generateUID()),
     m_listenersMutex(),
     m_nextSerial(1),
+    m_error(IPC_OK),
     m_isInitialized(false),
     m_isStarted(false),
     m_stopDispatchThread(false)
@@ -1178,7 +1184,7 @@ namespace PLEXIL
 
   //! IPC listener thread top level.
   //! Exits when the stop flag is set.
-  void myIpcDispatch(bool *flag_ptr)
+  void myIpcDispatch(std::atomic<bool> *flag_ptr)
   {
     assertTrue_2(flag_ptr,
                  "IpcFacade dispatch thread: pointer to stop flag is null!");
diff --git a/src/interfaces/IpcUtils/IpcFacade.hh b/src/interfaces/IpcUtils/IpcFacade.hh
index 808f8f7..a1aa13d 100644
--- a/src/interfaces/IpcUtils/IpcFacade.hh
+++ b/src/interfaces/IpcUtils/IpcFacade.hh
@@ -32,6 +32,7 @@
 
 #include "Value.hh"
 
+#include <atomic>
 #include <limits>
 #include <list>
 #include <map>
@@ -367,10 +368,11 @@ namespace PLEXIL {
 
     //* @brief Count of # of outgoing commands and requests, starting with 1
     //  @note Should only ever be 0 at initialization
-    IpcSerialNumber m_nextSerial;
+    //! Used by both the exec and the dispatch thread
+    std::atomic<IpcSerialNumber> m_nextSerial;
 
     //* @brief The error code of the last called IPC method.
-    IPC_RETURN_TYPE m_error;
+    std::atomic<IPC_RETURN_TYPE> m_error;
 
     //* @brief Is the facade initialized?
     bool m_isInitialized;
@@ -379,7 +381,7 @@ namespace PLEXIL {
     bool m_isStarted;
 
     //* @brief True if the dispatch thread should stop.
-    bool m_stopDispatchThread;
+    std::atomic<bool> m_stopDispatchThread;
   };
 
   /**
-- 
2.43.0


From 30e2ae17e908f5f19a935b4ba427faee8cbfb47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:57 +0000
Subject: [PATCH 074/119] fix: IPC: unsubscribed listeners were still called

---
 src/interfaces/IpcUtils/IpcFacade.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/interfaces/IpcUtils/IpcFacade.cc b/src/interfaces/IpcUtils/IpcFacade.cc
index 1139f3a..014a2f6 100644
--- a/src/interfaces/IpcUtils/IpcFacade.cc
+++ b/src/interfaces/IpcUtils/IpcFacade.cc
@@ -692,9 +692,11 @@ namespace PLEXIL
     debugMsg("IpcFacade:unsubscribe", " locking listeners mutex");
     {
       std::lock_guard<std::mutex> guard(m_listenersMutex);
-      std::remove(m_listenersToAll.begin(), m_listenersToAll.end(), listener);
-      for (ListenerMap::value_type pair : m_registeredListeners)
-        std::remove(pair.second.begin(), pair.second.end(), listener);
+      m_listenersToAll.erase(std::remove(m_listenersToAll.begin(), m_listenersToAll.end(), listener),
+                             m_listenersToAll.end());
+      for (ListenerMap::value_type &pair : m_registeredListeners)
+        pair.second.erase(std::remove(pair.second.begin(), pair.second.end(), listener),
+                          pair.second.end());
     }
     debugMsg("IpcFacade:unsubscribe", " unlocking listeners mutex");
   }
-- 
2.43.0


From c903d47c520c1df098ff3becafd92ed9cf10175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:57 +0000
Subject: [PATCH 075/119] fix: IpcAdapter: plan files named in messages were
 loaded as libraries

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index e7d4e97..a38473d 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -810,10 +810,14 @@ namespace PLEXIL
                   << stringMsg->stringValue << " not found" << std::endl;
         return;
       }
-      if (stringMsg->header.msgType == PlexilMsgType_AddPlan) {
-        getInterface().handleAddPlan(doc->document_element());
-        // Always notify immediately when adding a plan
-        getInterface().notifyOfExternalEvent();
+      if (stringMsg->header.msgType == PlexilMsgType_AddPlanFile) {
+        try {
+          getInterface().handleAddPlan(doc->document_element());
+          // Always notify immediately when adding a plan
+          getInterface().notifyOfExternalEvent();
+        } catch (ParserException const &e) {
+          std::cerr << "IpcAdapter: Error loading plan:\n " << e.what() << std::endl;
+        }
       }
       else {
         // No notification required
-- 
2.43.0


From bb748e7cf86314bba5720577ff86aa02f2d611bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:57 +0000
Subject: [PATCH 076/119] fix: IpcAdapter: a plan or library with errors ended
 the dispatch thread

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index a38473d..4426b34 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -815,13 +815,17 @@ namespace PLEXIL
           getInterface().handleAddPlan(doc->document_element());
           // Always notify immediately when adding a plan
           getInterface().notifyOfExternalEvent();
-        } catch (ParserException const &e) {
+        } catch (std::exception const &e) {
           std::cerr << "IpcAdapter: Error loading plan:\n " << e.what() << std::endl;
         }
       }
       else {
         // No notification required
-        getInterface().handleAddLibrary(doc.release());
+        try {
+          getInterface().handleAddLibrary(doc.release());
+        } catch (std::exception const &e) {
+          std::cerr << "IpcAdapter: Error loading library:\n " << e.what() << std::endl;
+        }
       }
     }
 
@@ -842,13 +846,17 @@ namespace PLEXIL
           getInterface().handleAddPlan(doc->document_element());
           // Always notify immediately when adding a plan
           getInterface().notifyOfExternalEvent();
-        } catch (ParserException const &e) {
+        } catch (std::exception const &e) {
           std::cerr << "IpcAdapter: Error loading plan:\n " << e.what() << std::endl;
         }
       }
       else {
         // No notification required
-        getInterface().handleAddLibrary(doc.release());
+        try {
+          getInterface().handleAddLibrary(doc.release());
+        } catch (std::exception const &e) {
+          std::cerr << "IpcAdapter: Error loading library:\n " << e.what() << std::endl;
+        }
       }
     }
 
-- 
2.43.0


From 5e2971ca58192e835de50dcc4075607877596374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:05 +0000
Subject: [PATCH 077/119] fix: IpcAdapter: a command which was malformed or
 could not be sent ended the executive

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 32 ++++++++++++-------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index 4426b34..1107a53 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -424,9 +424,9 @@ namespace PLEXIL
     {
       std::vector<Value> const &args = command->getArgValues();
       // Check for one argument, the message
-      assertTrueMsg(args.size() == 1,
+      checkInterfaceError(args.size() == 1,
                     "IpcAdapter: The SendMessage command requires exactly one argument");
-      assertTrueMsg(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
+      checkInterfaceError(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
                     "IpcAdapter: The argument to the SendMessage command, "
                     << args.front() << ", is not a valid String value");
       std::string const *theMessage;
@@ -448,10 +448,10 @@ namespace PLEXIL
     {
       std::vector<Value> const &args = command->getArgValues();
       // Check for two arguments, the message and the value
-      assertTrueMsg(args.size() == 2,
+      checkInterfaceError(args.size() == 2,
                     "IpcAdapter: SendReturnValue command requires exactly two arguments"
                     << "\n but was given " << args.size());
-      assertTrueMsg(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
+      checkInterfaceError(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
                     "IpcAdapter: The message name argument to the SendReturnValue command, "
                     << args.front() << ", is not a valid String value");
       const std::string *front;
@@ -459,7 +459,7 @@ namespace PLEXIL
       uint32_t serial;
       //grab serial from parameter
       std::string::size_type sep_pos = front->find(SERIAL_UID_SEPARATOR, 1);
-      assertTrueMsg(sep_pos != std::string::npos, "Could not find UID seperator in first parameter of return value");
+      checkInterfaceError(sep_pos != std::string::npos, "Could not find UID seperator in first parameter of return value");
       std::string const serial_string = front->substr(0, sep_pos);
       serial = atoi(serial_string.c_str());
       std::string front_string = front->substr(sep_pos + 1, front->size());
@@ -483,9 +483,9 @@ namespace PLEXIL
     {
       std::vector<Value> const &args = command->getArgValues();
       // Check for one argument, the message
-      assertTrueMsg(args.size() == 1,
+      checkInterfaceError(args.size() == 1,
                     "IpcAdapter: The ReceiveMessage command requires exactly one argument");
-      assertTrueMsg(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
+      checkInterfaceError(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
                     "IpcAdapter: The argument to the SendMessage command, "
                     << args.front()
                     << ", is not a valid String value");
@@ -505,10 +505,10 @@ namespace PLEXIL
     {
       std::vector<Value> const &args = command->getArgValues();
       // Check for one argument, the message
-      checkPlanError(args.size() == 1,
+      checkInterfaceError(args.size() == 1,
                      "IpcAdapter: The " << RECEIVE_COMMAND_COMMAND
                      << " command requires exactly one argument");
-      checkPlanError(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
+      checkInterfaceError(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
                     "IpcAdapter: The argument to the " << RECEIVE_COMMAND_COMMAND
                     << " command, " << args.front()
                     << ", is not a string");
@@ -533,10 +533,10 @@ namespace PLEXIL
     {
       std::vector<Value> const &args = command->getArgValues();
       // Check for one argument, the message
-      checkPlanError(args.size() == 1 || args.size() == 2,
+      checkInterfaceError(args.size() == 1 || args.size() == 2,
                     "IpcAdapter: The " << GET_PARAMETER_COMMAND
                      << " command requires either one or two arguments");
-      checkPlanError(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
+      checkInterfaceError(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
                     "IpcAdapter: The first argument to the " << GET_PARAMETER_COMMAND
                      << " command, " << args.front() << ", is not a string");
       int32_t id;
@@ -544,12 +544,12 @@ namespace PLEXIL
         // Default to parameter 0
         id = 0;
       else {
-        assertTrueMsg(args[1].isKnown() && args[1].valueType() == INTEGER_TYPE,
+        checkInterfaceError(args[1].isKnown() && args[1].valueType() == INTEGER_TYPE,
                       "IpcAdapter: The second argument to the "
                       << GET_PARAMETER_COMMAND << " command, " << args[1]
                       << ", is not an Integer");
         args[1].getValue(id);
-        assertTrueMsg(id >= 0,
+        checkInterfaceError(id >= 0,
                       "IpcAdapter: The second argument to the "
                       << GET_PARAMETER_COMMAND << " command, " << args[1]
                       << ", is not a valid index");
@@ -571,10 +571,10 @@ namespace PLEXIL
     {
       std::vector<Value> const &args = command->getArgValues();
       size_t nargs = args.size();
-      assertTrueMsg(nargs >= 2,
+      checkInterfaceError(nargs >= 2,
                     "IpcAdapter: The " << UPDATE_LOOKUP_COMMAND
                     << " command requires at least two arguments");
-      assertTrueMsg(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
+      checkInterfaceError(args.front().isKnown() && args.front().valueType() == STRING_TYPE,
                     "IpcAdapter: The argument to the " << UPDATE_LOOKUP_COMMAND
                     << " command, " << args.front() << ", is not a string");
 
@@ -652,7 +652,7 @@ namespace PLEXIL
                  << " publishing \"" << name << '"');
         serial = m_ipcFacade.publishCommand(name, args);
       }
-      assertTrueMsg(serial != IpcFacade::ERROR_SERIAL,
+      checkInterfaceError(serial != IpcFacade::ERROR_SERIAL,
                     "executeCommand: IPC Error, IPC_errno = " << m_ipcFacade.getError());
       // log ack and return variables in case we get values for them
       {
-- 
2.43.0


From 9aed0d10fcbc935116ab7dbac0420a36525d5f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:05 +0000
Subject: [PATCH 078/119] fix: IpcAdapter: messages could be lost or duplicated
 when they arrived while a command to receive them was issued

---
 src/interfaces/IpcAdapter/MessageQueueMap.cc | 93 ++++++++++----------
 src/interfaces/IpcAdapter/MessageQueueMap.hh | 15 ++--
 2 files changed, 54 insertions(+), 54 deletions(-)

diff --git a/src/interfaces/IpcAdapter/MessageQueueMap.cc b/src/interfaces/IpcAdapter/MessageQueueMap.cc
index 225b82a..b3a232c 100644
--- a/src/interfaces/IpcAdapter/MessageQueueMap.cc
+++ b/src/interfaces/IpcAdapter/MessageQueueMap.cc
@@ -59,10 +59,16 @@ namespace PLEXIL
    */
   void MessageQueueMap::addRecipient(const std::string& message, Command *cmd) {
     debugMsg("MessageQueueMap:addRecipient", ' ' << this << " for \"" << message << "\"");
-    PairingQueue* que = ensureQueue(message);
-    que->m_recipientQueue.push(cmd);
-    updateQueue(que);
-    debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << que->m_name << '"');
+    bool changed = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* que = ensureQueue(message);
+      que->m_recipientQueue.push_back(cmd);
+      changed = updateQueue(que);
+    }
+    if (changed)
+      m_execInterface.notifyOfExternalEvent();
+    debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << message << '"');
   }
 
   /**
@@ -72,13 +78,19 @@ namespace PLEXIL
    */
   void MessageQueueMap::addMessage(const std::string& message) {
     debugMsg("MessageQueueMap:addMessage", ' ' << this << " entered for \"" << message << "\"");
-    PairingQueue* pq = ensureQueue(message);
-    if (!m_allowDuplicateMessages)
-      while (!pq->m_messageQueue.empty())
-        pq->m_messageQueue.pop();
-    pq->m_messageQueue.emplace(Value(message));
-    updateQueue(pq);
-    debugMsg("MessageQueueMap:addMessage", ' ' << this << " Message \"" << pq->m_name << "\" added");
+    bool changed = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* pq = ensureQueue(message);
+      if (!m_allowDuplicateMessages)
+        while (!pq->m_messageQueue.empty())
+          pq->m_messageQueue.pop();
+      pq->m_messageQueue.emplace(Value(message));
+      changed = updateQueue(pq);
+    }
+    if (changed)
+      m_execInterface.notifyOfExternalEvent();
+    debugMsg("MessageQueueMap:addMessage", ' ' << this << " Message \"" << message << "\" added");
   }
 
   /**
@@ -90,14 +102,20 @@ namespace PLEXIL
    */
   void MessageQueueMap::addMessage(const std::string& message, const Value& param) {
     debugMsg("MessageQueueMap:addMessage", ' ' << this << " entered for \"" << message << "\"");
-    PairingQueue* pq = ensureQueue(message);
-    if (!m_allowDuplicateMessages)
-      while (!pq->m_messageQueue.empty())
-        pq->m_messageQueue.pop();
-    pq->m_messageQueue.emplace(param);
-    updateQueue(pq);
+    bool changed = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* pq = ensureQueue(message);
+      if (!m_allowDuplicateMessages)
+        while (!pq->m_messageQueue.empty())
+          pq->m_messageQueue.pop();
+      pq->m_messageQueue.emplace(param);
+      changed = updateQueue(pq);
+    }
+    if (changed)
+      m_execInterface.notifyOfExternalEvent();
     debugMsg("MessageQueueMap:addMessage",
-             ' ' << this << " Message \"" << pq->m_name << "\" added, value = \"" << param << '"');
+             ' ' << this << " Message \"" << message << "\" added, value = \"" << param << '"');
   }
 
   /**
@@ -117,37 +135,23 @@ namespace PLEXIL
     m_allowDuplicateMessages = flag;
   }
 
-  //! @brief Get the PairingQueue for this message, if it exists.
-  MessageQueueMap::PairingQueue* MessageQueueMap::getQueue(const std::string& message)
-  {
-    std::lock_guard<std::mutex> guard(m_mutex);
-    QueueMap::iterator it = m_map.find(message);
-    if (m_map.end() != it)
-      return it->second.get();
-    return nullptr;
-  }
-
   //! @brief Get or construct the PairingQueue for this message.
   MessageQueueMap::PairingQueue * MessageQueueMap::ensureQueue(const std::string& message)
   {
-    PairingQueue* result = nullptr;
-    {
-      std::lock_guard<std::mutex> guard(m_mutex);
-      QueueMap::iterator it = m_map.find(message);
-      if (m_map.end() == it) {
-        it = m_map.emplace(QueueMap::value_type(message,
-                                                std::unique_ptr<PairingQueue>(new PairingQueue(message)))).first;
-      }
-      return it->second.get();
+    QueueMap::iterator it = m_map.find(message);
+    if (m_map.end() == it) {
+      it = m_map.emplace(QueueMap::value_type(message,
+                                              std::unique_ptr<PairingQueue>(new PairingQueue(message)))).first;
+      debugMsg("MessageQueueMap:ensureQueue", " created new queue with name \"" << message << '"');
     }
-    debugMsg("MessageQueueMap:ensureQueue", " created new queue with name \"" << message << '"');
-    return result;
+    return it->second.get();
   }
 
   /**
    * @brief Resolves matches between messages and recipients. Should be called whenever updates occur to a queue.
+   * @return True if the exec should be notified, false otherwise.
    */
-  void MessageQueueMap::updateQueue(PairingQueue* queue)
+  bool MessageQueueMap::updateQueue(PairingQueue* queue)
   {
     debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name << " entered");
     MessageQueue& mq = queue->m_messageQueue;
@@ -159,13 +163,12 @@ namespace PLEXIL
       m_execInterface.handleCommandReturn(rq.front(), mq.front());
       debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name
                << " recipient inactive, ignoring");
-      rq.pop();
+      rq.pop_front();
       mq.pop();
     }
-    if (valChanged) {
-      debugMsg("MessageQueueMap:updateQueue", " Message \"" << queue->m_name << "\" paired and sent");
-      m_execInterface.notifyOfExternalEvent();
-    }
+    condDebugMsg(valChanged, "MessageQueueMap:updateQueue",
+                 " Message \"" << queue->m_name << "\" paired and sent");
+    return valChanged;
   }
 
 }
diff --git a/src/interfaces/IpcAdapter/MessageQueueMap.hh b/src/interfaces/IpcAdapter/MessageQueueMap.hh
index d38df4d..8b07819 100644
--- a/src/interfaces/IpcAdapter/MessageQueueMap.hh
+++ b/src/interfaces/IpcAdapter/MessageQueueMap.hh
@@ -103,7 +103,7 @@ namespace PLEXIL
     using MessageQueue = std::queue<Value, std::list<Value>>;
 
     //* @brief Data structure containing the invoking command, for identifying and storing recipients
-    using RecipientQueue = std::queue<Command *, std::list<Command *>>;
+    using RecipientQueue = std::list<Command *>;
 
     //* @brief Data queue structure associating a message string with a queue of recipients and a queue of messages. Only one queue should have items at a time. */
     struct PairingQueue
@@ -119,27 +119,24 @@ namespace PLEXIL
       ~PairingQueue() {}
     };
 
-    /**
-     * @brief Private function that returns the queue for the given message, if it exists.
-     */
-    PairingQueue* getQueue(const std::string& message);
-
     /**
      * @brief Private function that returns the queue for the given message. Creates a new queue
-     * if one does not already exist.
+     * if one does not already exist. Caller must hold m_mutex.
      */
     PairingQueue* ensureQueue(const std::string& message);
 
     /**
      * @brief Resolves matches between messages and recipients. Should be called whenever updates occur to a queue.
+     * Caller must hold m_mutex.
+     * @return True if the exec should be notified, false otherwise.
      */
-    void updateQueue(PairingQueue* queue);
+    bool updateQueue(PairingQueue* queue);
 
     //* @brief Map holding all message queues
     using QueueMap = std::map<std::string, std::unique_ptr<PairingQueue>>;
     QueueMap m_map;
 
-    //* @brief Semaphore for return values from LookupNow
+    //* @brief Protects the map and the queues
     std::mutex m_mutex;
 
     //* @brief The interface
-- 
2.43.0


From 8b2b9a5e6318eb4752cf0288b5ac07c94bda1f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:05 +0000
Subject: [PATCH 079/119] fix: IpcAdapter: an aborted ReceiveMessage,
 ReceiveCommand or GetParameter command swallowed the next message

---
 src/interfaces/IpcAdapter/IpcAdapter.cc      | 10 ++++++++++
 src/interfaces/IpcAdapter/MessageQueueMap.cc | 11 +++++++++++
 src/interfaces/IpcAdapter/MessageQueueMap.hh |  6 ++++++
 3 files changed, 27 insertions(+)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index 1107a53..5586285 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -340,6 +340,7 @@ namespace PLEXIL
 
       virtual void abortCommand(Command *cmd, AdapterExecInterface *intf) override
       {
+        m_adapter->forgetCommand(cmd);
         m_adapter->acknowledgeCommandAbort(cmd, intf);
       }
 
@@ -491,6 +492,7 @@ namespace PLEXIL
                     << ", is not a valid String value");
       std::string const *theMessage;
       args.front().getValuePointer(theMessage);
+      forgetCommand(command);
       m_messageQueues.addRecipient(*theMessage, command);
       intf->handleCommandAck(command, COMMAND_SENT_TO_SYSTEM);
       intf->notifyOfExternalEvent();
@@ -519,6 +521,7 @@ namespace PLEXIL
                << " for \"" << *cmdName << '"');
 
       std::string msgName(formatMessageName(*cmdName, RECEIVE_COMMAND_COMMAND));
+      forgetCommand(command);
       m_messageQueues.addRecipient(msgName, command);
       intf->handleCommandAck(command, COMMAND_SENT_TO_SYSTEM);
       intf->notifyOfExternalEvent();
@@ -560,6 +563,7 @@ namespace PLEXIL
                << " for \"" << *cmdName << "\" parameter # " << id);
 
       std::string msgName(formatMessageName(*cmdName, GET_PARAMETER_COMMAND, id));
+      forgetCommand(command);
       m_messageQueues.addRecipient(msgName, command);
       intf->handleCommandAck(command, COMMAND_SENT_TO_SYSTEM);
       intf->notifyOfExternalEvent();
@@ -665,6 +669,12 @@ namespace PLEXIL
       debugMsg("IpcAdapter:executeCommand", " command \"" << name << "\" sent.");
     }
 
+    //! The command is starting over, or no longer interested in an answer
+    void forgetCommand(Command *command)
+    {
+      m_messageQueues.removeRecipient(command);
+    }
+
     //! Acknowledge an abortCommand() call
     void acknowledgeCommandAbort(Command *command, AdapterExecInterface *intf)
     {
diff --git a/src/interfaces/IpcAdapter/MessageQueueMap.cc b/src/interfaces/IpcAdapter/MessageQueueMap.cc
index b3a232c..49e18df 100644
--- a/src/interfaces/IpcAdapter/MessageQueueMap.cc
+++ b/src/interfaces/IpcAdapter/MessageQueueMap.cc
@@ -71,6 +71,17 @@ namespace PLEXIL
     debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << message << '"');
   }
 
+  /**
+   * @brief Removes the command from any queue it is waiting in.
+   * @param cmd Pointer to the command.
+   * @note Always executed from the Exec thread.
+   */
+  void MessageQueueMap::removeRecipient(Command *cmd) {
+    std::lock_guard<std::mutex> guard(m_mutex);
+    for (QueueMap::value_type &entry : m_map)
+      entry.second->m_recipientQueue.remove(cmd);
+  }
+
   /**
    * @brief Adds the given message to its queue. If there is a recipient waiting for the message, it is sent immediately.
    * @param message The message string to be added
diff --git a/src/interfaces/IpcAdapter/MessageQueueMap.hh b/src/interfaces/IpcAdapter/MessageQueueMap.hh
index 8b07819..92213fa 100644
--- a/src/interfaces/IpcAdapter/MessageQueueMap.hh
+++ b/src/interfaces/IpcAdapter/MessageQueueMap.hh
@@ -61,6 +61,12 @@ namespace PLEXIL
      */
     void addRecipient(const std::string &message, Command *cmd);
 
+    /**
+     * @brief Removes the command from any queue it is waiting in.
+     * @param cmd Pointer to the command.
+     */
+    void removeRecipient(Command *cmd);
+
     /**
      * @brief Adds the given message to its queue. If there is a recipient
      * waiting for the message, it is sent immediately.
-- 
2.43.0


From c27296080fa5d31466e790d226b4a7e5e28f880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:05 +0000
Subject: [PATCH 080/119] fix: IpcAdapter: the answer to a command could arrive
 before the command was recorded, and was dropped

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index 5586285..23282c2 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -640,7 +640,10 @@ namespace PLEXIL
                  << args.front()
                  << "\"");
 
+      // Hold on to the mutex until the command is recorded,
+      // as the response may arrive before the call below returns.
       uint32_t serial;
+      std::unique_lock<std::mutex> guard(m_cmdMutex);
       size_t sep_pos = name.find_first_of(TRANSACTION_ID_SEPARATOR_CHAR);
       // decide to direct or publish command
       if (sep_pos != std::string::npos) {
@@ -659,12 +662,10 @@ namespace PLEXIL
       checkInterfaceError(serial != IpcFacade::ERROR_SERIAL,
                     "executeCommand: IPC Error, IPC_errno = " << m_ipcFacade.getError());
       // log ack and return variables in case we get values for them
-      {
-        std::lock_guard<std::mutex> guard(m_cmdMutex);
-        m_pendingCommands[serial] = command;
-      }
+      m_pendingCommands[serial] = command;
       // store ack
       intf->handleCommandAck(command, COMMAND_SENT_TO_SYSTEM);
+      guard.unlock();
       intf->notifyOfExternalEvent();
       debugMsg("IpcAdapter:executeCommand", " command \"" << name << "\" sent.");
     }
-- 
2.43.0


From 7f233d442e0b05490330e2786e0c23ea96997fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:05 +0000
Subject: [PATCH 081/119] fix: IpcAdapter: answers to aborted or earlier
 executions of a command were given to the current one

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 34 +++++++++++++++++--------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index 23282c2..f9958a2 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -640,6 +640,8 @@ namespace PLEXIL
                  << args.front()
                  << "\"");
 
+      forgetCommand(command);
+
       // Hold on to the mutex until the command is recorded,
       // as the response may arrive before the call below returns.
       uint32_t serial;
@@ -674,6 +676,14 @@ namespace PLEXIL
     void forgetCommand(Command *command)
     {
       m_messageQueues.removeRecipient(command);
+      std::lock_guard<std::mutex> guard(m_cmdMutex);
+      PendingCommandsMap::iterator it = m_pendingCommands.begin();
+      while (it != m_pendingCommands.end()) {
+        if (it->second == command)
+          it = m_pendingCommands.erase(it);
+        else
+          ++it;
+      }
     }
 
     //! Acknowledge an abortCommand() call
@@ -986,19 +996,18 @@ namespace PLEXIL
         return;
       }
 
-      Command *cmd = nullptr;
-      {
-        std::lock_guard<std::mutex> guard(m_cmdMutex);
-        PendingCommandsMap::iterator cit = m_pendingCommands.find(rv->requestSerial);
-        if (cit == m_pendingCommands.end()) {
-          warn("IpcAdapter: no lookup or command found for return values sequence");
-          return;
-        }
-
-        cmd = cit->second;
-        assertTrue_1(cmd);
+      // Keep the lock until the response is queued, so that the command
+      // can't be aborted or started over in between.
+      std::unique_lock<std::mutex> guard(m_cmdMutex);
+      PendingCommandsMap::iterator cit = m_pendingCommands.find(rv->requestSerial);
+      if (cit == m_pendingCommands.end()) {
+        warn("IpcAdapter: no lookup or command found for return values sequence");
+        return;
       }
 
+      Command *cmd = cit->second;
+      assertTrue_1(cmd);
+
       size_t nValues = msgs[0]->count;
       if (msgs[1]->count == MSG_COUNT_CMD_ACK) {
         assertTrueMsg(nValues == 1,
@@ -1012,12 +1021,15 @@ namespace PLEXIL
         CommandHandleValue handle;
         ack.getValue(handle);
         getInterface().handleCommandAck(cmd, handle);
+        guard.unlock();
         getInterface().notifyOfExternalEvent();
       }
       else {
         debugMsg("IpcAdapter:handleReturnValuesSequence",
                  " processing command return value for command " << cmd->getName());
+        m_pendingCommands.erase(cit); // one return value per command
         getInterface().handleCommandReturn(cmd, parseReturnValue(msgs));
+        guard.unlock();
         getInterface().notifyOfExternalEvent();
       }
     }
-- 
2.43.0


From 3f267a7f27c70c88119441722829264e643dc115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 082/119] fix: IpcAdapter: a second answer to a lookup was
 taken for the answer to the next one

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 35 ++++++++++++++-----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index f9958a2..a369756 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -775,11 +775,17 @@ namespace PLEXIL
 
       std::lock_guard<std::mutex> g(m_lookupMutex);
       rcvr->update(m_pendingLookupResult);
+      m_pendingLookupResult.setUnknown();
+    }
 
-      // Clean up
+    //! Pass on the first answer to the pending LookupNow; the request ends here.
+    //! @note Called from the dispatch thread with m_lookupMutex held.
+    void answerPendingLookup(Value const &result)
+    {
+      m_pendingLookupResult = result;
       m_pendingLookupSerial = 0;
       m_pendingLookupState = State();
-      m_pendingLookupResult.setUnknown();
+      m_lookupSem.post();
     }
 
     /**
@@ -968,9 +974,8 @@ namespace PLEXIL
       // Check to see if a LookupNow is waiting on this value
       {
         std::lock_guard<std::mutex> g(m_lookupMutex);
-        if (m_pendingLookupState == state) {
-          m_pendingLookupResult = result;
-          m_lookupSem.post();
+        if (m_pendingLookupSerial && m_pendingLookupState == state) {
+          answerPendingLookup(result);
           return;
         }
       }
@@ -985,15 +990,16 @@ namespace PLEXIL
     {
       const PlexilReturnValuesMsg* rv = (const PlexilReturnValuesMsg*) msgs[0];
       //lock mutex to ensure all sending procedures are complete.
-      if (rv->requestSerial == m_pendingLookupSerial) {
-        // LookupNow for which we are awaiting data
+      {
         std::lock_guard<std::mutex> guard(m_lookupMutex);
-        debugMsg("IpcAdapter:handleReturnValuesSequence",
-                 " processing value(s) for a pending LookupNow");
-        m_pendingLookupResult = parseReturnValue(msgs);
-        // *** TODO: check for error
-        m_lookupSem.post();
-        return;
+        if (m_pendingLookupSerial && rv->requestSerial == m_pendingLookupSerial) {
+          // LookupNow for which we are awaiting data
+          debugMsg("IpcAdapter:handleReturnValuesSequence",
+                   " processing value(s) for a pending LookupNow");
+          answerPendingLookup(parseReturnValue(msgs));
+          // *** TODO: check for error
+          return;
+        }
       }
 
       // Keep the lock until the response is queued, so that the command
@@ -1218,8 +1224,7 @@ namespace PLEXIL
     State m_pendingLookupState;
 
     //* @brief Serial # of current pending LookupNow request, or 0
-    // g++ 4.8.x doesn't support std::atomic_uint32_t
-    std::atomic<uint32_t> m_pendingLookupSerial;
+    uint32_t m_pendingLookupSerial;
   };
 
   //
-- 
2.43.0


From 5602242e7496efe77ab0fddec83c662a3d807f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 083/119] fix: IpcAdapter: a telemetry update which arrived
 during a lookup was lost

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index a369756..8fcc2d5 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -976,10 +976,9 @@ namespace PLEXIL
         std::lock_guard<std::mutex> g(m_lookupMutex);
         if (m_pendingLookupSerial && m_pendingLookupState == state) {
           answerPendingLookup(result);
-          return;
         }
       }
-      // Otherwise process normally
+      // The update may be newer than another answer to the lookup
       getInterface().handleValueChange(state, result);
       getInterface().notifyOfExternalEvent();
     }
-- 
2.43.0


From 05a449ab9135dfaaa49340852de765cc5db52109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 084/119] fix: IpcAdapter: a lookup which could not be sent was
 waited for forever

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index 8fcc2d5..170cb7d 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -764,6 +764,14 @@ namespace PLEXIL
           // Publish and see if anyone responds
           m_pendingLookupSerial = m_ipcFacade.publishLookupNow(stateName, params);
         }
+
+        // Don't wait for the answer to a question which wasn't asked
+        if (m_pendingLookupSerial == IpcFacade::ERROR_SERIAL) {
+          m_pendingLookupSerial = 0;
+          m_pendingLookupState = State();
+          reportInterfaceError("IpcAdapter: lookup of " << state
+                               << " could not be sent, IPC error " << m_ipcFacade.getError());
+        }
       }
 
       // Wait for results
-- 
2.43.0


From 1d6c25da60a91954ca10206edbe99adbfa994fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 085/119] fix: IpcAdapter: external lookups could be read while
 they were being updated

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 45 ++++++++++---------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index 170cb7d..90c4a2b 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -603,7 +603,7 @@ namespace PLEXIL
         state.setParameter(i - 2, args[i]);
 
       {
-        std::lock_guard<std::mutex> guard(m_cmdMutex);
+        std::lock_guard<std::mutex> guard(m_lookupMutex);
         //Set value internally
         m_externalLookups[state] = args[1];
       }
@@ -1062,41 +1062,30 @@ namespace PLEXIL
       for (size_t i = 1 ; i <= nParms ; ++i)
         lookup.setParameter(i - 1, getPlexilMsgValue(msgs[i]));
 
-      Value const *resultPtr = nullptr;
-      ExternalLookupMap::const_iterator it;
+      bool found = false;
+      Value result;
       {
-        std::lock_guard<std::mutex> guard(m_lookupMutex);      
-        it = m_externalLookups.find(lookup);
-        if (it != m_externalLookups.end())
-          resultPtr = &it->second;
+        std::lock_guard<std::mutex> guard(m_lookupMutex);
+        ExternalLookupMap::const_iterator it = m_externalLookups.find(lookup);
+        if (it == m_externalLookups.end() && nParms > 0) {
+          // See if name is declared, and return default value if so
+          lookup.setParameterCount(0);
+          it = m_externalLookups.find(lookup);
+        }
+        if (it != m_externalLookups.end()) {
+          found = true;
+          result = it->second;
+        }
       }
 
-      if (resultPtr) {
+      if (found) {
         debugMsg("IpcAdapter:handleLookupNowMessages",
                  " Publishing value of external lookup \"" << lookup
-                 << "\" with internal value '" << *resultPtr << "'");
-        m_ipcFacade.publishReturnValues(msg->header.serial, msg->header.senderUID, *resultPtr);
+                 << "\" with internal value '" << result << "'");
+        m_ipcFacade.publishReturnValues(msg->header.serial, msg->header.senderUID, result);
         return;
       }
 
-      if (nParms > 0) {
-        // See if name is declared, and return default value if so
-        lookup.setParameterCount(0);
-        {
-          std::lock_guard<std::mutex> guard(m_lookupMutex);      
-          it = m_externalLookups.find(lookup);
-          if (it != m_externalLookups.end())
-            resultPtr = &it->second;
-        }
-        if (resultPtr) {
-          debugMsg("IpcAdapter:handleLookupNowMessages",
-                   " Publishing default value of external lookup \"" << name
-                   << "\" = '" << (*it).second << "'");
-          m_ipcFacade.publishReturnValues(msg->header.serial, msg->header.senderUID, *resultPtr);
-          return;
-        } 
-      }
-
       // Ignore silently if we're not declared to handle it
       // Tracing here for debugging purposes
       debugMsg("IpcAdapter:handleLookupNow",
-- 
2.43.0


From 774cb14937444f4608d66c2551d26ee2e0a50d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 086/119] fix: IpcAdapter: the echo of an earlier UpdateLookup
 overwrote the value of a later one

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index 90c4a2b..06df871 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -955,6 +955,10 @@ namespace PLEXIL
         return;
       }
 
+      // UpdateLookup has already delivered our own updates
+      if (m_ipcFacade.getUID() == msgs[0]->senderUID)
+        return;
+
       size_t nValues = msgs[0]->count;
       if (!nValues) {
         warn("IpcAdapter: Telemetry message for "
-- 
2.43.0


From 8d3e60235b22732648f418a611faf66fb9c85eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 087/119] fix: IpcAdapter: an update without values never
 finished

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index 06df871..8aaf00f 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -809,7 +809,10 @@ namespace PLEXIL
       std::vector<std::pair<std::string, Value> > args(update->getPairs().begin(),
                                                        update->getPairs().end());
       if(args.empty()) {
-        debugMsg("IpcAdapter:sendPlannerUpdate", "Emtpy update");
+        debugMsg("IpcAdapter:sendPlannerUpdate", "Empty update");
+        // Nothing to send, so nothing to wait for
+        intf->handleUpdateAck(update, true);
+        intf->notifyOfExternalEvent();
         return;
       }
 
-- 
2.43.0


From 83c957688db236e7715f2a135f816f20734224aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:53 +0000
Subject: [PATCH 088/119] fix: DIV and MOD of the least Integer by -1 killed
 the executive

---
 src/expr/ArithmeticOperators.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/expr/ArithmeticOperators.cc b/src/expr/ArithmeticOperators.cc
index 075771d..7271a0b 100644
--- a/src/expr/ArithmeticOperators.cc
+++ b/src/expr/ArithmeticOperators.cc
@@ -29,10 +29,19 @@
 #include "PlanError.hh"
 
 #include <cmath>
+#include <limits>
 
 namespace PLEXIL
 {
 
+  //! The one quotient of two integers which is no Integer; computing it traps.
+  template <typename NUM>
+  static bool divisionOverflows(NUM a, NUM b)
+  {
+    return std::numeric_limits<NUM>::is_integer
+      && b == (NUM) -1 && a == std::numeric_limits<NUM>::min();
+  }
+
   // TODO:
   // - Overflow/underflow checks
 
@@ -222,7 +231,8 @@ namespace PLEXIL
   {
     NUM temp0, temp1;
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1))
-        || temp1 == 0)
+        || temp1 == 0
+        || divisionOverflows(temp0, temp1))
       return false;
     result = temp0 / temp1;
     return true;
@@ -252,7 +262,7 @@ namespace PLEXIL
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1))
         || temp1 == 0)
       return false;
-    result = temp0 % temp1;
+    result = divisionOverflows(temp0, temp1) ? 0 : temp0 % temp1;
     return true;
   }
 
-- 
2.43.0


From 5343f2483bee2eed976d3d26eaa1dc5f89fa09ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:17 +0000
Subject: [PATCH 089/119] fix: OR of three or more operands was false when some
 were unknown

---
 src/expr/BooleanOperators.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/expr/BooleanOperators.cc b/src/expr/BooleanOperators.cc
index d7d2f73..d7a3f57 100644
--- a/src/expr/BooleanOperators.cc
+++ b/src/expr/BooleanOperators.cc
@@ -100,7 +100,7 @@ namespace PLEXIL
   bool BooleanOr::operator()(Boolean &result, Function const &args) const
   {
     size_t const n = args.size();
-    bool anyKnown = false;
+    bool allKnown = true;
     for (size_t i = 0; i < n; ++i) {
       bool temp;
       if (args[i]->getValue(temp)) {
@@ -109,12 +109,14 @@ namespace PLEXIL
           result = true;
           return true;
         }
-        anyKnown = true; // but no true value yet
       }
+      else
+        allKnown = false;
     }
-    if (anyKnown)
-      result = false; // or we would have returned above
-    return anyKnown;
+    // No true value: false only if every arg is known
+    if (allKnown)
+      result = false;
+    return allKnown;
   }
 
   //
-- 
2.43.0


From 844bbba48bcc451b6eefa20a35b52f8edc98b251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:17 +0000
Subject: [PATCH 090/119] fix: XOR of three or more operands was never known

---
 src/expr/BooleanOperators.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/BooleanOperators.cc b/src/expr/BooleanOperators.cc
index d7a3f57..5bc5760 100644
--- a/src/expr/BooleanOperators.cc
+++ b/src/expr/BooleanOperators.cc
@@ -225,7 +225,7 @@ namespace PLEXIL
     for (size_t i = 0; i < n; ++i) {
       bool temp2;
       // Return unknown if any arg is unknown
-      if (args[i]->getValue(temp2))
+      if (!args[i]->getValue(temp2))
         return false;
       temp1 = (temp1 != temp2);
     }
-- 
2.43.0


From aec1e93add6c108644b0b97ab8cc773cdbffc11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:57 +0000
Subject: [PATCH 091/119] fix: STRLEN, ArraySize and ArrayMaxSize in a Real
 context threw out of the executive's step

---
 src/expr/OperatorImpl.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr/OperatorImpl.cc b/src/expr/OperatorImpl.cc
index 135f372..f9af746 100644
--- a/src/expr/OperatorImpl.cc
+++ b/src/expr/OperatorImpl.cc
@@ -182,7 +182,7 @@ namespace PLEXIL
   bool OperatorImpl<Integer>::operator()(Real &result, Expression const *arg) const
   {
     Integer temp;
-    if (!this->calc(temp, arg))
+    if (!(*this)(temp, arg))
       return false;
     result = (Real) temp;
     return true;
@@ -193,7 +193,7 @@ namespace PLEXIL
                                          Expression const *arg1) const
   {
     Integer temp;
-    if (!this->calc(temp, arg0, arg1))
+    if (!(*this)(temp, arg0, arg1))
       return false;
     result = (Real) temp;
     return true;
@@ -202,7 +202,7 @@ namespace PLEXIL
   bool OperatorImpl<Integer>::operator()(Real &result, Function const &args) const
   {
     Integer temp;
-    if (!this->calc(temp, args))
+    if (!(*this)(temp, args))
       return false;
     result = (Real) temp;
     return true;
-- 
2.43.0


From 078b40538c4fce0edde38c63b911baaaf3d8dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:23 +0000
Subject: [PATCH 092/119] fix: a resource file which cannot be read hung the
 executive

---
 src/intfc/ResourceArbiterInterface.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/intfc/ResourceArbiterInterface.cc b/src/intfc/ResourceArbiterInterface.cc
index 503812a..3b6cdfe 100644
--- a/src/intfc/ResourceArbiterInterface.cc
+++ b/src/intfc/ResourceArbiterInterface.cc
@@ -411,8 +411,7 @@ namespace PLEXIL
 
       m_resourceHierarchy.clear();
       std::string dataStr;
-      while (!s.eof()) {
-        std::getline(s, dataStr); // clears dataStr
+      while (std::getline(s, dataStr)) { // clears dataStr
         if (dataStr.empty())
           continue;
 
-- 
2.43.0


From ebcdb9a76491f9882750b61392df58f751e61e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:23 +0000
Subject: [PATCH 093/119] fix: a debug configuration file which cannot be read
 killed the executive

---
 src/utils/DebugMessage.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utils/DebugMessage.cc b/src/utils/DebugMessage.cc
index 3f1f9ed..47b1ef2 100644
--- a/src/utils/DebugMessage.cc
+++ b/src/utils/DebugMessage.cc
@@ -168,9 +168,11 @@ namespace PLEXIL
       enableMatchingDebugMessages(input.substr(left, right - left));
     }
 
-    assertTrue_2(istr.eof(),
-                 "I/O error while reading debug configuration file");
-    return istr.eof();
+    if (!istr.eof()) {
+      warn("I/O error while reading debug configuration file");
+      return false;
+    }
+    return true;
   }
 
 } // namespace PLEXIL
-- 
2.43.0


From 160194a7d56c0e1c938db8f4eadcfa60fbe93a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:23 +0000
Subject: [PATCH 094/119] fix: ExecApplication::run threw when the worker
 thread could not be created

---
 src/app-framework/ExecApplication.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index ea8a53c..dcb707a 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -868,7 +868,13 @@ namespace PLEXIL
     bool spawnWorkerThread()
     {
       debugMsg("ExecApplication:run", " Spawning top level thread");
-      m_workerThread = std::thread([this]() -> void {this->worker();});
+      try {
+        m_workerThread = std::thread([this]() -> void {this->worker();});
+      }
+      catch (std::system_error const &e) {
+        warn("ExecApplication: failed to create worker thread: " << e.what());
+        return false;
+      }
       debugMsg("ExecApplication:run", " Top level thread running");
       return m_workerThread.joinable();
     }
-- 
2.43.0


From 9a6f2c04b63da241759e55a74470c17d6ccd872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:23 +0000
Subject: [PATCH 095/119] fix: universalExec could not continue without an
 interface configuration

---
 src/universal-exec/UniversalExec.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/universal-exec/UniversalExec.cc b/src/universal-exec/UniversalExec.cc
index 85e8960..90278bb 100644
--- a/src/universal-exec/UniversalExec.cc
+++ b/src/universal-exec/UniversalExec.cc
@@ -229,13 +229,14 @@ int main_internal(int argc, char** argv)
                 << ":\n " 
                 << parseResult.description()
                 << "\nContinuing without interface configuration" << std::endl;
+      configDoc.reset(); // may have been partly read
     }
 	debugMsg("UniversalExec", " got configuration XML starting with " << configDoc.document_element().name());
   }
 
   // get Interfaces element
   pugi::xml_node configElt;
-  if (configDoc.empty()) {
+  if (configDoc.document_element().empty()) {
 	// Construct default interface XML
 	configElt = configDoc.append_child(PLEXIL::InterfaceSchema::INTERFACES_TAG);
 	// Add a time adapter
-- 
2.43.0


From 45a968a0527f008e41ee9590e21e161de07c26f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:10 +0000
Subject: [PATCH 096/119] fix: a timer wakeup in progress used a PosixTimebase
 or TimeAdapter already deleted

---
 src/app-framework/PosixTimebase.cc | 142 +++++++++++++++++++++++------
 1 file changed, 112 insertions(+), 30 deletions(-)

diff --git a/src/app-framework/PosixTimebase.cc b/src/app-framework/PosixTimebase.cc
index 97e9fd9..8a64abd 100644
--- a/src/app-framework/PosixTimebase.cc
+++ b/src/app-framework/PosixTimebase.cc
@@ -32,13 +32,39 @@
 
 #include "timespec-utils.hh"
 
+#include <algorithm>
+#include <condition_variable>
 #include <csignal>
 #include <ctime>
+#include <map>
 #include <mutex>
+#include <thread>
+#include <vector>
 
 namespace PLEXIL
 {
 
+  class PosixTimebase;
+
+  //! \struct PosixWakeups
+  //! \brief Knows which timebases may be called by their timers.
+  //! \note A timer notification runs on a thread of its own, which may begin
+  //!       after the timer, and even the timebase, has been deleted.
+  struct PosixWakeups
+  {
+    std::mutex mutex;
+    std::condition_variable done;           //!< Notified when a wakeup has ended.
+    std::map<int, PosixTimebase *> running; //!< The timebases which have been started.
+    int next = 0;                           //!< Last key used in \p running.
+  };
+
+  static PosixWakeups &posixWakeups()
+  {
+    // Never deleted, as a wakeup may come when the process is ending
+    static PosixWakeups *sl_wakeups = new PosixWakeups;
+    return *sl_wakeups;
+  }
+
   //! \class PosixTimebase
   //! \brief An implementation of Timebase for platforms which
   //!        implement the POSIX advanced timer feature.
@@ -53,13 +79,18 @@ namespace PLEXIL
     PosixTimebase(WakeupFn const &fn)
       : Timebase(fn),
         m_timerMutex(),
-        m_timer()
+        m_wakeups(),
+        m_timer(),
+        m_key(0)
     {
       debugMsg("PosixTimebase", " constructor");
     }
 
     //! \brief Virtual destructor.
-    virtual ~PosixTimebase() = default;
+    virtual ~PosixTimebase()
+    {
+      PosixTimebase::stop();
+    }
 
     //
     // Timebase class public API
@@ -94,15 +125,22 @@ namespace PLEXIL
       // Construct the timer
       struct sigevent event;
       event.sigev_notify = SIGEV_THREAD;
-      event.sigev_value.sival_ptr = static_cast<void *>(this);
-      event.sigev_notify_function = reinterpret_cast<void(*)(union sigval)>(&timebaseWakeup);
+      {
+        PosixWakeups &w = posixWakeups();
+        std::lock_guard<std::mutex> const guard(w.mutex);
+        m_key = ++w.next;
+        w.running[m_key] = this;
+      }
+      event.sigev_value.sival_int = m_key;
+      event.sigev_notify_function = &timerWakeup;
       event.sigev_notify_attributes = nullptr;
 
-      checkInterfaceError(!timer_create(CLOCK_REALTIME,
-                                        &event,
-                                        &m_timer),
-                          "PosixTimebase: timer_create failed, errno = "
-                          << errno << ":\n " << strerror(errno));
+      if (timer_create(CLOCK_REALTIME, &event, &m_timer)) {
+        int err = errno;
+        endWakeups();
+        reportInterfaceError("PosixTimebase: timer_create failed, errno = "
+                             << err << ":\n " << strerror(err));
+      }
       m_started = true;
 
       if (!m_interval_usec) {
@@ -138,29 +176,34 @@ namespace PLEXIL
 
     virtual void stop()
     {
-      std::lock_guard<std::mutex> const guard(m_timerMutex);
-      if (!m_started) {
-        debugMsg("PosixTimebase:stop", " not running, ignored");
-        return;
+      {
+        std::lock_guard<std::mutex> const guard(m_timerMutex);
+        if (!m_started) {
+          debugMsg("PosixTimebase:stop", " not running, ignored");
+          return;
+        }
+
+        debugMsg("PosixTimebase:stop", " entered");
+        m_started = false;
+
+        // Whether tick or deadline, disable the timer
+        struct itimerspec tymrSpec = {{0, 0}, {0, 0}};
+        if (timer_settime(m_timer,
+                          0, // flags
+                          &tymrSpec,
+                          nullptr)) {
+          warn("PosixTimebase::stop: timer_settime failed, errno = "
+               << errno << ":\n " << strerror(errno));
+        }
+
+        if (timer_delete(m_timer)) {
+          warn("PosixTimebase:stop: timer_delete failed, errno = "
+               << errno << ":\n " << strerror(errno));
+        }
       }
 
-      debugMsg("PosixTimebase:stop", " entered");
-      m_started = false;
-
-      // Whether tick or deadline, disable the timer
-      struct itimerspec tymrSpec = {{0, 0}, {0, 0}};
-      if (timer_settime(m_timer,
-                        0, // flags
-                        &tymrSpec,
-                        nullptr)) {
-        warn("PosixTimebase::stop: timer_settime failed, errno = "
-             << errno << ":\n " << strerror(errno));
-      }
-
-      if (timer_delete(m_timer)) {
-        warn("PosixTimebase:stop: timer_delete failed, errno = "
-             << errno << ":\n " << strerror(errno));
-      }
+      // A wakeup in progress may be waiting for m_timerMutex.
+      endWakeups();
       debugMsg("PosixTimebase:stop", " complete");
     }
 
@@ -220,12 +263,51 @@ namespace PLEXIL
 
   private:
 
+    //! \brief Accept no more wakeups, and wait for those in progress to end,
+    //!        other than one on the calling thread.
+    void endWakeups()
+    {
+      PosixWakeups &w = posixWakeups();
+      std::unique_lock<std::mutex> lock(w.mutex);
+      w.running.erase(m_key);
+      std::thread::id const self = std::this_thread::get_id();
+      w.done.wait(lock,
+                  [this, self]() -> bool {
+                    return std::all_of(m_wakeups.begin(), m_wakeups.end(),
+                                       [self](std::thread::id id) -> bool { return id == self; });
+                  });
+    }
+
+    //! \brief The function called by the timer, on a thread of its own.
+    //! \param val The key of the timebase.
+    static void timerWakeup(union sigval val)
+    {
+      PosixWakeups &w = posixWakeups();
+      std::thread::id const self = std::this_thread::get_id();
+      PosixTimebase *tb = nullptr;
+      {
+        std::lock_guard<std::mutex> const guard(w.mutex);
+        std::map<int, PosixTimebase *>::const_iterator const it = w.running.find(val.sival_int);
+        if (it == w.running.end()) {
+          return; // stopped, and perhaps deleted, meanwhile
+        }
+        tb = it->second;
+        tb->m_wakeups.push_back(self);
+      }
+      timebaseWakeup(tb);
+      std::lock_guard<std::mutex> const guard(w.mutex);
+      tb->m_wakeups.erase(std::find(tb->m_wakeups.begin(), tb->m_wakeups.end(), self));
+      w.done.notify_all();
+    }
+
     //
     // Member variables
     //
 
     std::mutex m_timerMutex;  //!< Serializes use of the timer with stop().
+    std::vector<std::thread::id> m_wakeups; //!< The wakeups in progress. Guarded by the mutex of PosixWakeups.
     timer_t    m_timer;       //!< The timer.
+    int        m_key;         //!< Key of this timebase in PosixWakeups.
   };
 
   void registerPosixTimebase()
-- 
2.43.0


From 42bd137262d872b511486cda78b9a6c1aefb0545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:08 +0000
Subject: [PATCH 097/119] fix: universalExec crashed when asked for a viewer
 with -v

---
 src/universal-exec/UniversalExec.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/universal-exec/UniversalExec.cc b/src/universal-exec/UniversalExec.cc
index 90278bb..b99c2c4 100644
--- a/src/universal-exec/UniversalExec.cc
+++ b/src/universal-exec/UniversalExec.cc
@@ -28,6 +28,7 @@
 #include "Debug.hh"
 #include "Error.hh"
 #include "ExecApplication.hh"
+#include "ExecListenerHub.hh"
 #include "InterfaceManager.hh"
 #include "InterfaceSchema.hh"
 #include "lifecycle-utils.h"
@@ -272,9 +273,10 @@ int main_internal(int argc, char** argv)
 #ifdef HAVE_LUV_LISTENER
   // Construct interface to the PLEXIL Viewer if requested on the command line
   if (luvRequest) {
-    _app->configuration()->addExecListener(makeLuvListener(luvHost.c_str(),
-                                                           luvPort,
-                                                           luvBlock));
+    // The configuration can't take listeners until the application is initialized
+    _app->listenerHub()->addListener(makeLuvListener(luvHost.c_str(),
+                                                     luvPort,
+                                                     luvBlock));
   }
 #endif
 
-- 
2.43.0


From 3b4185d4880b315b0b6fc7b9a0278cc47b72b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:08 +0000
Subject: [PATCH 098/119] fix: listener made by makeLuvListener kept a handle
 on a deleted XML document

---
 src/interfaces/LuvListener/LuvListener.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/interfaces/LuvListener/LuvListener.cc b/src/interfaces/LuvListener/LuvListener.cc
index e31a1e4..c2d4968 100644
--- a/src/interfaces/LuvListener/LuvListener.cc
+++ b/src/interfaces/LuvListener/LuvListener.cc
@@ -97,6 +97,19 @@ namespace PLEXIL
     }
 
     //* Destructor.
+    /**
+     * @brief Constructor from explicit parameters; there is no configuration XML.
+     */
+    LuvListenerImpl(char const *hostname, uint16_t port, bool block)
+      : LuvListener(pugi::xml_node()),
+        m_socket(nullptr),
+        m_host(hostname),
+        m_port(port),
+        m_block(block),
+        m_ignoreConnectFailure(true)
+    {
+    }
+
     virtual ~LuvListenerImpl()
     {
       closeSocket();
@@ -318,13 +331,7 @@ namespace PLEXIL
                                unsigned int port,
                                bool block)
   {
-    pugi::xml_document doc;
-    pugi::xml_node toplevel = doc.append_child("Listener");
-    toplevel.append_attribute("ListenerType").set_value("LuvListener");
-    toplevel.append_attribute(LUV_HOSTNAME_ATTR).set_value(hostname);
-    toplevel.append_attribute(LUV_PORT_ATTR).set_value(port);
-    toplevel.append_attribute(LUV_BLOCKING_ATTR).set_value(block);
-    return new LuvListenerImpl(toplevel);
+    return new LuvListenerImpl(hostname, port, block);
   }
 
 } // namespace PLEXIL
-- 
2.43.0


From db5ca8bf6afab32445400da143e6582ae72c689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:16 +0000
Subject: [PATCH 099/119] fix: simulator crashed when the last option had no
 argument

---
 src/apps/StandAloneSimulator/PlexilSimulator.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/apps/StandAloneSimulator/PlexilSimulator.cc b/src/apps/StandAloneSimulator/PlexilSimulator.cc
index 89f4bca..622efe2 100644
--- a/src/apps/StandAloneSimulator/PlexilSimulator.cc
+++ b/src/apps/StandAloneSimulator/PlexilSimulator.cc
@@ -69,6 +69,16 @@ int main(int argc, char** argv)
         usage();
         return 0;
       }
+      else if (i + 1 == argc
+               && (strcmp(argv[i], "-d") == 0
+                   || strcmp(argv[i], "-central") == 0
+                   || strcmp(argv[i], "-n") == 0
+                   || strcmp(argv[i], "-t") == 0)) {
+        std::cerr << "Error: missing argument to the '" << argv[i] << "' option."
+                  << std::endl;
+        usage(std::cerr);
+        return 1;
+      }
       else if (strcmp(argv[i], "-d") == 0)
         debugConfig = argv[++i];
       else if (strcmp(argv[i], "-central") == 0)
-- 
2.43.0


From 420b01e532e4b4f22ab5711cc9a8b89393a0e295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:16 +0000
Subject: [PATCH 100/119] fix: simulator crashed on a command received while it
 was starting or stopping

---
 src/apps/StandAloneSimulator/Agenda.cc        |  9 +++++-
 .../StandAloneSimulator/PlexilSimulator.cc    | 11 +++++--
 src/apps/StandAloneSimulator/Simulator.cc     | 29 ++++++++++---------
 3 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/apps/StandAloneSimulator/Agenda.cc b/src/apps/StandAloneSimulator/Agenda.cc
index 533673e..895118b 100644
--- a/src/apps/StandAloneSimulator/Agenda.cc
+++ b/src/apps/StandAloneSimulator/Agenda.cc
@@ -34,6 +34,7 @@
 
 #include "timeval-utils.hh"
 
+#include <algorithm> // std::stable_sort()
 #include <deque>
 #include <memory>
 #include <mutex>
@@ -87,7 +88,13 @@ public:
     for (AgendaQueue::iterator it = m_queue.begin();
          it != m_queue.end();
          it++)
-      it->first = it->first + tym;
+      if (it->second->getMessageType() == MSG_TELEMETRY)
+        it->first = it->first + tym;
+
+    // Command responses may already have been scheduled
+    std::stable_sort(m_queue.begin(), m_queue.end(),
+                     [](AgendaEntry const &a, AgendaEntry const &b) -> bool
+                     { return a.first < b.first; });
   }
     
   // Only valid when not empty.
diff --git a/src/apps/StandAloneSimulator/PlexilSimulator.cc b/src/apps/StandAloneSimulator/PlexilSimulator.cc
index 622efe2..e8b1388 100644
--- a/src/apps/StandAloneSimulator/PlexilSimulator.cc
+++ b/src/apps/StandAloneSimulator/PlexilSimulator.cc
@@ -156,16 +156,21 @@ at the top of the script."
   //
   
   std::unique_ptr<IpcCommRelay> plexilRelay(new IpcCommRelay(agentName));
+
+  // Simulator instance is responsible for deleting map, agenda
+  // It must exist before the relay can receive any messages.
+  std::unique_ptr<Simulator> mySimulator(makeSimulator(plexilRelay.get(), mgrMap, agenda));
+
   if (!plexilRelay->initialize(centralhost)) {
     warn("PlexilSimulator: failed to initialize IPC. Exiting.");
     return 1;
   }
 
-  // Simulator instance is responsible for deleting map, agenda
-  std::unique_ptr<Simulator> mySimulator(makeSimulator(plexilRelay.get(), mgrMap, agenda));
-
   // Run until interrupted
   mySimulator->simulatorTopLevel();
 
+  // Stop receiving messages before the simulator goes away
+  plexilRelay.reset();
+
   return 0;
 }
diff --git a/src/apps/StandAloneSimulator/Simulator.cc b/src/apps/StandAloneSimulator/Simulator.cc
index b3eb851..bffe8ec 100644
--- a/src/apps/StandAloneSimulator/Simulator.cc
+++ b/src/apps/StandAloneSimulator/Simulator.cc
@@ -129,23 +129,22 @@ public:
     if (!m_TimingService.defaultInitializeSignalHandling())
       return;
 
-    m_Started = true;
-
     timeval now;
     gettimeofday(&now, nullptr);
     debugMsg("Simulator:start", " at "
              << std::setiosflags(std::ios_base::fixed) << std::setprecision(6)
              << timevalToDouble(now));
 
-    // Schedule initial telemetry responses
-    m_Agenda->setSimulatorStartTime(now);
-  
-    //
-    // Set the timer for the first event, if any
-    //
-
     {
       std::lock_guard<std::mutex> guard(m_mutex);
+
+      // Schedule initial telemetry responses
+      m_Agenda->setSimulatorStartTime(now);
+
+      //
+      // Set the timer for the first event, if any
+      //
+      m_Started = true;
       scheduleNextResponse();
     }
 
@@ -175,11 +174,14 @@ public:
     //
     // Clean up
     //
-    m_TimingService.stopTimer();
-    m_TimingService.restoreSignalHandling();
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      m_TimingService.stopTimer();
+      m_TimingService.restoreSignalHandling();
+      m_Started = false;
+    }
 
     m_Stop = false;
-    m_Started = false;
 
     debugMsg("Simulator:simulatorTopLevel", " cleaning up");
   }
@@ -276,7 +278,8 @@ private:
    */
   void scheduleNextResponse()
   {
-    if (m_Agenda->empty())
+    // The timer may only be used while simulatorTopLevel() is handling signals
+    if (!m_Started || m_Agenda->empty())
       return;
 
     timeval const time = m_Agenda->nextResponseTime();
-- 
2.43.0


From 20a08af9db321a414787d19fdd0be48070b1171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:27 +0000
Subject: [PATCH 101/119] fix: simulator lost timer signals to its message
 receiving thread

---
 src/apps/StandAloneSimulator/PlexilSimulator.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/apps/StandAloneSimulator/PlexilSimulator.cc b/src/apps/StandAloneSimulator/PlexilSimulator.cc
index e8b1388..260e834 100644
--- a/src/apps/StandAloneSimulator/PlexilSimulator.cc
+++ b/src/apps/StandAloneSimulator/PlexilSimulator.cc
@@ -34,6 +34,7 @@
 
 #include "Debug.hh"
 
+#include <csignal>
 #include <fstream>
 
 #include <cstring>
@@ -161,6 +162,14 @@ at the top of the script."
   // It must exist before the relay can receive any messages.
   std::unique_ptr<Simulator> mySimulator(makeSimulator(plexilRelay.get(), mgrMap, agenda));
 
+  // Only the simulator's main loop may receive these signals, so the threads
+  // started by the relay have to be started with all of them blocked.
+  sigset_t loopSignals;
+  sigemptyset(&loopSignals);
+  for (int sig : {SIGALRM, SIGINT, SIGHUP, SIGQUIT, SIGTERM})
+    sigaddset(&loopSignals, sig);
+  pthread_sigmask(SIG_BLOCK, &loopSignals, nullptr);
+
   if (!plexilRelay->initialize(centralhost)) {
     warn("PlexilSimulator: failed to initialize IPC. Exiting.");
     return 1;
-- 
2.43.0


From 59dca2a25baa0e42ed0a76b32aa83c2be8200053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:39 +0000
Subject: [PATCH 102/119] fix: simulator ignored requests received just after
 it connected

---
 src/apps/StandAloneSimulator/IpcCommRelay.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/apps/StandAloneSimulator/IpcCommRelay.cc b/src/apps/StandAloneSimulator/IpcCommRelay.cc
index 3dd2a3a..5135247 100644
--- a/src/apps/StandAloneSimulator/IpcCommRelay.cc
+++ b/src/apps/StandAloneSimulator/IpcCommRelay.cc
@@ -54,15 +54,17 @@ bool IpcCommRelay::initialize(const std::string& centralhost)
     return false;
   }
 
+  // Subscribe only to messages we care about,
+  // before any can arrive
+  m_ipcFacade.subscribe(&m_listener, PlexilMsgType_Command);
+  m_ipcFacade.subscribe(&m_listener, PlexilMsgType_LookupNow);
+
   // Spawn listener thread
   if (IPC_OK != m_ipcFacade.start()) {
     warn("IpcCommRelay: Unable to start IPC dispatch thread");
     return false;
   }
 
-  // Subscribe only to messages we care about
-  m_ipcFacade.subscribe(&m_listener, PlexilMsgType_Command);
-  m_ipcFacade.subscribe(&m_listener, PlexilMsgType_LookupNow);
   debugMsg("IpcCommRelay:initialize", " succeeded");
   return true;
 }
-- 
2.43.0


From 6a079b5216116154b65073ce2df44b0983ede900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:07 +0000
Subject: [PATCH 103/119] fix: default value of an InOut array parameter was
 refused

---
 src/xml-parser/parseNode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index 77c23dc..c8a805e 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -1199,7 +1199,7 @@ namespace PLEXIL
       // Parse and check initial value expression
       bool initGarbage, garbage;
       Expression *initExp = parseVariableInitializer(initGarbage, node, inOutXml, isCall);
-      Expression *var = createAssignable(inOutXml, node, garbage);
+      Expression *var = createExpression(inOutXml, node, garbage);
       assertTrue_1(garbage); // better be something we can delete!
       if (!node->addLocalVariable(name, var)) {
         delete var;
-- 
2.43.0


From 004ae2cde140b7d8a41539da9d6470c875d5c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:53 +0000
Subject: [PATCH 104/119] fix: TestExec never ran the plan of a SendPlan script
 entry

---
 src/apps/TestExec/TestExternalInterface.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/apps/TestExec/TestExternalInterface.cc b/src/apps/TestExec/TestExternalInterface.cc
index 48a3dac..bc67f4b 100644
--- a/src/apps/TestExec/TestExternalInterface.cc
+++ b/src/apps/TestExec/TestExternalInterface.cc
@@ -247,8 +247,8 @@ namespace PLEXIL
     checkError(strlen(filename) > 0,
                "SendPlan element has no file attribute");
 
-    pugi::xml_document* doc = new pugi::xml_document();
-    pugi::xml_parse_result parseResult = doc->load_file(filename);
+    pugi::xml_document doc;
+    pugi::xml_parse_result parseResult = doc.load_file(filename);
     assertTrueMsg(parseResult.status == pugi::status_ok, 
                   "Error parsing plan file " << elt.attribute("file").value()
                   << ": " << parseResult.description());
@@ -257,7 +257,7 @@ namespace PLEXIL
              "Sending plan from file " << elt.attribute("file").value());
     NodeImpl *root = nullptr;
     try {
-      root = parsePlan(doc->document_element().child("PlexilPlan"));
+      root = parsePlan(doc.document_element());
     }
     catch (ParserException const &e) {
       std::cerr << "Error parsing plan XML: \n" << e.what() << std::endl;
-- 
2.43.0


From 8d61d3bd3fbdc47eaeaa96040029d8c91f41b233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:53 +0000
Subject: [PATCH 105/119] fix: TestExec used uninitialized pointers when its
 plan or script was malformed

---
 src/apps/TestExec/exec-test-runner.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/apps/TestExec/exec-test-runner.cc b/src/apps/TestExec/exec-test-runner.cc
index efe110c..99a6c43 100644
--- a/src/apps/TestExec/exec-test-runner.cc
+++ b/src/apps/TestExec/exec-test-runner.cc
@@ -355,7 +355,7 @@ int run(int argc, char** argv)
 
   // Load the plan
   {
-    pugi::xml_document *planDoc;
+    pugi::xml_document *planDoc = nullptr;
     try {
       planDoc = loadXmlFile(planName);
       if (!planDoc)
@@ -408,7 +408,7 @@ int run(int argc, char** argv)
 
   // load script
   {
-    pugi::xml_document *scriptDoc;
+    pugi::xml_document *scriptDoc = nullptr;
     try {
       scriptDoc = loadXmlFile(scriptName);
       if (!scriptDoc)
-- 
2.43.0


From afcd301a1b0c20bdf40fd42703857d0d16221f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:53 +0000
Subject: [PATCH 106/119] fix: TestExec aborted on a wrong entry in its script

---
 src/apps/TestExec/exec-test-runner.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/apps/TestExec/exec-test-runner.cc b/src/apps/TestExec/exec-test-runner.cc
index 99a6c43..d6da6ce 100644
--- a/src/apps/TestExec/exec-test-runner.cc
+++ b/src/apps/TestExec/exec-test-runner.cc
@@ -442,7 +442,19 @@ int run(int argc, char** argv)
 
       return 1;
     }
-    intf.run(scriptElement);
+    try {
+      intf.run(scriptElement);
+    }
+    catch (std::exception const &e) {
+      warn("Error running script " << scriptName << ":\n" << e.what());
+      delete scriptDoc;
+
+      delete g_exec;
+      g_exec = nullptr;
+      g_dispatcher = nullptr;
+
+      return 1;
+    }
     debugMsg("Time", "Time spent in execution: " << clock() - time);
     delete scriptDoc;
   }
-- 
2.43.0


From aa5d9ef069b602e1860ae4015b388119f60948aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:53 +0000
Subject: [PATCH 107/119] fix: array value could not have an unknown element
 after a known one

---
 src/value/Value.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/Value.cc b/src/value/Value.cc
index 9ea0967..4bb0914 100644
--- a/src/value/Value.cc
+++ b/src/value/Value.cc
@@ -300,7 +300,7 @@ namespace PLEXIL
         eltType = itype;
       else if (eltType == INTEGER_TYPE && itype == REAL_TYPE)
         eltType = itype; // promote int to real
-      else if (eltType != itype) {
+      else if (itype != UNKNOWN_TYPE && eltType != itype) {
         reportPlanError("Value constructor: Inconsistent value types in vector");
         m_known = false;
       }
-- 
2.43.0


From 1172b4de6e4295734c89adb9d74f35db8cd7c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:14 +0000
Subject: [PATCH 108/119] fix: listeners were told the last outcome of a step
 for every transition in it

---
 src/exec/NodeTransition.hh                          | 13 ++++++++++---
 src/exec/PlexilExec.cc                              |  4 +++-
 src/interfaces/LuvListener/LuvFormat.cc             |  8 ++++----
 .../PlanDebugListener/PlanDebugListener.cc          |  2 +-
 4 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/exec/NodeTransition.hh b/src/exec/NodeTransition.hh
index 2211677..b9fc2a0 100644
--- a/src/exec/NodeTransition.hh
+++ b/src/exec/NodeTransition.hh
@@ -42,20 +42,27 @@ namespace PLEXIL
     Node *node;          //!< The Node being transitioned.
     NodeState oldState;  //!< The previous state of the Node.
     NodeState newState;  //!< The new state of the Node.
+    NodeOutcome outcome; //!< The outcome of the Node after the transition.
+    FailureType failure; //!< The failure type of the Node after the transition.
 
     //! \brief Default constructor.
     NodeTransition()
       : node(),
         oldState(INACTIVE_STATE),
-        newState(INACTIVE_STATE)
+        newState(INACTIVE_STATE),
+        outcome(NO_OUTCOME),
+        failure(NO_FAILURE)
     {
     }
 
     //! \brief Trivial constructor
-    NodeTransition(Node *nod, NodeState oldStat, NodeState newStat)
+    NodeTransition(Node *nod, NodeState oldStat, NodeState newStat,
+                   NodeOutcome outcm = NO_OUTCOME, FailureType fail = NO_FAILURE)
       : node(nod),
         oldState(oldStat),
-        newState(newStat)
+        newState(newStat),
+        outcome(outcm),
+        failure(fail)
     {
     }
 
diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index e43ccb7..51450c7 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -354,7 +354,9 @@ namespace PLEXIL
             // After transition, old state is lost, so use cached state
             m_transitionsToPublish.emplace_back(NodeTransition(node,
                                                                oldState,
-                                                               node->getState()));
+                                                               node->getState(),
+                                                               node->getOutcome(),
+                                                               node->getFailureType()));
 #ifndef NO_DEBUG_MESSAGE_SUPPORT 
           ++microStepCount;
 #endif
diff --git a/src/interfaces/LuvListener/LuvFormat.cc b/src/interfaces/LuvListener/LuvFormat.cc
index d2c52cf..1420b80 100644
--- a/src/interfaces/LuvListener/LuvFormat.cc
+++ b/src/interfaces/LuvListener/LuvFormat.cc
@@ -189,14 +189,14 @@ namespace PLEXIL {
     simpleTextElement(s, NODE_STATE_TAG, nodeStateName(trans.newState).c_str());
 
     // add outcome
-    if (trans.node->getOutcome() != NO_OUTCOME)
+    if (trans.outcome != NO_OUTCOME)
       simpleTextElement(s, NODE_OUTCOME_TAG,
-                        outcomeName(trans.node->getOutcome()).c_str());
+                        outcomeName(trans.outcome).c_str());
 
     // add failure type
-    if (trans.node->getFailureType() != NO_FAILURE)
+    if (trans.failure != NO_FAILURE)
       simpleTextElement(s, NODE_FAILURE_TYPE_TAG,
-                        failureTypeName(trans.node->getFailureType()).c_str());
+                        failureTypeName(trans.failure).c_str());
       
     // add the condition states
     formatConditions(s, trans.node);
diff --git a/src/interfaces/PlanDebugListener/PlanDebugListener.cc b/src/interfaces/PlanDebugListener/PlanDebugListener.cc
index 55d81de..dd5ee98 100644
--- a/src/interfaces/PlanDebugListener/PlanDebugListener.cc
+++ b/src/interfaces/PlanDebugListener/PlanDebugListener.cc
@@ -69,7 +69,7 @@ namespace PLEXIL
                    " Node '" << node->getNodeId() <<
                    "' finished at " << std::fixed << std::setprecision(6) <<
                    node->getCurrentStateStartTime() << " (" <<
-                   outcomeName(node->getOutcome()) << ")");
+                   outcomeName(trans.outcome) << ")");
       condDebugMsg((trans.newState == EXECUTING_STATE),
                    "Node:clock",
                    " Node '" << node->getNodeId() <<
-- 
2.43.0


From cf06a6a2e8363cf4362809c49600cf6943049962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:39 +0000
Subject: [PATCH 109/119] fix: debug messages changed how plans print numbers

---
 src/utils/Debug.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils/Debug.hh b/src/utils/Debug.hh
index afb8146..1fb96ff 100644
--- a/src/utils/Debug.hh
+++ b/src/utils/Debug.hh
@@ -129,7 +129,13 @@ inline bool readDebugConfigStream(std::istream & /* is */)
 #define condDebugMsg(cond, marker, data) { \
   static PLEXIL::DebugMessage debug_msg(marker);     \
   if (debug_msg.enabled && (cond)) { \
-    PLEXIL::getDebugOutputStream() << "[" << marker << "]" << data << std::endl; \
+    /* plans may print to the same stream: leave its format as it was */ \
+    std::ostream &debug_strm = PLEXIL::getDebugOutputStream(); \
+    std::ios_base::fmtflags const debug_flags = debug_strm.flags(); \
+    std::streamsize const debug_precision = debug_strm.precision(); \
+    debug_strm << "[" << marker << "]" << data << std::endl; \
+    debug_strm.flags(debug_flags); \
+    debug_strm.precision(debug_precision); \
   } \
 }
 
-- 
2.43.0


From 6788dd98ca913c13f389012946938fc8db24d9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:49 +0000
Subject: [PATCH 110/119] fix: a plan's failure type stayed after a later
 iteration did not fail

---
 src/app-framework/Launcher.cc | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/app-framework/Launcher.cc b/src/app-framework/Launcher.cc
index 77f4054..beea8c5 100644
--- a/src/app-framework/Launcher.cc
+++ b/src/app-framework/Launcher.cc
@@ -96,21 +96,20 @@ namespace PLEXIL
         m_interface->handleValueChange(State(PLAN_STATE_STATE, nodeIdValue),
                                        Value(nodeStateName(newState)));
 
-        NodeOutcome o = node->getOutcome();
+        NodeOutcome o = t.outcome;
         if (o != NO_OUTCOME) {
           // Report the outcome
           debugMsg("LauncherListener:notify",
                    ' ' << node->getNodeId() << " outcome " << outcomeName(o));
           m_interface->handleValueChange(State(PLAN_OUTCOME_STATE, nodeIdValue),
                                          Value(outcomeName(o)));
-          FailureType f = node->getFailureType();
-          if (f != NO_FAILURE) {
-            // Report the failure type
-            debugMsg("LauncherListener:notify",
-                     ' ' << node->getNodeId() << " failure " << failureTypeName(f));
-            m_interface->handleValueChange(State(PLAN_FAILURE_TYPE_STATE, nodeIdValue),
-                                           Value(failureTypeName(f)));
-          }
+          // Report the failure type, UNKNOWN if the plan did not fail
+          // (it may have failed the last time around, if it repeats).
+          FailureType f = t.failure;
+          debugMsg("LauncherListener:notify",
+                   ' ' << node->getNodeId() << " failure " << failureTypeName(f));
+          m_interface->handleValueChange(State(PLAN_FAILURE_TYPE_STATE, nodeIdValue),
+                                         f == NO_FAILURE ? Value() : Value(failureTypeName(f)));
         }
 
         // Be sure to wake the exec
-- 
2.43.0


From a2046856b04b724c3f16e1f5807691ca604432ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:36 +0000
Subject: [PATCH 111/119] fix: simulator lost the last entry of a script
 without a final newline

---
 src/apps/StandAloneSimulator/LineInStream.cc             | 2 ++
 src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/apps/StandAloneSimulator/LineInStream.cc b/src/apps/StandAloneSimulator/LineInStream.cc
index 0c6471f..e9cade8 100644
--- a/src/apps/StandAloneSimulator/LineInStream.cc
+++ b/src/apps/StandAloneSimulator/LineInStream.cc
@@ -91,6 +91,8 @@ std::istream &LineInStream::getLine()
                  " ignoring blank or comment line");
   }
   while (ignoreLine && m_filestream.good() && !m_filestream.eof());
+  if (ignoreLine)
+    m_linebuf.clear(); // nothing left in the file
 
   debugMsg("LineInStream:getLine",
            " line = \"" << m_linebuf << "\"");
diff --git a/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc b/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
index 62714eb..5426f9b 100644
--- a/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
+++ b/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
@@ -87,7 +87,8 @@ public:
     Value returnValue;
     // Return value is on next line
     instream.getLine();
-    if (instream.eof()) {
+    // The last line of the file need not end in a newline
+    if (instream.eof() && instream.getLineStream().str().empty()) {
       std::cerr << "Error: file " << instream.getFileName()
                 << ", line " << instream.getLineCount()
                 << ": premature end of file reading return value for "
-- 
2.43.0


From 1ba05df4b673752345e9d91f5185b7c85e178af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:00 +0000
Subject: [PATCH 112/119] fix: an element of a read-only array could be
 assigned

---
 src/xml-parser/ArrayReferenceFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml-parser/ArrayReferenceFactory.cc b/src/xml-parser/ArrayReferenceFactory.cc
index 7171123..b0b7fbe 100644
--- a/src/xml-parser/ArrayReferenceFactory.cc
+++ b/src/xml-parser/ArrayReferenceFactory.cc
@@ -186,6 +186,7 @@ namespace PLEXIL
         delete arrayExpr;
       if (indexCreated)
         delete indexExpr;
+      throw;
     }
 
     wasCreated = true;
-- 
2.43.0


From d5ab5461301f9ee608a8c03af5e4266022b6568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:21 +0000
Subject: [PATCH 113/119] fix: a declared command called without its arguments
 was accepted

---
 src/xml-parser/commandXmlParser.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/xml-parser/commandXmlParser.cc b/src/xml-parser/commandXmlParser.cc
index bd51465..9df0568 100644
--- a/src/xml-parser/commandXmlParser.cc
+++ b/src/xml-parser/commandXmlParser.cc
@@ -383,27 +383,29 @@ namespace PLEXIL
 
     // Optional arguments
     temp = temp.next_sibling();
+    size_t n = 0;
     if (temp) {
-      size_t n = 0;
       xml_node arg;
       for (arg = temp.first_child(); arg; arg = arg.next_sibling())
         ++n;
-      if (cmdSym) {
-        // Check argument count against command declaration
-        checkParserExceptionWithLocation(n == cmdSym->parameterCount()
-                                         || (cmdSym->anyParameters() && n > cmdSym->parameterCount()),
-                                         temp,
-                                         "Command " << cmdSym->name() << " expects "
-                                         << (cmdSym->anyParameters() ? "at least " : "")
-                                         << cmdSym->parameterCount() << " arguments, but was supplied "
-                                         << n);
-      }
+    }
+    if (cmdSym) {
+      // Check argument count against command declaration
+      checkParserExceptionWithLocation(n == cmdSym->parameterCount()
+                                       || (cmdSym->anyParameters() && n > cmdSym->parameterCount()),
+                                       temp ? temp : cmdXml,
+                                       "Command " << cmdSym->name() << " expects "
+                                       << (cmdSym->anyParameters() ? "at least " : "")
+                                       << cmdSym->parameterCount() << " arguments, but was supplied "
+                                       << n);
+    }
+    if (temp) {
       if (n) {
         ExprVec *argVec = makeExprVec(n);
         cmd->setArgumentVector(argVec);
 
         size_t i = 0;
-        for (arg = temp.first_child(); arg; arg = arg.next_sibling(), ++i) {
+        for (xml_node arg = temp.first_child(); arg; arg = arg.next_sibling(), ++i) {
           bool wasCreated = false;
           Expression *thisArg = createExpression(arg, node, wasCreated);
           argVec->setArgument(i, thisArg, wasCreated);
-- 
2.43.0


From 183c5f02cd80d5268ef3c9f56aebffc7dac18cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:19 +0000
Subject: [PATCH 114/119] fix: comparing a Date or Duration for equality raised
 an internal error

---
 src/expr/Comparisons.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr/Comparisons.cc b/src/expr/Comparisons.cc
index 356e713..673c528 100644
--- a/src/expr/Comparisons.cc
+++ b/src/expr/Comparisons.cc
@@ -129,6 +129,8 @@ namespace PLEXIL
       // else fall through to Real case
 
     case REAL_TYPE:
+    case DATE_TYPE:
+    case DURATION_TYPE:
       return compareEqual<Real>(result, argA, argB);
 
     case STRING_TYPE:
-- 
2.43.0


From 1c7a6948c32a6a1e56a2312231283fac18e7711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:46 +0000
Subject: [PATCH 115/119] fix: a Real tolerance of an Integer lookup raised an
 internal error

---
 src/intfc/Lookup.cc | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 9c70094..c88a200 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -35,7 +35,8 @@
 #include "StateCache.hh"
 #include "ValueType.hh"
 
-#include <cmath>  // fabs()
+#include <cmath>  // ceil(), fabs()
+#include <limits>
 #include <memory>
 
 namespace PLEXIL
@@ -563,6 +564,33 @@ namespace PLEXIL
 
   };
 
+  //! \brief Get the value of a tolerance expression, as the type of the lookup.
+  //! \param tolerance The tolerance expression.
+  //! \param result Place to store the tolerance.
+  //! \return true if the tolerance is known, false otherwise.
+  static bool getTolerance(Expression const *tolerance, Real &result)
+  {
+    if (!tolerance->getValue(result))
+      return false;
+    result = fabs(result);
+    return true;
+  }
+
+  //! \note The tolerance of an Integer lookup can be a Real.
+  //!       Integers differ by at least a Real exactly when
+  //!       they differ by at least its ceiling.
+  static bool getTolerance(Expression const *tolerance, Integer &result)
+  {
+    Real temp;
+    if (!getTolerance(tolerance, temp))
+      return false;
+    temp = ceil(temp);
+    result = temp < (Real) std::numeric_limits<Integer>::max()
+      ? (Integer) temp
+      : std::numeric_limits<Integer>::max();
+    return true;
+  }
+
   //! \class ThresholdCacheImpl
   //! \brief Implementation class for Lookup threshold caching,
   //!        templated by value type of the threshold.
@@ -589,9 +617,7 @@ namespace PLEXIL
     {
       check_error_1(tolerance); // paranoid check
       NUM newTol;
-      if (tolerance->getValue(newTol)) {
-        if (newTol < 0)
-          newTol = -newTol;
+      if (getTolerance(tolerance, newTol)) {
         debugMsg("ThresholdCache:toleranceChanged",
                  " returning " << (newTol != m_tolerance));
         return newTol != m_tolerance;
@@ -617,9 +643,7 @@ namespace PLEXIL
       debugMsg("ThresholdCache:setThresholds", " entered");
       check_error_1(value); // paranoid check
       NUM base, tol;
-      if (tolerance->getValue(tol)) {
-        if (tol < 0)
-          tol = -tol;
+      if (getTolerance(tolerance, tol)) {
         debugMsg("ThresholdCache:setThresholds", " tolerance is " << tol);
       }
       else {
-- 
2.43.0


From ecb3a4c57f8fd3c7993149cc833aae0bea081a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:18 +0000
Subject: [PATCH 116/119] fix: a refused plan's symbols and nodes were never
 released

---
 src/xml-parser/parsePlan.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/xml-parser/parsePlan.cc b/src/xml-parser/parsePlan.cc
index 1d267ea..e1b5488 100644
--- a/src/xml-parser/parsePlan.cc
+++ b/src/xml-parser/parsePlan.cc
@@ -35,6 +35,8 @@
 
 #include "pugixml.hpp"
 
+#include <memory>
+
 using pugi::xml_document;
 using pugi::xml_node;
 using pugi::xml_parse_result;
@@ -131,24 +133,22 @@ namespace PLEXIL
   {
     debugMsg("parsePlan", "entered");
     // Perform surface checks & log global symbols
-    SymbolTable *symtab = checkPlan(xml);
-    NodeImpl *result = nullptr;
-    result = constructPlan(xml, symtab, nullptr); // can throw ParserException
-    pushSymbolTable(symtab);
+    std::unique_ptr<SymbolTable> symtab(checkPlan(xml));
+    // constructPlan() and finalizeNode() can throw ParserException
+    std::unique_ptr<NodeImpl> result(constructPlan(xml, symtab.get(), nullptr));
+    pushSymbolTable(symtab.get());
     try {
-      finalizeNode(result, xml.child(NODE_TAG));
+      finalizeNode(result.get(), xml.child(NODE_TAG));
     }
     catch (...) {
       popSymbolTable();
-      delete symtab;
       throw;
     }
 
     popSymbolTable();
-    delete symtab;
 
     // Normal return
-    return result;
+    return result.release();
   }
 
 } // namespace PLEXIL
-- 
2.43.0


From 186070076ede0091e54f9a5170f40cfdbdc2af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:24 +0000
Subject: [PATCH 117/119] fix: expressions of a refused plan were never
 released

---
 src/xml-parser/ArrayReferenceFactory.cc | 15 +++++++--
 src/xml-parser/LookupFactory.cc         | 13 +++++---
 src/xml-parser/OperationFactory.cc      | 43 ++++++++++++++-----------
 src/xml-parser/commandXmlParser.cc      | 13 ++++++--
 src/xml-parser/parseAssignment.cc       |  2 +-
 5 files changed, 55 insertions(+), 31 deletions(-)

diff --git a/src/xml-parser/ArrayReferenceFactory.cc b/src/xml-parser/ArrayReferenceFactory.cc
index b0b7fbe..e737566 100644
--- a/src/xml-parser/ArrayReferenceFactory.cc
+++ b/src/xml-parser/ArrayReferenceFactory.cc
@@ -157,7 +157,16 @@ namespace PLEXIL
     bool arrayCreated = false;
     bool indexCreated = false;
     
-    parseArrayElement(expr, node, arrayExpr, indexExpr, arrayCreated, indexCreated);
+    try {
+      parseArrayElement(expr, node, arrayExpr, indexExpr, arrayCreated, indexCreated);
+    }
+    catch (...) {
+      if (arrayCreated)
+        delete arrayExpr;
+      if (indexCreated)
+        delete indexExpr;
+      throw;
+    }
 
     wasCreated = true;
     return new ArrayReference(arrayExpr, indexExpr, arrayCreated, indexCreated);
@@ -175,13 +184,13 @@ namespace PLEXIL
     bool arrayCreated = false;
     bool indexCreated = false;
     
-    parseArrayElement(expr, node, arrayExpr, indexExpr, arrayCreated, indexCreated);
     try {
+      parseArrayElement(expr, node, arrayExpr, indexExpr, arrayCreated, indexCreated);
       checkParserExceptionWithLocation(arrayExpr->isAssignable(),
                                        expr,
                                        "Can't create a writeable array reference on a read-only array expression");
     }
-    catch (ParserException & e) {
+    catch (...) {
       if (arrayCreated)
         delete arrayExpr;
       if (indexCreated)
diff --git a/src/xml-parser/LookupFactory.cc b/src/xml-parser/LookupFactory.cc
index aec5174..ef91867 100644
--- a/src/xml-parser/LookupFactory.cc
+++ b/src/xml-parser/LookupFactory.cc
@@ -169,9 +169,6 @@ namespace PLEXIL
     bool stateNameGarbage = false;
     Expression *stateName = createExpression(stateNameXml.first_child(), node, stateNameGarbage);
     ValueType stateNameType = stateName->valueType();
-    checkParserExceptionWithLocation(stateNameType == STRING_TYPE || stateNameType == UNKNOWN_TYPE,
-                                     stateNameXml.first_child(),
-                                     "createExpression: Lookup name must be a string expression");
 
     // Type checking support
     Symbol const *lkup = nullptr;
@@ -199,6 +196,10 @@ namespace PLEXIL
     // Count args, then build ExprVec of appropriate size
     ExprVec *argVec = nullptr;
     try {
+      checkParserExceptionWithLocation(stateNameType == STRING_TYPE || stateNameType == UNKNOWN_TYPE,
+                                       stateNameXml.first_child(),
+                                       "createExpression: Lookup name must be a string expression");
+
       size_t nargs = std::distance(argsXml.begin(), argsXml.end());
       if (lkup) {
         // Check argument count against command declaration
@@ -243,7 +244,7 @@ namespace PLEXIL
           return makeLookupOnChange(stateName, stateNameGarbage, returnType,
                                     tol, tolGarbage, argVec);
         }
-        catch (ParserException &e) {
+        catch (...) {
           if (tolGarbage)
             delete tol;
           throw;
@@ -252,8 +253,10 @@ namespace PLEXIL
       else
         return makeLookup(stateName, stateNameGarbage, returnType, argVec);
     }
-    catch (ParserException &e) {
+    catch (...) {
       delete argVec;
+      if (stateNameGarbage)
+        delete stateName;
       throw;
     }
   }
diff --git a/src/xml-parser/OperationFactory.cc b/src/xml-parser/OperationFactory.cc
index 681a6c5..ae485dc 100644
--- a/src/xml-parser/OperationFactory.cc
+++ b/src/xml-parser/OperationFactory.cc
@@ -35,6 +35,8 @@
 
 #include "pugixml.hpp"
 
+#include <sstream>
+
 namespace PLEXIL
 {
 
@@ -89,35 +91,38 @@ namespace PLEXIL
       size_t i = 0;
       try {
         for (pugi::xml_node subexp : expr.children()) {
-          bool created;
+          bool created = false;
           Expression *arg = createExpression(subexp, node, created);
           args[i] = arg;
           argCreated[i] = created;
           argTypes[i] = arg->valueType();
           ++i;
         }
+
+        Operator const *oper = m_operation->getOperator(argTypes, desiredType);
+        if (!oper) {
+          std::ostringstream types;
+          for (size_t j = 0; j < n; ++j)
+            types << (j ? ", " : "") << valueTypeName(argTypes[j]);
+          reportParserExceptionWithLocation(expr,
+                                            "OperationFactory::allocate: no operator found for "
+                                            << m_operation->getName()
+                                            << "\n Arg types " << types.str());
+        }
+        Function *result = m_operation->constructFunction(oper, n);
+
+        for (size_t j = 0 ; j < n; ++j) {
+          result->setArgument(j, args[j], argCreated[j]);
+        }
+        wasCreated = true;
+        return result;
       }
-      catch (ParserException & /* e */) {
+      catch (...) {
         for (size_t j = 0; j < i; j++)
-          if (argCreated[i])
-            delete args[i];
+          if (argCreated[j])
+            delete args[j];
         throw;
       }
-
-      Operator const *oper = m_operation->getOperator(argTypes, desiredType);
-      checkParserExceptionWithLocation(oper,
-                                       expr,
-                                       "OperationFactory::allocate: no operator found for "
-                                       << m_operation->getName()
-                                       << "\n Arg types " << valueTypeName(argTypes[0])
-                                       << ", " << valueTypeName(argTypes[1]));
-      Function *result = m_operation->constructFunction(oper, n);
-
-      for (size_t j = 0 ; j < n; ++j) {
-        result->setArgument(j, args[j], argCreated[j]);
-      }
-      wasCreated = true;
-      return result;
     }
 
   private:
diff --git a/src/xml-parser/commandXmlParser.cc b/src/xml-parser/commandXmlParser.cc
index 9df0568..cc8611b 100644
--- a/src/xml-parser/commandXmlParser.cc
+++ b/src/xml-parser/commandXmlParser.cc
@@ -262,6 +262,8 @@ namespace PLEXIL
     ResourceSpecList *resources =
       new ResourceSpecList(std::distance(rlist.begin(), rlist.end()));
     size_t n = 0;
+    bool isGarbage = false;
+    Expression *exp = nullptr; // not owned by the resource yet
     try {
       for (xml_node resourceElt = rlist.first_child(); 
            resourceElt;
@@ -273,8 +275,7 @@ namespace PLEXIL
              rtemp = rtemp.next_sibling()) {
           char const* tag = rtemp.name();
           size_t taglen = strlen(tag);
-          bool isGarbage = false;
-          Expression *exp = nullptr;
+          isGarbage = false;
           switch (taglen) {
           case 12: // ResourceName
             assertTrueMsg(!strcmp(RESOURCE_NAME_TAG, tag),
@@ -284,6 +285,7 @@ namespace PLEXIL
                                              rtemp.first_child(),
                                              RESOURCE_NAME_TAG << " expression is not String valued in Command Resource");
             rspec.setNameExpression(exp, isGarbage);
+            exp = nullptr;
             break;
 
           case 16: // ResourcePriority
@@ -294,6 +296,7 @@ namespace PLEXIL
                                              rtemp.first_child(),
                                              RESOURCE_PRIORITY_TAG << " expression is not Integer valued in Command Resource");
             rspec.setPriorityExpression(exp, isGarbage);
+            exp = nullptr;
             break;
 
           case 18: // ResourceUpperBound
@@ -304,6 +307,7 @@ namespace PLEXIL
                                              rtemp.first_child(),
                                              RESOURCE_UPPER_BOUND_TAG << " expression is not a numeric expression in Command Resource");
             rspec.setUpperBoundExpression(exp, isGarbage);
+            exp = nullptr;
             break;
 
           default:
@@ -314,12 +318,15 @@ namespace PLEXIL
                                              rtemp.first_child(),
                                              RESOURCE_RELEASE_AT_TERMINATION_TAG << " expression is not a Boolean expression in Command");
             rspec.setReleaseAtTerminationExpression(exp, isGarbage);
+            exp = nullptr;
             break;
           }
         }
       }
     }
-    catch (ParserException const &e) {
+    catch (...) {
+      if (exp && isGarbage)
+        delete exp;
       delete resources;
       throw;
     }
diff --git a/src/xml-parser/parseAssignment.cc b/src/xml-parser/parseAssignment.cc
index 95bfcf9..05896ae 100644
--- a/src/xml-parser/parseAssignment.cc
+++ b/src/xml-parser/parseAssignment.cc
@@ -106,7 +106,7 @@ namespace PLEXIL
     try {
       rhs = createExpression(temp, anode, rhsGarbage, varType);
     }
-    catch (ParserException &e) {
+    catch (...) {
       if (varGarbage)
         delete var;
       throw;
-- 
2.43.0


From ee7114ebfadcc6bda43ec1dc9032b9577f4deeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:12 +0000
Subject: [PATCH 118/119] fix: a refused initial value and repeated resource
 elements were never released

---
 src/intfc/CommandImpl.cc    |  8 +++++++
 src/xml-parser/parseNode.cc | 42 +++++++++++++++++++++++++++++--------
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/src/intfc/CommandImpl.cc b/src/intfc/CommandImpl.cc
index f94ddcd..c9552e0 100644
--- a/src/intfc/CommandImpl.cc
+++ b/src/intfc/CommandImpl.cc
@@ -42,24 +42,32 @@ namespace PLEXIL
 
   void ResourceSpec::setNameExpression(Expression *exp, bool isGarbage)
   {
+    if (nameIsGarbage)
+      delete nameExp;
     nameExp = exp;
     nameIsGarbage = isGarbage;
   }
 
   void ResourceSpec::setPriorityExpression(Expression *exp, bool isGarbage)
   {
+    if (priorityIsGarbage)
+      delete priorityExp;
     priorityExp = exp;
     priorityIsGarbage = isGarbage;
   }
 
   void ResourceSpec::setUpperBoundExpression(Expression *exp, bool isGarbage)
   {
+    if (upperBoundIsGarbage)
+      delete upperBoundExp;
     upperBoundExp = exp;
     upperBoundIsGarbage = isGarbage;
   }
 
   void ResourceSpec::setReleaseAtTerminationExpression(Expression *exp, bool isGarbage)
   {
+    if (releaseIsGarbage)
+      delete releaseAtTermExp;
     releaseAtTermExp = exp;
     releaseIsGarbage = isGarbage;
   }
diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index c8a805e..1715b46 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -1031,12 +1031,15 @@ namespace PLEXIL
       else if (areTypesCompatible(arrayElementType(varType),
                                   init->valueType())) {
         // Initializer is scalar literal
-        checkParserExceptionWithLocation(sizeSpec >= 0,
-                                         decl,
-                                         "Node " << node->getNodeId()
-                                         << ", array variable \"" << varName 
-                                         << "\": Scalar initial value requires "
-                                         << MAX_SIZE_TAG);
+        if (sizeSpec < 0) {
+          if (garbage)
+            delete init;
+          reportParserExceptionWithLocation(decl,
+                                            "Node " << node->getNodeId()
+                                            << ", array variable \"" << varName 
+                                            << "\": Scalar initial value requires "
+                                            << MAX_SIZE_TAG);
+        }
       }
       else {
         if (garbage)
@@ -1064,6 +1067,19 @@ namespace PLEXIL
     return init;
   }
 
+  //! Give the variable its initializer, which is released if the variable refuses it.
+  static void setVariableInitializer(Expression *var, Expression *init, bool garbage)
+  {
+    try {
+      var->asAssignable()->getBaseVariable()->setInitializer(init, garbage);
+    }
+    catch (...) {
+      if (garbage)
+        delete init;
+      throw;
+    }
+  }
+
   //! Process initializers in this node's variable declarations, if any
   static void constructVariableInitializers(NodeImpl *node, xml_node const nodeXml)
   {
@@ -1080,7 +1096,7 @@ namespace PLEXIL
                       << " not found in node " << node->getNodeId());
         bool garbage = false;
         Expression *init = parseVariableInitializer(garbage, node, decl, false);
-        var->asAssignable()->getBaseVariable()->setInitializer(init, garbage);
+        setVariableInitializer(var, init, garbage);
       }
     }
   }
@@ -1199,7 +1215,15 @@ namespace PLEXIL
       // Parse and check initial value expression
       bool initGarbage, garbage;
       Expression *initExp = parseVariableInitializer(initGarbage, node, inOutXml, isCall);
-      Expression *var = createExpression(inOutXml, node, garbage);
+      Expression *var = nullptr;
+      try {
+        var = createExpression(inOutXml, node, garbage);
+      }
+      catch (...) {
+        if (initGarbage)
+          delete initExp;
+        throw;
+      }
       assertTrue_1(garbage); // better be something we can delete!
       if (!node->addLocalVariable(name, var)) {
         delete var;
@@ -1210,7 +1234,7 @@ namespace PLEXIL
                  << ":\n InOut interface variable " << name
                  << " shadows local variable of same name");
       }
-      var->asAssignable()->getBaseVariable()->setInitializer(initExp, initGarbage);
+      setVariableInitializer(var, initExp, initGarbage);
     }
   }
 
-- 
2.43.0


From 5b56f7567ecf0c7c7dab69431f0a7f0d2d038321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:48 +0000
Subject: [PATCH 119/119] fix: restoring an array variable that had become
 unknown left its old contents

---
 src/expr/ArrayVariable.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index b4092a2..12ddc17 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -696,8 +696,8 @@ namespace PLEXIL
   void ArrayVariableImpl<T>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
-        && !equals(m_savedValue.get())) {
+    if (m_savedKnown
+        && (!m_known || !equals(m_savedValue.get()))) {
       changed = true;
       ArrayImpl<T> const *saved =
         dynamic_cast<ArrayImpl<T> const *>(m_savedValue.get());
@@ -712,8 +712,8 @@ namespace PLEXIL
   void ArrayVariableImpl<Integer>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
-        && !equals(m_savedValue.get())) {
+    if (m_savedKnown
+        && (!m_known || !equals(m_savedValue.get()))) {
       changed = true;
       ArrayImpl<Integer> const *saved =
         dynamic_cast<ArrayImpl<Integer> const *>(m_savedValue.get());
@@ -728,8 +728,8 @@ namespace PLEXIL
   void ArrayVariableImpl<String>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
-        && !equals(m_savedValue.get())) {
+    if (m_savedKnown
+        && (!m_known || !equals(m_savedValue.get()))) {
       changed = true;
       ArrayImpl<String> const *saved =
         dynamic_cast<ArrayImpl<String> const *>(m_savedValue.get());
-- 
2.43.0

