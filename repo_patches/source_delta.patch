From b7d9ced91deabc8b593e5364d2924b70748da63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:36 +0000
Subject: [PATCH 01/47] fix: ValuesScan lost rows when the inline data has more
 than one variable

---
 rdf3x/src/rts/ValuesScan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/rts/ValuesScan.cpp b/rdf3x/src/rts/ValuesScan.cpp
index 4aef4b8..b24dff5 100644
--- a/rdf3x/src/rts/ValuesScan.cpp
+++ b/rdf3x/src/rts/ValuesScan.cpp
@@ -6,7 +6,7 @@ ValuesScan::ValuesScan(std::vector<Register*> regs,
         double expectedOutputCardinality) : Operator(expectedOutputCardinality),
     regs(regs), values(values) {
         if (regs.size() > 0)
-            toBeProcessed = values.size() / regs.size();
+            toBeProcessed = values.size();
         else
             toBeProcessed = 0;
         processed = 0;
-- 
2.43.0


From 78e995ab5b89716c01886d61c6470f5866b61f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:36 +0000
Subject: [PATCH 02/47] fix: ValuesScan::first did not start over when executed
 again

---
 rdf3x/src/rts/ValuesScan.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/rts/ValuesScan.cpp b/rdf3x/src/rts/ValuesScan.cpp
index b24dff5..532e748 100644
--- a/rdf3x/src/rts/ValuesScan.cpp
+++ b/rdf3x/src/rts/ValuesScan.cpp
@@ -18,6 +18,7 @@ ValuesScan::~ValuesScan() {
 
 /// Produce the first tuple
 uint64_t ValuesScan::first() {
+    processed = 0;
     if (processed < toBeProcessed) {
         for (auto v : regs) {
             v->value = values[processed++];
-- 
2.43.0


From 08de0ae6d6597499b6eb0f6f1ca2f1ba68c2e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:36 +0000
Subject: [PATCH 03/47] fix: Assignment replaced the multiplicity of its input
 rows by 1

---
 rdf3x/src/rts/Assignment.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rdf3x/src/rts/Assignment.cpp b/rdf3x/src/rts/Assignment.cpp
index 797a4cc..f551273 100644
--- a/rdf3x/src/rts/Assignment.cpp
+++ b/rdf3x/src/rts/Assignment.cpp
@@ -28,7 +28,8 @@ void Assignment::print(PlanPrinter& out)
 }
 //---------------------------------------------------------------------------
 uint64_t Assignment::first() {
-    if (input->first() == 0)
+    uint64_t count;
+    if ((count = input->first()) == 0)
         return false;
     for (size_t j = 0; j < inputArgs.size(); ++j) {
         if (inputArgs[j].reg != NULL)
@@ -36,18 +37,19 @@ uint64_t Assignment::first() {
         else
             outputVars[j]->value = inputArgs[j].defaultValue;
     }
-    return true;
+    return count;
 }
 //---------------------------------------------------------------------------
 uint64_t Assignment::next() {
-    if (input->next()) {
+    uint64_t count;
+    if ((count = input->next()) != 0) {
         for (size_t j = 0; j < inputArgs.size(); ++j) {
             if (inputArgs[j].reg != NULL)
                 outputVars[j]->value = inputArgs[j].reg->value;
             else
                 outputVars[j]->value = inputArgs[j].defaultValue;
         }
-        return true;
+        return count;
     }
     return false;
 }
-- 
2.43.0


From 5727fd11514b323bacb71080f2abfdb6968f7a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:36 +0000
Subject: [PATCH 04/47] fix: MergeUnion produced the last common value twice
 when the left input ended

---
 rdf3x/src/rts/MergeUnion.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rdf3x/src/rts/MergeUnion.cpp b/rdf3x/src/rts/MergeUnion.cpp
index 89a3e47..b31ea2e 100644
--- a/rdf3x/src/rts/MergeUnion.cpp
+++ b/rdf3x/src/rts/MergeUnion.cpp
@@ -79,6 +79,14 @@ uint64_t MergeUnion::next()
       case done: return false;
       case stepLeft: case stepBoth:
          if ((leftCount=left->next())==0) {
+            if (state==stepBoth) {
+               // The current right tuple was already produced together with the left one
+               if ((rightCount=right->next())==0) {
+                  state=done;
+                  return false;
+               }
+               rightValue=rightReg->value;
+            }
             result->value=rightValue;
             state=leftEmpty;
             observedOutputCardinality+=rightCount;
-- 
2.43.0


From 9386bb4bf2d73dd536b52c238282932b977236a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:55 +0000
Subject: [PATCH 05/47] fix: operators marked unbound registers with the 32 bit
 value ~0u instead of the 64 bit null id

---
 rdf3x/src/rts/CartProd.cpp      |  4 +--
 rdf3x/src/rts/HashJoin.cpp      |  4 +--
 rdf3x/src/rts/MergeJoin.cpp     | 64 ++++++++++++++++-----------------
 rdf3x/src/rts/Selection.cpp     |  4 +--
 rdf3x/src/rts/TableFunction.cpp |  2 +-
 rdf3x/src/rts/Union.cpp         |  2 +-
 6 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/rdf3x/src/rts/CartProd.cpp b/rdf3x/src/rts/CartProd.cpp
index 368f58c..79e5cfa 100644
--- a/rdf3x/src/rts/CartProd.cpp
+++ b/rdf3x/src/rts/CartProd.cpp
@@ -153,7 +153,7 @@ uint64_t CartProd::next()
     joinSuccedeed = true;
     //Set the hash values to NULL
     for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
-    leftTail[index]->value = ~0u;
+    leftTail[index]->value = UINT64_MAX;
     return rightCount;
     }
 
@@ -166,7 +166,7 @@ uint64_t CartProd::next()
     currentIdx = 0;
     for (uint64_t index = 0, limit = rightTail.size();
     index < limit; ++index)
-    rightTail[index]->value = ~0u;
+    rightTail[index]->value = UINT64_MAX;
     return next();
     }
     }
diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index 8864907..d305f60 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -255,7 +255,7 @@ uint64_t HashJoin::next()
             joinSuccedeed = true;
             //Set the hash values to NULL
             for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
-                leftTail[index]->value = ~0u;
+                leftTail[index]->value = UINT64_MAX;
             return rightCount;
         }
 
@@ -273,7 +273,7 @@ uint64_t HashJoin::next()
                 currentIdx = 0;
                 for (uint64_t index = 0, limit = rightTail.size();
                         index < limit; ++index)
-                    rightTail[index]->value = ~0u;
+                    rightTail[index]->value = UINT64_MAX;
                 return next();
             }
         }
diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index 542467b..add3587 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -46,9 +46,9 @@ uint64_t MergeJoin::first()
                 return false;
             }
             for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                leftTail[index]->value = ~0u;
+                leftTail[index]->value = UINT64_MAX;
             }
-            leftValue->value = ~0u;
+            leftValue->value = UINT64_MAX;
             scanState = loopEmptyLeft;
             observedOutputCardinality += rightCount;
             return rightCount;
@@ -59,9 +59,9 @@ uint64_t MergeJoin::first()
     if ((rightCount=right->first())==0) {
         if (rightOptional) {
             for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                rightTail[index]->value = ~0u;
+                rightTail[index]->value = UINT64_MAX;
             }
-            rightValue->value = ~0u;
+            rightValue->value = UINT64_MAX;
             scanState = loopEmptyRight;
             observedOutputCardinality += leftCount;
             return leftCount;
@@ -181,9 +181,9 @@ uint64_t MergeJoin::next()
                         if (scanState>scanHasBothSwapped) {
                             if ((leftCount=left->next())==0) {
                                 if (leftOptional) {
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                 } else {
                                     return false;
@@ -196,9 +196,9 @@ uint64_t MergeJoin::next()
                         if (scanState>scanStepLeft) {
                             if ((rightCount=right->next())==0) {
                                 if (rightOptional) {
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                 } else {
                                     return false;
@@ -212,7 +212,7 @@ uint64_t MergeJoin::next()
                             uint64_t l=leftValue->value,r=rightValue->value;
                             if (l<r) {
                                 if (rightOptional) {
-                                    if (rightValue->value == ~0u) {
+                                    if (rightValue->value == UINT64_MAX) {
                                         // Means that right side is exhausted
                                         scanState = scanStepLeft;
                                         observedOutputCardinality += leftCount;
@@ -220,9 +220,9 @@ uint64_t MergeJoin::next()
                                     }
                                     // Right side is not exhausted. Push value aside.
                                     copyRight();
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                     // But now, what is the next scanState? It should step left, and get right from the shadow.
                                     scanState = scanStepLeftCopyRight;
@@ -234,7 +234,7 @@ uint64_t MergeJoin::next()
                             }
                             if (l>r) {
                                 if (leftOptional) {
-                                    if (leftValue->value == ~0u) {
+                                    if (leftValue->value == UINT64_MAX) {
                                         // Means that left side is exhausted
                                         scanState = scanStepRight;
                                         observedOutputCardinality += rightCount;
@@ -242,9 +242,9 @@ uint64_t MergeJoin::next()
                                     }
                                     // Left side is not exhausted. Push value aside.
                                     copyLeft();
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                     // But now, what is the next scanState? It should step right, and get left from the shadow.
                                     scanState = scanStepRightCopyLeft;
@@ -317,15 +317,15 @@ uint64_t MergeJoin::next()
                                 return count;
                             }
                             if (leftOptional) {
-                                if (l != ~0u) {
+                                if (l != UINT64_MAX) {
                                     if (l > r) {
                                         // We need to compare the next "right" with this left as well.
                                         swapLeft();
                                         scanState = loopEmptyLeftCopyLeft;
                                     }
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                 }
                                 observedOutputCardinality+=rightCount;
@@ -361,15 +361,15 @@ uint64_t MergeJoin::next()
                                 return count;
                             }
                             if (rightOptional) {
-                                if (r != ~0u) {
+                                if (r != UINT64_MAX) {
                                     if (r > l) {
                                         swapRight();
                                         scanState = loopEmptyRightCopyRight;
                                         // We need to compare the next "left" with this right as well.
                                     }
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                 }
                                 observedOutputCardinality += leftCount;
@@ -392,10 +392,10 @@ uint64_t MergeJoin::next()
                         if (scanState==loopEqualLeft) {
                             if ((leftCount=left->next())==0) {
                                 if (leftOptional) {
-                                    if (leftValue->value != ~0u) {
-                                        leftValue->value = ~0u;
+                                    if (leftValue->value != UINT64_MAX) {
+                                        leftValue->value = UINT64_MAX;
                                         for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                            leftTail[index]->value = ~0u;
+                                            leftTail[index]->value = UINT64_MAX;
                                         }
                                     }
                                     scanState = scanStepRight;
@@ -426,10 +426,10 @@ uint64_t MergeJoin::next()
                         if (scanState==loopEqualRight) {
                             if ((rightCount=right->next())==0) {
                                 if (rightOptional) {
-                                    if (rightValue->value != ~0u) {
-                                        rightValue->value = ~0u;
+                                    if (rightValue->value != UINT64_MAX) {
+                                        rightValue->value = UINT64_MAX;
                                         for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                            rightTail[index]->value = ~0u;
+                                            rightTail[index]->value = UINT64_MAX;
                                         }
                                     }
                                     scanState = scanStepLeft;
@@ -470,10 +470,10 @@ uint64_t MergeJoin::next()
                             } else {
                                 if ((leftCount=left->next())==0) {
                                     if (leftOptional) {
-                                        if (leftValue->value != ~0u) {
-                                            leftValue->value = ~0u;
+                                        if (leftValue->value != UINT64_MAX) {
+                                            leftValue->value = UINT64_MAX;
                                             for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                                leftTail[index]->value = ~0u;
+                                                leftTail[index]->value = UINT64_MAX;
                                             }
                                         }
                                         scanState = loopEmptyLeft;
@@ -495,10 +495,10 @@ uint64_t MergeJoin::next()
                                 // No, right hand side empty?
                                 if (scanState==loopSpooledRightEmpty) {
                                     if (rightOptional) {
-                                        if (rightValue->value != ~0u) {
-                                            rightValue->value = ~0u;
+                                        if (rightValue->value != UINT64_MAX) {
+                                            rightValue->value = UINT64_MAX;
                                             for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                                rightTail[index]->value = ~0u;
+                                                rightTail[index]->value = UINT64_MAX;
                                             }
                                         }
                                         scanState = loopEmptyRight;
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index e483892..6ba1cdd 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -640,7 +640,7 @@ string Selection::Neg::print(PlanPrinter& out)
 void Selection::Null::eval(Result& result)
     // Evaluate the predicate
 {
-    result.setId(~0u);
+    result.setId(UINT64_MAX);
 }
 //---------------------------------------------------------------------------
 string Selection::Null::print(PlanPrinter& /*out*/)
@@ -736,7 +736,7 @@ void Selection::FunctionCall::setSelection(Selection* s)
 void Selection::FunctionCall::eval(Result& result)
     // Evaluate the predicate
 {
-    result.setId(~0u); // XXX perform the call
+    result.setId(UINT64_MAX); // XXX perform the call
 }
 //---------------------------------------------------------------------------
 string Selection::FunctionCall::print(PlanPrinter& out)
diff --git a/rdf3x/src/rts/TableFunction.cpp b/rdf3x/src/rts/TableFunction.cpp
index 6076a3f..594274a 100644
--- a/rdf3x/src/rts/TableFunction.cpp
+++ b/rdf3x/src/rts/TableFunction.cpp
@@ -233,7 +233,7 @@ void TableFunction::requestTable()
             }
          }
          if (!ok) {
-            table.push_back(~0u);
+            table.push_back(UINT64_MAX);
          } else {
             table.push_back(id);
          }
diff --git a/rdf3x/src/rts/Union.cpp b/rdf3x/src/rts/Union.cpp
index 1863f3c..a8e8175 100644
--- a/rdf3x/src/rts/Union.cpp
+++ b/rdf3x/src/rts/Union.cpp
@@ -35,7 +35,7 @@ uint64_t Union::firstFromPart()
          continue;
       }
       for (std::vector<Register*>::const_iterator iter=initializations[current].begin(),limit=initializations[current].end();iter!=limit;++iter)
-         (*iter)->value=~0u;
+         (*iter)->value=UINT64_MAX;
       for (std::vector<Register*>::const_iterator iter=mappings[current].begin(),limit=mappings[current].end();iter!=limit;) {
          Register* from=*iter; ++iter;
          Register* to=*iter; ++iter;
-- 
2.43.0


From b408a642d5db2194f6cd4b6a0854b6537ed0473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:48 +0000
Subject: [PATCH 06/47] fix: DuplLimit did not reset its counters when executed
 again

---
 rdf3x/src/rts/DuplLimit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/rts/DuplLimit.cpp b/rdf3x/src/rts/DuplLimit.cpp
index 9bc6236..af78f66 100644
--- a/rdf3x/src/rts/DuplLimit.cpp
+++ b/rdf3x/src/rts/DuplLimit.cpp
@@ -20,11 +20,12 @@ DuplLimit::DuplLimit(
 uint64_t DuplLimit::first()
 // Produce the first tuple
 {
+    observedOutputCardinality = 0;
     if (observedOutputCardinality < limit) {
         if ((entryCount = input->first()) != 0) {
 	    // If there is an offset, skip those.
 	    uint64_t o = offset;
-            currentCount++;
+            currentCount = 1;
 	    while (o > 0) {
 		if (next() == 0) {
 		    return 0;
-- 
2.43.0


From 9d6817c44beac6719ee4062403e59f65f0fbf808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 07/47] fix: GroupBy::first drops the rows of an earlier
 execution

---
 rdf3x/src/rts/GroupBy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/rts/GroupBy.cpp b/rdf3x/src/rts/GroupBy.cpp
index f1f226b..df4b75c 100644
--- a/rdf3x/src/rts/GroupBy.cpp
+++ b/rdf3x/src/rts/GroupBy.cpp
@@ -79,6 +79,7 @@ bool GroupBy::sameThanPrevious(uint64_t index) {
 /// Produce the first tuple
 uint64_t GroupBy::first() {
     observedOutputCardinality=0;
+    values.clear();
     uint64_t cnt = child->first();
 
     while (cnt > 0) {
-- 
2.43.0


From 8f837cf3a1125baf2c00f596250a692c6526ce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:36 +0000
Subject: [PATCH 08/47] fix: ArrayItr::init announces a row that violates the
 constraints or does not exist

The binary search returns the position of a smaller element if the constant is absent, the linear search for the second constant may end in the next group, and the list may be empty.
---
 src/trident/iterators/arrayitr.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 6e2bf88..f32112a 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -182,9 +182,12 @@ void ArrayItr::init(std::shared_ptr<Pairs> values, int64_t v1, int64_t v2) {
                     pos++;
                 }
                 hasNextChecked = true;
-                n = pos < nElements && array->at(pos).second == constraint2;
+                n = pos < nElements && array->at(pos).first == constraint1
+                    && array->at(pos).second == constraint2;
             } else {
-                hasNextChecked = n = true;
+                // The search may return a smaller element
+                hasNextChecked = true;
+                n = array->at(pos).first == constraint1;
             }
         } else {
             hasNextChecked = true;
@@ -193,7 +196,8 @@ void ArrayItr::init(std::shared_ptr<Pairs> values, int64_t v1, int64_t v2) {
         }
     } else {
         pos = 0;
-        hasNextChecked = n = true;
+        hasNextChecked = true;
+        n = nElements > 0;
     }
 }
 
-- 
2.43.0


From eb8497d9679cd9632da33140f352546a1c34385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:36 +0000
Subject: [PATCH 09/47] fix: ArrayItr::reset does not restore the current pair

hasNext (second column ignored) and moveto compare with the pair that was delivered before the mark, not with a later one.
---
 include/trident/iterators/arrayitr.h | 1 +
 src/trident/iterators/arrayitr.cpp   | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/trident/iterators/arrayitr.h b/include/trident/iterators/arrayitr.h
index 1a0632e..a165e5a 100644
--- a/include/trident/iterators/arrayitr.h
+++ b/include/trident/iterators/arrayitr.h
@@ -40,6 +40,7 @@ private:
     int64_t v1, v2;
 
     int markPos;
+    int64_t markV1, markV2;
     bool hasNextChecked;
     bool n;
     bool ignSecondColumn;
diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index f32112a..79a31db 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -100,10 +100,15 @@ void ArrayItr::clear() {
 
 void ArrayItr::mark() {
     markPos = pos;
+    markV1 = v1;
+    markV2 = v2;
 }
 
 void ArrayItr::reset(const char i) {
     pos = markPos;
+    v1 = markV1;
+    v2 = markV2;
+    countElems = 0;
     hasNextChecked = false;
 }
 
-- 
2.43.0


From d2ac904fca07f6a5933ca7c54cd94e8ad570bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:36 +0000
Subject: [PATCH 10/47] fix: ArrayItr::moveto returns to the middle of the
 group if the second column is ignored

The group was then delivered with the count of its last elements.
---
 src/trident/iterators/arrayitr.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 79a31db..c6cbaf5 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -119,6 +119,12 @@ void ArrayItr::moveto(const int64_t c1, const int64_t c2) {
     if (v1 >= c1 && (ignSecondColumn || v1 > c1 || v2 >= c2)) {
         // Position is backwards.
         pos--; //so that hasNext will move to the same point
+        if (ignSecondColumn) {
+            //return to the first element of the group, so that it is counted again
+            while (pos > 0 && array->at(pos - 1).first == v1) {
+                pos--;
+            }
+        }
         hasNextChecked = true;
         n = true;
         return;
-- 
2.43.0


From 87243e02647395892f9be81e00770a995307317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:36 +0000
Subject: [PATCH 11/47] fix: RmItr::moveto keeps the answer of an earlier
 hasNext

The next pair was then the one read before the move.
---
 src/trident/iterators/rmitr.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trident/iterators/rmitr.cpp b/src/trident/iterators/rmitr.cpp
index 813d234..a3abf45 100644
--- a/src/trident/iterators/rmitr.cpp
+++ b/src/trident/iterators/rmitr.cpp
@@ -51,6 +51,7 @@ void RmItr::moveto(const int64_t c1, const int64_t c2) {
     } else {
         rmitrvalid = false;
     }
+    hnc = false;
 }
 
 bool RmItr::hasNext() {
-- 
2.43.0


From 6444025e29bf16614f6bae0259a66f0acc84ae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:33 +0000
Subject: [PATCH 12/47] fix: LongIntReader sign-extends values of 2^39 and more

---
 include/trident/binarytables/binarytablereaders.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trident/binarytables/binarytablereaders.h b/include/trident/binarytables/binarytablereaders.h
index e00e672..f7ea0ae 100644
--- a/include/trident/binarytables/binarytablereaders.h
+++ b/include/trident/binarytables/binarytablereaders.h
@@ -71,7 +71,7 @@ public:
     }
 
     static uint64_t read(const char* buffer) {
-        uint64_t n = (int64_t) (buffer[0]) << 32;
+        uint64_t n = (int64_t) (buffer[0] & 0xFF) << 32;
         n += (int64_t) (buffer[1] & 0xFF) << 24;
         n += (buffer[2] & 0xFF) << 16;
         n += (buffer[3] & 0xFF) << 8;
-- 
2.43.0


From 7d06df73ca0613916976024e8048da9e8680d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:33 +0000
Subject: [PATCH 13/47] fix: NewRowTable::setup(c1, ..) delivers a row of an
 empty table

---
 include/trident/binarytables/newrowtable.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index 9b3e86e..f0be68f 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -189,6 +189,10 @@ class NewRowTable: public AbsNewTable {
                 }
                 s = startS;
             }
+            if (s >= e) {
+                setup(s, s);
+                return;
+            }
             int64_t v = Reader1::read(s);
             while (v < c1 && (s + Reader1::size() + Reader2::size()) < e) {
                 s += Reader1::size() + Reader2::size();
-- 
2.43.0


From 0e8eb744d2b0298c2b25eb16bdee9a55a7970753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:33 +0000
Subject: [PATCH 14/47] fix: NewRowTable::setup(c1, c2, ..) reads beyond the
 end of the table

---
 include/trident/binarytables/newrowtable.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index f0be68f..1636e21 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -240,14 +240,15 @@ class NewRowTable: public AbsNewTable {
                 }
                 s = startS;
             }
-            int64_t v1 = Reader1::read(s);
-            int64_t v2 = Reader2::read(s + Reader1::size());
-            while ((v1 < c1 || (v1 == c1 && v2 < c2)) && s < e) {
-                s += Reader1::size() + Reader2::size();
+            int64_t v1 = -1, v2 = -1;
+            while (s < e) {
                 v1 = Reader1::read(s);
                 v2 = Reader2::read(s + Reader1::size());
+                if (v1 > c1 || (v1 == c1 && v2 >= c2))
+                    break;
+                s += Reader1::size() + Reader2::size();
             }
-            if (v1 == c1 && v2 == c2 && s < e) {
+            if (s < e && v1 == c1 && v2 == c2) {
                 setup(s, s + Reader1::size() + Reader2::size());
             } else {
                 setup(s, s);
-- 
2.43.0


From 7e0ca2dc5ec297a9b0c64f9151ae8038fea367a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:33 +0000
Subject: [PATCH 15/47] fix: NewRowTable::getCardinality moves the iterator to
 the end

---
 include/trident/binarytables/newrowtable.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index 1636e21..e79f188 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -78,12 +78,13 @@ class NewRowTable: public AbsNewTable {
                 if (currentValue1 != -1)
                     count++;
                 int64_t prevEl = currentValue1;
-                while (current != end) {
-                    currentValue1 = Reader1::read(current);
-                    current += Reader1::size() + Reader2::size();
-                    if (currentValue1 != prevEl) {
+                const char *s = current;
+                while (s != end) {
+                    const int64_t el = Reader1::read(s);
+                    s += Reader1::size() + Reader2::size();
+                    if (el != prevEl) {
                         count++;
-                        prevEl = currentValue1;
+                        prevEl = el;
                     }
                 }
                 return count;
-- 
2.43.0


From 11ba8321f9e37de6c0f37d32399971dadb203ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:33 +0000
Subject: [PATCH 16/47] fix: NewRowTable::reset does not restore the current
 pair

---
 include/trident/binarytables/newrowtable.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index e79f188..287ff51 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -43,6 +43,8 @@ class NewRowTable: public AbsNewTable {
         bool isSecondColumnIgnored;
 
         const char *currentMark;
+        int64_t currentValue1Mark, currentValue2Mark;
+        int64_t countMark;
 
     public:
         int64_t getValue1() {
@@ -295,10 +297,16 @@ class NewRowTable: public AbsNewTable {
 
         void mark() {
             currentMark = current;
+            currentValue1Mark = currentValue1;
+            currentValue2Mark = currentValue2;
+            countMark = count;
         }
 
         void reset(const char i) {
             current = currentMark;
+            currentValue1 = currentValue1Mark;
+            currentValue2 = currentValue2Mark;
+            count = countMark;
         }
 
         void ignoreSecondColumn() {
-- 
2.43.0


From 041b2633b4fffbe3e6f205f658690a4261b0f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:33 +0000
Subject: [PATCH 17/47] fix: NewRowTable::moveto returns to the middle of the
 group if the second column is ignored

---
 include/trident/binarytables/newrowtable.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index 287ff51..aa37e7d 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -289,6 +289,9 @@ class NewRowTable: public AbsNewTable {
                         current += Reader1::size() + Reader2::size();
                     }
                 }
+            } else if (isSecondColumnIgnored) {
+                //Return to the beginning of the group
+                current -= (Reader1::size() + Reader2::size()) * count;
             } else {
                 current -= Reader1::size() + Reader2::size();
             }
-- 
2.43.0


From c9f121eb6189266521201f7dc5484e7149eec194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:33 +0000
Subject: [PATCH 18/47] fix: NewClusterTable::getCardinality overwrites the
 state of the iteration

---
 include/trident/binarytables/newclustertable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/trident/binarytables/newclustertable.h b/include/trident/binarytables/newclustertable.h
index 05ff152..e39dd22 100644
--- a/include/trident/binarytables/newclustertable.h
+++ b/include/trident/binarytables/newclustertable.h
@@ -80,9 +80,9 @@ class NewClusterTable: public AbsNewTable {
                 //Skip first el
                 s += Reader1::size();
                 nels++;
-                count = countgroup = ReaderCount::read(s);
-                sum += count;
-                s += ReaderCount::size() + Reader2::size() * count;
+                const int64_t c = ReaderCount::read(s);
+                sum += c;
+                s += ReaderCount::size() + Reader2::size() * c;
             }
             if (isSecondColumnIgnored) {
                 return nels;
-- 
2.43.0


From f7ab3b0ba0b8af6f9539f78a00e091c2a4040c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:33 +0000
Subject: [PATCH 19/47] fix: NewClusterTable::getCardinality reads beyond the
 range set by setup(c1, c2, ..)

---
 include/trident/binarytables/newclustertable.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/trident/binarytables/newclustertable.h b/include/trident/binarytables/newclustertable.h
index e39dd22..26b9675 100644
--- a/include/trident/binarytables/newclustertable.h
+++ b/include/trident/binarytables/newclustertable.h
@@ -75,6 +75,10 @@ class NewClusterTable: public AbsNewTable {
             //Read all elements
             int64_t sum = 0;
             int64_t nels = 0;
+            if (end - start == Reader2::size()) {
+                //Restricted to one pair, see setup(c1, c2, ..)
+                return 1;
+            }
             const char *s = start;
             while (s != end) {
                 //Skip first el
@@ -233,10 +237,11 @@ class NewClusterTable: public AbsNewTable {
                 }
                 int64_t v2 = Reader2::read(current);
                 if (v2 == c2) {
+                    this->start = current;
                     this->end = current + Reader2::size();
                     count = countgroup = 1;
                 } else {
-                    current = end;
+                    this->start = current = this->end;
                 }
             }
 
-- 
2.43.0


From 6f0bf0531e75e125a9c70b4ed8319bc9a6241853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:06 +0000
Subject: [PATCH 20/47] fix: TUNGraph::AddNode enters a node that is its own
 neighbour twice

---
 snap/snap-core/graph.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/snap/snap-core/graph.cpp b/snap/snap-core/graph.cpp
index e6132dd..17a3b98 100644
--- a/snap/snap-core/graph.cpp
+++ b/snap/snap-core/graph.cpp
@@ -40,6 +40,7 @@ int TUNGraph::AddNode(const int& NId, const TIntV& NbrNIdV) {
   Node.NIdV.Sort();
   NEdges += Node.GetDeg();
   for (int i = 0; i < NbrNIdV.Len(); i++) {
+    if (NbrNIdV[i] == NewNId) { continue; } // a loop is stored only once
     GetNode(NbrNIdV[i]).NIdV.AddSorted(NewNId);
   }
   return NewNId;
-- 
2.43.0


From f53cb3a68afeac61d98173a66bab6695a4fe98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:06 +0000
Subject: [PATCH 21/47] fix: TUndirNet::AddNode enters a node that is its own
 neighbour twice

---
 snap/snap-core/network.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/snap/snap-core/network.cpp b/snap/snap-core/network.cpp
index 3f61469..5b1905b 100644
--- a/snap/snap-core/network.cpp
+++ b/snap/snap-core/network.cpp
@@ -1688,6 +1688,7 @@ int TUndirNet::AddNode(const int& NId, const TIntV& NbrNIdV) {
   Node.NIdV.Sort();
   NEdges += Node.GetDeg();
   for (int i = 0; i < NbrNIdV.Len(); i++) {
+    if (NbrNIdV[i] == NewNId) { continue; } // a loop is stored only once
     GetNode(NbrNIdV[i]).NIdV.AddSorted(NewNId);
   }
   return NewNId;
-- 
2.43.0


From e14169a666e4ad4a55296792931048af19d3c3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:19 +0000
Subject: [PATCH 22/47] fix: TNEGraph::DelEdge keeps the records of all but the
 last deleted edge, does not end if one points the other way

---
 snap/snap-core/graph.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/snap/snap-core/graph.cpp b/snap/snap-core/graph.cpp
index 17a3b98..ac7f8b3 100644
--- a/snap/snap-core/graph.cpp
+++ b/snap/snap-core/graph.cpp
@@ -539,10 +539,8 @@ void TNEGraph::DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir)
   int EId;
   IAssert(IsEdge(SrcNId, DstNId, EId, IsDir)); // there is at least one edge
   while (IsEdge(SrcNId, DstNId, EId, IsDir)) {
-    GetNode(SrcNId).OutEIdV.DelIfIn(EId);
-    GetNode(DstNId).InEIdV.DelIfIn(EId);
+    DelEdge(EId);
   }
-  EdgeH.DelKey(EId);
 }
 
 bool TNEGraph::IsEdge(const int& SrcNId, const int& DstNId, int& EId, const bool& IsDir) const {
-- 
2.43.0


From d3640c35f775b9fa7aac188f39f326ce45f852e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:23 +0000
Subject: [PATCH 23/47] fix: TNodeEdgeNet::DelEdge leaves an edge in the lists
 of its nodes if it points the other way

---
 snap/snap-core/network.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/snap/snap-core/network.h b/snap/snap-core/network.h
index a1dd505..ae96bed 100644
--- a/snap/snap-core/network.h
+++ b/snap/snap-core/network.h
@@ -1327,9 +1327,7 @@ template <class TNodeData, class TEdgeData>
 void TNodeEdgeNet<TNodeData, TEdgeData>::DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir) {
   int EId;
   IAssert(IsEdge(SrcNId, DstNId, EId, IsDir));
-  GetNode(SrcNId).OutEIdV.DelIfIn(EId);
-  GetNode(DstNId).InEIdV.DelIfIn(EId);
-  EdgeH.DelKey(EId);
+  DelEdge(EId);
 }
 
 template <class TNodeData, class TEdgeData>
-- 
2.43.0


From ada2e8a5ed5b2a1280fc04e4930ea6e57e2bcaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:58 +0000
Subject: [PATCH 24/47] fix: copies of TBigStrPool do not know its strings

---
 snap/glib-core/hash.cpp | 1 +
 snap/glib-core/hash.h   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/snap/glib-core/hash.cpp b/snap/glib-core/hash.cpp
index 25fbc3d..7df988b 100644
--- a/snap/glib-core/hash.cpp
+++ b/snap/glib-core/hash.cpp
@@ -55,6 +55,7 @@ TBigStrPool& TBigStrPool::operator = (const TBigStrPool& Pool) {
     GrowBy = Pool.GrowBy;  MxBfL = Pool.MxBfL;  BfL = Pool.BfL;
     if (Bf) free(Bf); else IAssert(MxBfL == 0);
     Bf = (char *) malloc(MxBfL);  IAssert(Bf);  memcpy(Bf, Pool.Bf, BfL);
+    IdOffV = Pool.IdOffV;
   }
   return *this;
 }
diff --git a/snap/glib-core/hash.h b/snap/glib-core/hash.h
index ec0b13a..e12e750 100644
--- a/snap/glib-core/hash.h
+++ b/snap/glib-core/hash.h
@@ -676,7 +676,7 @@ private:
 public:
   TBigStrPool(TSize MxBfLen = 0, uint _GrowBy = 16*1024*1024);
   TBigStrPool(TSIn& SIn, bool LoadCompact = true);
-  TBigStrPool(const TBigStrPool& Pool) : MxBfL(Pool.MxBfL), BfL(Pool.BfL), GrowBy(Pool.GrowBy) {
+  TBigStrPool(const TBigStrPool& Pool) : MxBfL(Pool.MxBfL), BfL(Pool.BfL), GrowBy(Pool.GrowBy), IdOffV(Pool.IdOffV) {
     Bf = (char *) malloc(Pool.MxBfL); IAssert(Bf); memcpy(Bf, Pool.Bf, Pool.BfL); }
   ~TBigStrPool() { if (Bf) free(Bf); else IAssert(MxBfL == 0);  MxBfL = 0; BfL = 0; }
 
-- 
2.43.0


From 62253e465baa5da8403344fde613d072bd5ad18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:58 +0000
Subject: [PATCH 25/47] fix: copies of TNGraphMtx and TUNGraphMtx forget that
 the matrix is transposed

---
 snap/snap-core/gsvd.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/snap/snap-core/gsvd.h b/snap/snap-core/gsvd.h
index dfc88c2..d52ebb5 100644
--- a/snap/snap-core/gsvd.h
+++ b/snap/snap-core/gsvd.h
@@ -8,8 +8,8 @@ private:
   bool CheckNodeIds();
 public:
   TNGraphMtx(const PNGraph& GraphPt);
-  TNGraphMtx(const TNGraphMtx& GraphMtx) : Graph(GraphMtx.Graph) { }
-  TNGraphMtx& operator = (const TNGraphMtx& GraphMtx) { Graph=GraphMtx.Graph;  return *this; }
+  TNGraphMtx(const TNGraphMtx& GraphMtx) : TMatrix(GraphMtx), Graph(GraphMtx.Graph) { }
+  TNGraphMtx& operator = (const TNGraphMtx& GraphMtx) { TMatrix::operator=(GraphMtx);  Graph=GraphMtx.Graph;  return *this; }
   int PGetRows() const { return Graph->GetNodes(); }
   int PGetCols() const { return Graph->GetNodes(); }
   // Result = A * B(:,ColId)
@@ -32,8 +32,8 @@ private:
   bool CheckNodeIds();
 public:
   TUNGraphMtx(const PUNGraph& GraphPt);
-  TUNGraphMtx(const TUNGraphMtx& GraphMtx) : Graph(GraphMtx.Graph) { }
-  TUNGraphMtx& operator = (const TUNGraphMtx& GraphMtx) { Graph=GraphMtx.Graph;  return *this; }
+  TUNGraphMtx(const TUNGraphMtx& GraphMtx) : TMatrix(GraphMtx), Graph(GraphMtx.Graph) { }
+  TUNGraphMtx& operator = (const TUNGraphMtx& GraphMtx) { TMatrix::operator=(GraphMtx);  Graph=GraphMtx.Graph;  return *this; }
   int PGetRows() const { return Graph->GetNodes(); }
   int PGetCols() const { return Graph->GetNodes(); }
   // Result = A * B(:,ColId)
-- 
2.43.0


From 8fbae2857c71e69967b1048e4d7f59128da0b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:58 +0000
Subject: [PATCH 26/47] fix: copies of TUrlEnv forget the base URL

---
 snap/glib-core/url.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snap/glib-core/url.h b/snap/glib-core/url.h
index b26d3d6..8de8c07 100644
--- a/snap/glib-core/url.h
+++ b/snap/glib-core/url.h
@@ -109,7 +109,7 @@ public:
   TUrlEnv():
     KeyNmV(), KeyNmToValH(10){}
   TUrlEnv(const TUrlEnv& UrlEnv):
-    KeyNmV(UrlEnv.KeyNmV), KeyNmToValH(UrlEnv.KeyNmToValH){}
+    BaseUrlStr(UrlEnv.BaseUrlStr), KeyNmV(UrlEnv.KeyNmV), KeyNmToValH(UrlEnv.KeyNmToValH){}
   static PUrlEnv New(){return new TUrlEnv();}
   static PUrlEnv New(const TStr& BaseUrlStr,
    const TStr& KeyNm1=TStr(), const TStr& ValStr1=TStr(),
@@ -129,7 +129,7 @@ public:
   void Save(TSOut& SOut){KeyNmV.Save(SOut); KeyNmToValH.Save(SOut);}
 
   TUrlEnv& operator=(const TUrlEnv& Env){
-    if (this!=&Env){KeyNmV=Env.KeyNmV; KeyNmToValH=Env.KeyNmToValH;}
+    if (this!=&Env){BaseUrlStr=Env.BaseUrlStr; KeyNmV=Env.KeyNmV; KeyNmToValH=Env.KeyNmToValH;}
     return *this;}
 
   // base url
-- 
2.43.0


From 9419bc05cb5932f6964841ac26690bb1559aacd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:58 +0000
Subject: [PATCH 27/47] fix: TUniCaseFolding reads its tables in another order
 than Save writes them

---
 snap/glib-core/unicode.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/snap/glib-core/unicode.h b/snap/glib-core/unicode.h
index 91530bb..7369081 100644
--- a/snap/glib-core/unicode.h
+++ b/snap/glib-core/unicode.h
@@ -271,8 +271,9 @@ typedef THash<TInt, TIntV> TIntIntVH;
 class TUniCaseFolding
 {
 protected:
-	TIntH cfCommon, cfSimple, cfTurkic;
+	TIntH cfCommon, cfSimple;
 	TIntIntVH cfFull;
+	TIntH cfTurkic;
 
 	template<typename TSrcDat, typename TDestDat>
 	inline static void AppendVector(const TVec<TSrcDat>& src, TVec<TDestDat>& dest) {
@@ -282,7 +283,7 @@ protected:
 
 public:
 	TUniCaseFolding() { }
-	explicit TUniCaseFolding(TSIn& SIn) : cfCommon(SIn), cfSimple(SIn), cfTurkic(SIn), cfFull(SIn) { SIn.LoadCs(); }
+	explicit TUniCaseFolding(TSIn& SIn) : cfCommon(SIn), cfSimple(SIn), cfFull(SIn), cfTurkic(SIn) { SIn.LoadCs(); }
 	void Load(TSIn& SIn) { cfCommon.Load(SIn); cfSimple.Load(SIn); cfFull.Load(SIn); cfTurkic.Load(SIn); SIn.LoadCs(); }
 	void Save(TSOut& SOut) const { cfCommon.Save(SOut); cfSimple.Save(SOut); cfFull.Save(SOut); cfTurkic.Save(SOut); SOut.SaveCs(); }
 	void Clr() { cfCommon.Clr(); cfSimple.Clr(); cfFull.Clr(); cfTurkic.Clr(); }
-- 
2.43.0


From d42d9eb9183385d8c4917d5c4ea58aa34e6ec68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:58 +0000
Subject: [PATCH 28/47] fix: TWCh::Save writes the upper byte twice and loses
 the lower one

---
 snap/glib-core/wch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/glib-core/wch.h b/snap/glib-core/wch.h
index 8ce5cf3..829f07c 100644
--- a/snap/glib-core/wch.h
+++ b/snap/glib-core/wch.h
@@ -17,7 +17,7 @@ public:
     MsVal(uchar(_MsVal)), LsVal(uchar(_LsVal)){}
   operator char() const {return LsVal;}
   TWCh(TSIn& SIn){SIn.Load(MsVal); SIn.Load(LsVal);}
-  void Save(TSOut& SOut) const {SOut.Save(MsVal); SOut.Save(MsVal);}
+  void Save(TSOut& SOut) const {SOut.Save(MsVal); SOut.Save(LsVal);}
 
   TWCh& operator=(const TWCh& WCh){
     MsVal=WCh.MsVal; LsVal=WCh.LsVal; return *this;}
-- 
2.43.0


From ff1820f05903412192361708dfbe619ba1aba1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:58 +0000
Subject: [PATCH 29/47] fix: assigning a QueryGraph::Filter keeps the subquery
 of the old value

---
 rdf3x/src/cts/QueryGraph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index c560a13..2d45b78 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -90,6 +90,8 @@ QueryGraph::Filter& QueryGraph::Filter::operator=(const Filter& other)
         id = other.id;
         value = other.value;
         valueid = other.valueid;
+        subquery = other.subquery;
+        subpattern = other.subpattern;
     }
     return *this;
 }
-- 
2.43.0


From 93e2cf16bfab9885fed6ed6e74ed6fe017ebcb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:58 +0000
Subject: [PATCH 30/47] fix: copies of a SPARQLParser::Filter lose DISTINCT,
 assigned ones also the subquery

---
 rdf3x/src/cts/SPARQLParser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 93891a3..c6644fc 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -49,14 +49,14 @@ SPARQLParser::Pattern::~Pattern()
 }
 //---------------------------------------------------------------------------
 SPARQLParser::Filter::Filter()
-    : arg1(0), arg2(0), arg3(0), arg4(0), valueArg(0), pointerToSubquery(0),
+    : arg1(0), arg2(0), arg3(0), arg4(0), valueArg(0), distinct(false), pointerToSubquery(0),
     pointerToSubPattern(0)
       // Constructor
 {
 }
 //---------------------------------------------------------------------------
 SPARQLParser::Filter::Filter(const Filter& other)
-    : type(other.type), arg1(0), arg2(0), arg3(0), arg4(0), value(other.value), valueType(other.valueType), valueArg(other.valueArg), pointerToSubquery(other.pointerToSubquery), pointerToSubPattern(other.pointerToSubPattern)
+    : type(other.type), arg1(0), arg2(0), arg3(0), arg4(0), value(other.value), valueType(other.valueType), valueArg(other.valueArg), distinct(other.distinct), pointerToSubquery(other.pointerToSubquery), pointerToSubPattern(other.pointerToSubPattern)
       // Copy-Constructor
 {
     if (other.arg1)
@@ -110,6 +110,9 @@ SPARQLParser::Filter& SPARQLParser::Filter::operator=(const Filter& other)
         value = other.value;
         valueType = other.valueType;
         valueArg = other.valueArg;
+        distinct = other.distinct;
+        pointerToSubquery = other.pointerToSubquery;
+        pointerToSubPattern = other.pointerToSubPattern;
     }
     return *this;
 }
-- 
2.43.0


From a97f7692cbcb4320fda558b2c0fd1e418a2c55a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:58 +0000
Subject: [PATCH 31/47] fix: TFullColMatrix::Load does not restore the size of
 the matrix

---
 snap/glib-core/linalg.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snap/glib-core/linalg.h b/snap/glib-core/linalg.h
index 537c3ea..0aeb506 100644
--- a/snap/glib-core/linalg.h
+++ b/snap/glib-core/linalg.h
@@ -148,7 +148,8 @@ public:
     //  save -ascii Matrix.dat M
     TFullColMatrix(const TStr& MatlabMatrixFNm);
     void Save(TSOut& SOut) { ColV.Save(SOut); }
-    void Load(TSIn& SIn) { ColV.Load(SIn); }
+    void Load(TSIn& SIn) {
+        ColV.Load(SIn); ColN = ColV.Len(); RowN = ColV.Empty() ? 0 : ColV[0].Len(); }
 };
 
 //////////////////////////////////////////////////////////////////////
-- 
2.43.0


From a2a15ccd0d6adec52a0c41588c23866b52731533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:11 +0000
Subject: [PATCH 32/47] fix: Scheduler::execute uses and unlocks the work queue
 without locking it

---
 rdf3x/src/rts/Scheduler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/rts/Scheduler.cpp b/rdf3x/src/rts/Scheduler.cpp
index 779a9cd..66d9aba 100644
--- a/rdf3x/src/rts/Scheduler.cpp
+++ b/rdf3x/src/rts/Scheduler.cpp
@@ -133,6 +133,7 @@ void Scheduler::execute(Operator* root)
    root->getAsyncInputCandidates(*this);
 
    // Execute all asynchronous execution points
+   workerLock.lock();
    while (!registeredPoints.empty()) {
       // Is the worker queue full?
       if ((workQueue.size()+activeWorkers)>=threads) {
-- 
2.43.0


From 915dcb2ecc2f7cd4e14d67783b6ba2deb0078847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:11 +0000
Subject: [PATCH 33/47] fix: a Scheduler can be destroyed before its workers
 have registered

---
 rdf3x/src/rts/Scheduler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/rts/Scheduler.cpp b/rdf3x/src/rts/Scheduler.cpp
index 66d9aba..85c4140 100644
--- a/rdf3x/src/rts/Scheduler.cpp
+++ b/rdf3x/src/rts/Scheduler.cpp
@@ -31,7 +31,8 @@ Scheduler::Scheduler()
    if (threads) {
       workerLock.lock();
       for (unsigned index=0;index<threads;index++)
-         Thread::start(asyncWorker,this);
+         if (Thread::start(asyncWorker,this))
+            workerThreads++;
       workerLock.unlock();
    }
 }
@@ -75,9 +76,8 @@ void Scheduler::executeSingleThreaded(Operator* root)
 void Scheduler::performWork()
    // Perform the work of a worker thread
 {
-   // Register as worker
+   // The thread was registered as worker when it was started
    workerLock.lock();
-   workerThreads++;
 
    // Perform the work
    while (!workersDie) {
-- 
2.43.0


From 2dc92d3b68179773fb56802685fff24f07f6efe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:11 +0000
Subject: [PATCH 34/47] fix: synchronizing two domains locks only one of them

---
 rdf3x/src/rts/DomainDescription.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/rts/DomainDescription.cpp b/rdf3x/src/rts/DomainDescription.cpp
index d6366e3..0222ad9 100644
--- a/rdf3x/src/rts/DomainDescription.cpp
+++ b/rdf3x/src/rts/DomainDescription.cpp
@@ -117,8 +117,16 @@ static Mutex& getLock(void* ptr) { return lockTable[reinterpret_cast<uintptr_t>(
 void PotentialDomainDescription::sync(PotentialDomainDescription& other)
    // Synchronize with another domain, computing the intersection. Both are modified!
 {
-   Mutex& lock=getLock(this);
-   lock.lock();
+   // Lock both domains, always in the same order
+   Mutex& lock=getLock(this),&otherLock=getLock(&other);
+   if (&lock<&otherLock) {
+      lock.lock();
+      otherLock.lock();
+   } else {
+      otherLock.lock();
+      if (&lock!=&otherLock)
+         lock.lock();
+   }
 
    if (min<other.min)
       min=other.min;
@@ -134,6 +142,8 @@ void PotentialDomainDescription::sync(PotentialDomainDescription& other)
       other.filter[index]=n;
    }
 
+   if (&lock!=&otherLock)
+      otherLock.unlock();
    lock.unlock();
 }
 //---------------------------------------------------------------------------
-- 
2.43.0


From d50a34aaa6ba1d11a3f8e4d3190c0fe3ca58b27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:11 +0000
Subject: [PATCH 35/47] fix: Event::timedWait can return up to 0.9 seconds too
 early

---
 rdf3x/src/infra/Event.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/infra/Event.cpp b/rdf3x/src/infra/Event.cpp
index 5279898..61d790e 100644
--- a/rdf3x/src/infra/Event.cpp
+++ b/rdf3x/src/infra/Event.cpp
@@ -103,7 +103,7 @@ bool Event::timedWait(Mutex& mutex,unsigned timeoutMilli)
    return !timeout;
 #else
    struct timeval now; gettimeofday(&now,0);
-   uint64_t nowT=(static_cast<uint64_t>(now.tv_sec)*1000)+(now.tv_usec/10000);
+   uint64_t nowT=(static_cast<uint64_t>(now.tv_sec)*1000)+(now.tv_usec/1000);
    uint64_t future=nowT+timeoutMilli;
    struct timespec abstime;
    abstime.tv_sec=future/1000; abstime.tv_nsec=(future%1000)*1000000;
-- 
2.43.0


From 7030c9c3848bac4416718938c3e91713d975005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:23 +0000
Subject: [PATCH 36/47] fix: plans of subselects and of MINUS leave argument,
 costs, ordering and successor unset

---
 rdf3x/src/cts/PlanGen.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 32b685b..6490961 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -916,6 +916,7 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         Plan* childPlan = p.translate_int((*itr)->getQuery(), *itr->get(), completeEstimate);
         Plan* plan = plans->alloc();
         plan->op = Plan::Subselect;
+        plan->opArg = 0;
         plan->left = childPlan;
         plan->right = reinterpret_cast<Plan*>(
                 const_cast<QueryGraph*>(itr->get()));
@@ -924,6 +925,9 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         if (plan->cardinality > (*itr)->getLimit()) {
             plan->cardinality = (*itr)->getLimit();
         }
+        plan->costs = childPlan->costs;
+        plan->ordering = ~0u;
+        plan->next = 0;
         subqueryPlans.push_back(plan);
     }
 
@@ -1270,9 +1274,13 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         subqueryPlan->subquery = itr;
         Plan* p = plans->alloc();
         p->op = Plan::Minus;
+        p->opArg = 0;
         p->left = plan;
         p->right = subqueryPlan;
+        p->next = 0;
         p->cardinality = plan->cardinality;
+        p->costs = plan->costs;
+        p->ordering = plan->ordering;
         plan = p;
     }
 
-- 
2.43.0


From 88111bf37fad238160ed16a6147de531d6fa940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:23 +0000
Subject: [PATCH 37/47] fix: the planner drops variables used only by MINUS,
 NOT EXISTS, GROUP BY, HAVING or a fourth argument

---
 rdf3x/src/cts/PlanGen.cpp | 58 ++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 6490961..4087d82 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -402,7 +402,10 @@ void PlanGen::buildFullyAggregatedIndexScan(const QueryGraph::SubQuery& query, D
     addPlan(result, plan);
 }
 //---------------------------------------------------------------------------
-static bool isUnused(const QueryGraph::Filter* filter, unsigned val)
+static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node& node, uint64_t val);
+static bool isUnused(const QueryGraph& query, const QueryGraph::Node& node, unsigned val);
+//---------------------------------------------------------------------------
+static bool isUnused(const QueryGraph::Filter* filter, const QueryGraph::Node& node, unsigned val)
     // Check if a variable is unused
 {
     if (!filter)
@@ -410,10 +413,16 @@ static bool isUnused(const QueryGraph::Filter* filter, unsigned val)
     if (filter->type == QueryGraph::Filter::Variable)
         if (filter->id == val)
             return false;
-    return isUnused(filter->arg1, val) && isUnused(filter->arg2, val) && isUnused(filter->arg3, val);
+    if (filter->subquery && !isUnused(*filter->subquery, node, val))
+        return false;
+    if (filter->subpattern && !isUnused(*filter->subpattern, node, val))
+        return false;
+    return isUnused(filter->arg1, node, val) && isUnused(filter->arg2, node, val) && isUnused(filter->arg3, node, val) && isUnused(filter->arg4, node, val);
 }
 //---------------------------------------------------------------------------
-static bool isUnused(const QueryGraph::TableFunction* function, uint64_t val) {
+static bool isUnused(const QueryGraph::TableFunction* function, const QueryGraph::Node& node, uint64_t val) {
+    if (!isUnused(function->associatedFilter.get(), node, val))
+        return false;
     //Check all variables in input
     for (std::vector<QueryGraph::TableFunction::Argument>::const_iterator itr = function->input.begin(); itr != function->input.end();
             ++itr) {
@@ -428,12 +437,12 @@ static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node&
     // Check if a variable is unused outside its primary pattern
 {
     for (vector<QueryGraph::Filter>::const_iterator iter = query.filters.begin(), limit = query.filters.end(); iter != limit; ++iter)
-        if (!isUnused(&(*iter), val))
+        if (!isUnused(&(*iter), node, val))
             return false;
 
     for (vector<QueryGraph::TableFunction>::const_iterator iter = query.tableFunctions.begin(),
             limit = query.tableFunctions.end(); iter != limit; ++iter)
-        if (!isUnused(&(*iter), val))
+        if (!isUnused(&(*iter), node, val))
             return false;
 
     for (vector<QueryGraph::Node>::const_iterator iter = query.nodes.begin(), limit = query.nodes.end(); iter != limit; ++iter) {
@@ -458,6 +467,9 @@ static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node&
             if (!isUnused(*iter2, node, val))
                 return false;
     for (std::vector<std::shared_ptr<QueryGraph>>::const_iterator itr = query.subqueries.begin(); itr != query.subqueries.end(); ++itr)
+        if (! isUnused(**itr, node, val))
+            return false;
+    for (std::vector<std::shared_ptr<QueryGraph>>::const_iterator itr = query.minuses.begin(); itr != query.minuses.end(); ++itr)
         if (! isUnused((*itr)->getQuery(), node, val))
             return false;
     return true;
@@ -477,27 +489,35 @@ static bool isUnused(const QueryGraph& query, const QueryGraph::Node& node, unsi
         }
     }
 
+    //Check if the variable is used to create or filter groups
+    for (const auto &var : query.getGroupBy()) {
+        if (var == val) {
+            return false;
+        }
+    }
+    for (const auto &filter : query.getHavings()) {
+        if (!isUnused(&filter, node, val)) {
+            return false;
+        }
+    }
+
     //Check if the variable is used in some assignments
     for (const auto &tableFunction : query.c_getGlobalAssignments()) {
-        for (const auto &arg : tableFunction.input) {
-            if (arg.id == val) {
+        if (!isUnused(&tableFunction, node, val)) {
+            return false;
+        }
+    }
+
+    //Check if the variable is an argument of an aggregated function
+    if (!query.c_getAggredateHandler().empty()) {
+        const auto assignments = query.c_getAggredateHandler().getInputOutputVars();
+        for (const auto &inputVar : assignments.first) {
+            if (inputVar == val) {
                 return false;
-            } else {
-                //Arg.id could be a variable associated to an aggregated function.
-                //In this case, I should check the arguments of the aggregate
-                //function
-                const auto &ahdl = query.c_getAggredateHandler();
-                const auto &assignments = ahdl.getInputOutputVars();
-                for (const auto &outputVar : assignments.first) {
-                    if (outputVar == val) {
-                        return false;
-                    }
-                }
             }
         }
     }
 
-
     return isUnused(query.getQuery(), node, val);
 }
 //---------------------------------------------------------------------------
-- 
2.43.0


From 0e4462240ddaac0e19063e4774b1beb46a7eabbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:23 +0000
Subject: [PATCH 38/47] fix: a merge union drops variables used outside of
 triple patterns and plain filters

---
 rdf3x/src/cts/PlanGen.cpp | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 4087d82..e8f6d5b 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -695,6 +695,9 @@ PlanGen::Problem* PlanGen::buildOptional(const QueryGraph::SubQuery& query,
     return result;
 }
 //---------------------------------------------------------------------------
+static void collectVariables(const QueryGraph::SubQuery& query, set<unsigned>& vars, const void* except);
+static void collectVariables(const QueryGraph& query, set<unsigned>& vars, const void* except);
+//---------------------------------------------------------------------------
 static void collectVariables(const QueryGraph::Filter* filter, set<unsigned>& vars, const void* except)
     // Collect all variables used in a filter
 {
@@ -705,6 +708,21 @@ static void collectVariables(const QueryGraph::Filter* filter, set<unsigned>& va
     collectVariables(filter->arg1, vars, except);
     collectVariables(filter->arg2, vars, except);
     collectVariables(filter->arg3, vars, except);
+    collectVariables(filter->arg4, vars, except);
+    if (filter->subquery)
+        collectVariables(*filter->subquery, vars, except);
+    if (filter->subpattern)
+        collectVariables(*filter->subpattern, vars, except);
+}
+//---------------------------------------------------------------------------
+static void collectVariables(const QueryGraph::TableFunction& function, set<unsigned>& vars, const void* except)
+    // Collect all variables used in a table function
+{
+    collectVariables(function.associatedFilter.get(), vars, except);
+    for (vector<QueryGraph::TableFunction::Argument>::const_iterator iter = function.input.begin(), limit = function.input.end(); iter != limit; ++iter)
+        if (~(*iter).id)
+            vars.insert((*iter).id);
+    vars.insert(function.output.begin(), function.output.end());
 }
 //---------------------------------------------------------------------------
 static void collectVariables(const QueryGraph::SubQuery& query, set<unsigned>& vars, const void* except)
@@ -720,6 +738,14 @@ static void collectVariables(const QueryGraph::SubQuery& query, set<unsigned>& v
         if (!n.constPredicate) vars.insert(n.predicate);
         if (!n.constObject) vars.insert(n.object);
     }
+    for (vector<QueryGraph::TableFunction>::const_iterator iter = query.tableFunctions.begin(), limit = query.tableFunctions.end(); iter != limit; ++iter)
+        collectVariables(*iter, vars, except);
+    for (vector<QueryGraph::ValuesNode>::const_iterator iter = query.valueNodes.begin(), limit = query.valueNodes.end(); iter != limit; ++iter)
+        vars.insert((*iter).variables.begin(), (*iter).variables.end());
+    for (vector<std::shared_ptr<QueryGraph>>::const_iterator iter = query.subqueries.begin(), limit = query.subqueries.end(); iter != limit; ++iter)
+        collectVariables(**iter, vars, except);
+    for (vector<std::shared_ptr<QueryGraph>>::const_iterator iter = query.minuses.begin(), limit = query.minuses.end(); iter != limit; ++iter)
+        collectVariables((*iter)->getQuery(), vars, except);
     for (vector<QueryGraph::SubQuery>::const_iterator iter = query.optional.begin(), limit = query.optional.end(); iter != limit; ++iter)
         if (except != (&(*iter)))
             collectVariables(*iter, vars, except);
@@ -735,6 +761,17 @@ static void collectVariables(const QueryGraph& query, set<unsigned>& vars, const
 {
     for (QueryGraph::projection_iterator iter = query.projectionBegin(), limit = query.projectionEnd(); iter != limit; ++iter)
         vars.insert(*iter);
+    for (QueryGraph::order_iterator iter = query.orderBegin(), limit = query.orderEnd(); iter != limit; ++iter)
+        vars.insert((*iter).id);
+    vars.insert(query.getGroupBy().begin(), query.getGroupBy().end());
+    for (const auto& filter : query.getHavings())
+        collectVariables(&filter, vars, except);
+    for (const auto& function : query.c_getGlobalAssignments())
+        collectVariables(function, vars, except);
+    if (!query.c_getAggredateHandler().empty()) {
+        const auto assignments = query.c_getAggredateHandler().getInputOutputVars();
+        vars.insert(assignments.first.begin(), assignments.first.end());
+    }
     if (except != (&(query.getQuery())))
         collectVariables(query.getQuery(), vars, except);
 }
-- 
2.43.0


From 16073984d9ea9cc4e509dd398a0d7ef4c32966ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:23 +0000
Subject: [PATCH 39/47] fix: planning a union of one part reads beyond its
 parts

---
 rdf3x/src/cts/PlanGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index e8f6d5b..c13e7da 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -848,7 +848,7 @@ PlanGen::Problem* PlanGen::buildUnion(const vector<QueryGraph::SubQuery>& query,
     for (vector<QueryGraph::SubQuery>::const_iterator iter = query.begin(), limit = query.end(); iter != limit; ++iter)
         collectVariables(*iter, unionVars, 0);
     set_intersection(otherVars.begin(), otherVars.end(), unionVars.begin(), unionVars.end(), back_inserter(commonVars));
-    if (commonVars.size() == 1) {
+    if ((commonVars.size() == 1) && (solutions.size() > 1)) {
         unsigned resultVar = commonVars[0];
         // Can we get all plans sorted in this way?
         bool canMerge = true;
-- 
2.43.0


From 7f0658ed43b46ee244098c7aa43627b6f890a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:23 +0000
Subject: [PATCH 40/47] fix: the patterns of MINUS and NOT EXISTS groups are
 not joined with each other

---
 rdf3x/src/cts/QueryGraph.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index 2d45b78..841630d 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -218,6 +218,23 @@ static bool intersects(const set<unsigned>& a, const set<unsigned>& b, vector<un
     return result;
 }
 //---------------------------------------------------------------------------
+static void constructEdges(QueryGraph::SubQuery& subQuery, set<unsigned>& bindings);
+//---------------------------------------------------------------------------
+static void constructFilterEdges(QueryGraph::Filter* filter)
+    // Construct the edges for the patterns used in a filter
+{
+    if (!filter)
+        return;
+    if (filter->subpattern) {
+        set<unsigned> bindings;
+        constructEdges(*filter->subpattern, bindings);
+    }
+    constructFilterEdges(filter->arg1);
+    constructFilterEdges(filter->arg2);
+    constructFilterEdges(filter->arg3);
+    constructFilterEdges(filter->arg4);
+}
+//---------------------------------------------------------------------------
 static void constructEdges(QueryGraph::SubQuery& subQuery, set<unsigned>& bindings)
     // Construct the edges for a specfic subquery
 {
@@ -264,6 +281,12 @@ static void constructEdges(QueryGraph::SubQuery& subQuery, set<unsigned>& bindin
         }
     }
 
+    // The patterns of filters and minuses are not joined with the other parts
+    for (vector<QueryGraph::Filter>::iterator iter = subQuery.filters.begin(), limit = subQuery.filters.end(); iter != limit; ++iter)
+        constructFilterEdges(&(*iter));
+    for (vector<std::shared_ptr<QueryGraph>>::iterator iter = subQuery.minuses.begin(), limit = subQuery.minuses.end(); iter != limit; ++iter)
+        (*iter)->constructEdges();
+
     // Derive all edges
     subQuery.edges.clear();
     unsigned optionalOfs = patternBindings.size(), unionOfs = optionalOfs + optionalBindings.size();
-- 
2.43.0


From 4d4f0d555b80a16ff072b44d0a56e03b7f06f4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:23 +0000
Subject: [PATCH 41/47] fix: two VALUES blocks with a common variable are not
 joined

---
 rdf3x/src/cts/QueryGraph.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index 841630d..b9d9a1c 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -343,6 +343,11 @@ static void constructEdges(QueryGraph::SubQuery& subQuery, set<unsigned>& bindin
             if (intersects(subqueryBindings[index], valueBindings[index2], common))
                 subQuery.edges.push_back(QueryGraph::Edge(subqueryOfs + index, valueOfs + index2, common));
     }
+    for (unsigned index = 0, limit = valueBindings.size(); index < limit; index++) {
+        for (unsigned index2 = index + 1; index2 < limit; index2++)
+            if (intersects(valueBindings[index], valueBindings[index2], common))
+                subQuery.edges.push_back(QueryGraph::Edge(valueOfs + index, valueOfs + index2, common));
+    }
 }
 //---------------------------------------------------------------------------
 void QueryGraph::constructEdges()
-- 
2.43.0


From fc37f4a58008e1e2b7f3a27ca9e27545eacb94bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:23 +0000
Subject: [PATCH 42/47] fix: the planner numbers VALUES blocks in another way
 than the join edges

---
 rdf3x/src/cts/PlanGen.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index c13e7da..966748b 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -962,7 +962,7 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
     // Check if we could handle the query
     if ((query.nodes.size() + query.optional.size() + query.unions.size() +
                 query.subqueries.size() + query.tableFunctions.size() +
-                singletonNeeded) > BitSet::maxWidth)
+                query.valueNodes.size() + singletonNeeded) > BitSet::maxWidth)
         return 0;
 
     //Is it a subselect?
@@ -1006,15 +1006,6 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
             dpTable[0] = p;
         last = p;
     }
-    for(auto &iter : query.valueNodes) {
-        Problem* p;
-        p = buildValue(query, iter, id++);
-        if (last)
-            last->next = p;
-        else
-            dpTable[0] = p;
-        last = p;
-    }
     for (vector<QueryGraph::SubQuery>::const_iterator iter = query.optional.begin(), limit = query.optional.end(); iter != limit; ++iter, ++id) {
         Problem* p = buildOptional(*iter, entirePlan, id, completeEstimate);
         if (last)
@@ -1047,6 +1038,16 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         last = p;
     }
 
+    for(auto &iter : query.valueNodes) {
+        Problem* p;
+        p = buildValue(query, iter, id++);
+        if (last)
+            last->next = p;
+        else
+            dpTable[0] = p;
+        last = p;
+    }
+
     unsigned functionIds = id;
     for (vector<QueryGraph::TableFunction>::const_iterator iter = query.tableFunctions.begin(), limit = query.tableFunctions.end(); iter != limit; ++iter, ++id) {
         Problem* p = buildTableFunction(*iter, id);
-- 
2.43.0


From f5813ea2ece21f5697b235ae85cf0a5d49052562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:23 +0000
Subject: [PATCH 43/47] fix: NOT EXISTS with a pattern and filters with a
 fourth argument are applied before their variables are bound

---
 rdf3x/src/cts/QueryGraph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index b9d9a1c..01ac14a 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -148,6 +148,9 @@ bool QueryGraph::Filter::isApplicable(const std::set<unsigned>& variables) const
     if (arg1 && (!arg1->isApplicable(variables))) return false;
     if (arg2 && (!arg2->isApplicable(variables))) return false;
     if (arg3 && (!arg3->isApplicable(variables))) return false;
+    if (arg4 && (!arg4->isApplicable(variables))) return false;
+    // A pattern is compared with the complete result
+    if (subpattern) return false;
     if (subquery) {
         //Check whether the subquery mentions all variables
         for(auto idx = subquery->projectionBegin();
-- 
2.43.0


From 9e49b9beef3097b548bd160c8a748d539689eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:05 +0000
Subject: [PATCH 44/47] fix: unordered inputs are merge joined if the query has
 a table function

---
 rdf3x/src/cts/PlanGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 966748b..18f3fa4 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -1193,7 +1193,7 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
                     for (Plan* leftPlan = iter->plans; leftPlan; leftPlan = leftPlan->next) {
                         for (Plan* rightPlan = iter2->plans; rightPlan; rightPlan = rightPlan->next) {
                             // Try a merge joins
-                            if (leftPlan->ordering == rightPlan->ordering) {
+                            if ((~leftPlan->ordering) && (leftPlan->ordering == rightPlan->ordering)) {
                                 for (vector<unsigned>::const_iterator iter = joinOrderings.begin(), limit = joinOrderings.end(); iter != limit; ++iter) {
                                     if (leftPlan->ordering == (*iter)) {
                                         Plan* p = plans->alloc();
-- 
2.43.0


From e8fd89d5a3931c9f7c02bec8584377930ea81fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:34 +0000
Subject: [PATCH 45/47] fix: merge join with an optional side loses the row
 that follows a block

---
 rdf3x/src/rts/MergeJoin.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index add3587..874baf7 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -398,7 +398,9 @@ uint64_t MergeJoin::next()
                                             leftTail[index]->value = UINT64_MAX;
                                         }
                                     }
-                                    scanState = scanStepRight;
+                                    // The next right tuple is still in the shadow
+                                    swapRight();
+                                    scanState = scanHasBoth;
                                     continue;
                                 }
                                 if (Operator::disableSkipping) {
@@ -432,7 +434,9 @@ uint64_t MergeJoin::next()
                                             rightTail[index]->value = UINT64_MAX;
                                         }
                                     }
-                                    scanState = scanStepLeft;
+                                    // The next left tuple is still in the shadow
+                                    swapLeft();
+                                    scanState = scanHasBoth;
                                     continue;
                                 }
                                 if (Operator::disableSkipping) {
@@ -469,14 +473,16 @@ uint64_t MergeJoin::next()
                                 leftInCopy=false;
                             } else {
                                 if ((leftCount=left->next())==0) {
-                                    if (leftOptional) {
+                                    if (leftOptional && scanState==loopSpooledRightHasData) {
                                         if (leftValue->value != UINT64_MAX) {
                                             leftValue->value = UINT64_MAX;
                                             for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
                                                 leftTail[index]->value = UINT64_MAX;
                                             }
                                         }
-                                        scanState = loopEmptyLeft;
+                                        // The next right tuple is still in the shadow
+                                        swapRight();
+                                        scanState = scanHasBoth;
                                         continue;
                                     }
                                     if (Operator::disableSkipping) {
@@ -501,7 +507,8 @@ uint64_t MergeJoin::next()
                                                 rightTail[index]->value = UINT64_MAX;
                                             }
                                         }
-                                        scanState = loopEmptyRight;
+                                        // The current left tuple was not examined yet
+                                        scanState = scanHasBoth;
                                         continue;
                                     }
                                     if (Operator::disableSkipping) {
-- 
2.43.0


From 98357ccbdab9a10165c4f76fed7bfbe969b5357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:34 +0000
Subject: [PATCH 46/47] fix: merge join lets the side skip rows that it has to
 keep without a partner

---
 rdf3x/src/rts/MergeJoin.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index 874baf7..e6d8af8 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -23,8 +23,11 @@ MergeJoin::MergeJoin(Operator* left,Register* leftValue,const std::vector<Regist
     leftShadow.resize(leftTail.size()+2);
     rightShadow.resize(rightTail.size()+2);
 
-    left->addMergeHint(leftValue,rightValue);
-    right->addMergeHint(leftValue,rightValue);
+    // A side whose rows are kept without a partner must not skip any
+    if (!rightOptional)
+        left->addMergeHint(leftValue,rightValue);
+    if (!leftOptional)
+        right->addMergeHint(leftValue,rightValue);
 }
 //---------------------------------------------------------------------------
 MergeJoin::~MergeJoin()
-- 
2.43.0


From 8e94915dc27519571eda7faa8fff01701a03e9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:01 +0000
Subject: [PATCH 47/47] fix: nested loop filter does not delete its input

---
 rdf3x/src/rts/NestedLoopFilter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/rts/NestedLoopFilter.cpp b/rdf3x/src/rts/NestedLoopFilter.cpp
index de7fc9b..38639f2 100644
--- a/rdf3x/src/rts/NestedLoopFilter.cpp
+++ b/rdf3x/src/rts/NestedLoopFilter.cpp
@@ -22,6 +22,7 @@ NestedLoopFilter::NestedLoopFilter(Operator* input,Register* filter,const std::v
 NestedLoopFilter::~NestedLoopFilter()
    // Destructor
 {
+   delete input;
 }
 //---------------------------------------------------------------------------
 uint64_t NestedLoopFilter::first()
-- 
2.43.0

