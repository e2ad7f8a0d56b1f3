From bac65309ebfa12b0422e7d8f0cc19f8854b1a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 01/26] fix: FactoryOp includes the ConstantResampler and
 Function headers it registers

---
 libs/api/src/FactoryOp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index cb51796..32b1184 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -15,6 +15,7 @@
 #include "rtbot/std/And.h"
 #include "rtbot/std/AutoRegressive.h"
 #include "rtbot/std/Constant.h"
+#include "rtbot/std/ConstantResampler.h"
 #include "rtbot/std/CosineResampler.h"
 #include "rtbot/std/Count.h"
 #include "rtbot/std/CumulativeSum.h"
@@ -22,6 +23,7 @@
 #include "rtbot/std/Division.h"
 #include "rtbot/std/EqualTo.h"
 #include "rtbot/std/FiniteImpulseResponse.h"
+#include "rtbot/std/Function.h"
 #include "rtbot/std/GreaterThan.h"
 #include "rtbot/std/GreaterThanStream.h"
 #include "rtbot/std/HermiteResampler.h"
-- 
2.43.0


From e7d2e43724b2ab69141bec19dc86aa3380f4e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 02/26] fix: Join keeps synchronizing until the fronts match or
 a port runs empty

A single pass takes the latest front as the reference before dropping, so a
match exposed by the dropping itself was delayed until the next message, or
lost at the end of the stream, depending on the arrival order.
---
 libs/core/include/rtbot/Join.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libs/core/include/rtbot/Join.h b/libs/core/include/rtbot/Join.h
index 1488335..00cd4b8 100644
--- a/libs/core/include/rtbot/Join.h
+++ b/libs/core/include/rtbot/Join.h
@@ -58,12 +58,17 @@ class Join : public Operator<T, V> {
       }
     }
 
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
-      if (it->first == inputPort) continue;
+    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end();) {
       while (!it->second.empty() && (it->second.front().time < this->dataInputs.find(inputPort)->second.front().time)) {
         it->second.setSum(it->second.getSum() - it->second.front().value);
         it->second.pop_front();
       }
+      if (!it->second.empty() && it->second.front().time > this->dataInputs.find(inputPort)->second.front().time) {
+        // this port moved past the latest time found so far, the other ports have to catch up with it
+        inputPort = it->first;
+        it = this->dataInputs.begin();
+      } else
+        ++it;
     }
 
     bool all_ready = true;
-- 
2.43.0


From 8f3ce9e047c915d21842018ef60915366daad8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 03/26] fix: Linear pairs each coefficient with its own port

The ports were visited in the alphabetical order of the map, so with ten or
more ports the coefficients were applied to the wrong inputs.
---
 libs/std/include/rtbot/std/Linear.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/std/include/rtbot/std/Linear.h b/libs/std/include/rtbot/std/Linear.h
index 70b59a9..8f328fe 100644
--- a/libs/std/include/rtbot/std/Linear.h
+++ b/libs/std/include/rtbot/std/Linear.h
@@ -26,14 +26,14 @@ struct Linear : public Join<T, V> {
 
   OperatorMessage<T, V> processData() override {
     OperatorMessage<T, V> outputMsgs;
-    int i = 0;
     Message<T, V> out;
     out.value = 0;
     out.time = 0;
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
+    for (size_t i = 0; i < this->coeff.size(); i++) {
+      // the map iterates over the ports in alphabetical order ("i10" goes before "i2"), look them up by name
+      auto it = this->dataInputs.find("i" + to_string(i + 1));
       out.value = out.value + it->second.front().value * this->coeff.at(i);
       out.time = it->second.front().time;
-      i++;
     }
 
     PortMessage<T, V> v;
-- 
2.43.0


From 2a42d8c82dc911ee013ea718dd65f49ecd2e9184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 04/26] fix: Difference uses the time of the oldest message,
 not its value

---
 libs/std/include/rtbot/std/Difference.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/Difference.h b/libs/std/include/rtbot/std/Difference.h
index 35c133d..6c3b75c 100644
--- a/libs/std/include/rtbot/std/Difference.h
+++ b/libs/std/include/rtbot/std/Difference.h
@@ -31,7 +31,7 @@ struct Difference : public Operator<T, V> {
     Message<T, V> m0 = this->getDataInputMessage(inputPort, 0);
     Message<T, V> out;
     out.value = m1.value - m0.value;
-    out.time = (this->useOldestTime) ? m1.time : m0.value;
+    out.time = (this->useOldestTime) ? m1.time : m0.time;
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From 7b9eba7f84d3bbb9527b418cc7e4d7b5d6298447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 05/26] fix: TimeShift keeps the time for a zero shift and
 stops at 0 for a negative one

With an unsigned time type the product was never negative: a shift past 0
wrapped to a huge time and a zero shift moved every message to time 0.
---
 libs/std/include/rtbot/std/TimeShift.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/std/include/rtbot/std/TimeShift.h b/libs/std/include/rtbot/std/TimeShift.h
index 587d0bc..14a53e0 100644
--- a/libs/std/include/rtbot/std/TimeShift.h
+++ b/libs/std/include/rtbot/std/TimeShift.h
@@ -32,10 +32,13 @@ struct TimeShift : public Operator<T, V> {
     OperatorMessage<T, V> outputMsgs;
     Message<T, V> out = this->getDataInputLastMessage(inputPort);
 
-    out.time = ((this->dt * this->times < 0) && (out.time > abs((double)(this->dt * this->times))) ||
-                (this->dt * this->times > 0))
-                   ? out.time + this->dt * this->times
-                   : 0;
+    // T can be unsigned, so a negative shift is subtracted, stopping at 0
+    bool forward = (this->dt >= 0) == (this->times >= 0);
+    T shift = (this->dt >= 0 ? this->dt : -this->dt) * (this->times >= 0 ? (T)this->times : -(T)this->times);
+    if (forward)
+      out.time = out.time + shift;
+    else
+      out.time = (out.time > shift) ? out.time - shift : 0;
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From 2f509ab77b43eb8c4c34993c55f840c12cd2ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 06/26] fix: RelativeStrengthIndex saves and restores its
 running averages

---
 .../rtbot/finance/RelativeStrengthIndex.h     | 38 +++++++++++++++++--
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
index 8f2b857..898f8d8 100644
--- a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
+++ b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
@@ -18,6 +18,36 @@ struct RelativeStrengthIndex : public Operator<T, V> {
     this->addOutput("o1");
   }
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+
+    // Serialize the averages
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&prevAverageGain),
+                 reinterpret_cast<const unsigned char*>(&prevAverageGain) + sizeof(prevAverageGain));
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&prevAverageLoss),
+                 reinterpret_cast<const unsigned char*>(&prevAverageLoss) + sizeof(prevAverageLoss));
+
+    // Serialize initialized
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&initialized),
+                 reinterpret_cast<const unsigned char*>(&initialized) + sizeof(initialized));
+
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator& it) override {
+    Operator<T, V>::restore(it);
+
+    // Deserialize the averages
+    prevAverageGain = *reinterpret_cast<const V*>(&(*it));
+    it += sizeof(prevAverageGain);
+    prevAverageLoss = *reinterpret_cast<const V*>(&(*it));
+    it += sizeof(prevAverageLoss);
+
+    // Deserialize initialized
+    initialized = *reinterpret_cast<const bool*>(&(*it));
+    it += sizeof(initialized);
+  }
+
   string typeName() const override { return "RelativeStrengthIndex"; }
 
   OperatorMessage<T, V> processData() override {
@@ -82,10 +112,10 @@ struct RelativeStrengthIndex : public Operator<T, V> {
   }
 
  private:
-  V averageGain;
-  V averageLoss;
-  V prevAverageGain;
-  V prevAverageLoss;
+  V averageGain = 0;
+  V averageLoss = 0;
+  V prevAverageGain = 0;
+  V prevAverageLoss = 0;
   bool initialized = false;
 };
 
-- 
2.43.0


From 3d824a4ff316e23177dbd6182340d70368657fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 07/26] fix: Pipeline saves and restores the state of its inner
 operators

---
 libs/api/include/rtbot/Pipeline.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/api/include/rtbot/Pipeline.h b/libs/api/include/rtbot/Pipeline.h
index bae4a10..3fe2777 100644
--- a/libs/api/include/rtbot/Pipeline.h
+++ b/libs/api/include/rtbot/Pipeline.h
@@ -34,6 +34,21 @@ struct Pipeline : public Operator<T, V> {
     return *this;
   }
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+    // the state of the pipeline is the state of its operators
+    for (auto& [opId, op] : all_op) {
+      Bytes opBytes = op->collect();
+      bytes.insert(bytes.end(), opBytes.begin(), opBytes.end());
+    }
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator& it) override {
+    Operator<T, V>::restore(it);
+    for (auto& [opId, op] : all_op) op->restore(it);
+  }
+
   string typeName() const override { return "Pipeline"; }
 
   void receiveData(Message<T, V> msg, string inputPort = "") override {
-- 
2.43.0


From 16542b806519bacbd4ebd7b40d81433ae055cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 08/26] fix: Composite saves and restores the state of its
 inner operators

---
 libs/core/include/rtbot/Composite.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/core/include/rtbot/Composite.h b/libs/core/include/rtbot/Composite.h
index 486ac2d..e27d44c 100644
--- a/libs/core/include/rtbot/Composite.h
+++ b/libs/core/include/rtbot/Composite.h
@@ -45,6 +45,21 @@ struct Composite : public Operator<T, V>  // TODO: improve from chain to graph
 
   Composite(string const &id) : Operator<T, V>(id) { this->input == nullptr; }
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+    // the state of the composite is the state of its operators
+    for (auto &[opId, op] : ops) {
+      Bytes opBytes = op->collect();
+      bytes.insert(bytes.end(), opBytes.begin(), opBytes.end());
+    }
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator &it) override {
+    Operator<T, V>::restore(it);
+    for (auto &[opId, op] : ops) op->restore(it);
+  }
+
   string typeName() const override { return "Composite"; }
 
   virtual ~Composite() = default;
-- 
2.43.0


From a44fb4349983e756b9ffb89b9fe7d0a34674010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 09/26] fix: Program throws the entry operator errors it
 creates

---
 libs/api/src/Program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index 09443ce..a761c5f 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -65,14 +65,14 @@ void Program::init() {
     this->all_op.clear();
     this->entryOperator.clear();
     this->outputFilter.clear();
-    runtime_error("Entry operator was not found");
+    throw runtime_error("Entry operator was not found");
   }
 
   if (this->all_op.at(this->entryOperator)->hasControlInputs()) {
     this->all_op.clear();
     this->entryOperator.clear();
     this->outputFilter.clear();
-    runtime_error("Entry operator can not have control inputs");
+    throw runtime_error("Entry operator can not have control inputs");
   }
 }
 
-- 
2.43.0


From a7ecf2c7d1abb624d3abaaa7b4c19d0921c9cb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 10/26] fix: Cosine and Hermite resamplers reject a time
 interval of 0

The grid never advanced and the first full buffer looped forever.
---
 libs/std/include/rtbot/std/CosineResampler.h  | 2 ++
 libs/std/include/rtbot/std/HermiteResampler.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/libs/std/include/rtbot/std/CosineResampler.h b/libs/std/include/rtbot/std/CosineResampler.h
index b599ff5..7928ed0 100644
--- a/libs/std/include/rtbot/std/CosineResampler.h
+++ b/libs/std/include/rtbot/std/CosineResampler.h
@@ -20,6 +20,8 @@ struct CosineResampler : public Operator<T, V> {
   CosineResampler() = default;
 
   CosineResampler(string const &id, T dt) : Operator<T, V>(id) {
+    if (dt <= 0) throw runtime_error(typeName() + ": time interval must be positive");
+
     this->dt = dt;
     this->carryOver = 0;
     this->addDataInput("i1", CosineResampler::size);
diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index 2d0c84d..b0efcfd 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -21,6 +21,8 @@ struct HermiteResampler : public Operator<T, V> {
   HermiteResampler() = default;
 
   HermiteResampler(string const& id, T dt) : Operator<T, V>(id) {
+    if (dt <= 0) throw runtime_error(typeName() + ": time interval must be positive");
+
     this->dt = dt;
     this->carryOver = 0;
     this->addDataInput("i1", HermiteResampler::size);
-- 
2.43.0


From 3e5745f0ba390a03115cf706313ea0196ec93a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 11/26] fix: HermiteResampler visits the first interval only
 once

When no grid point fell into the first interval the artificial point was not
created and the next message resampled that interval again, off the grid.
---
 libs/std/include/rtbot/std/HermiteResampler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index b0efcfd..bb74009 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -85,6 +85,8 @@ struct HermiteResampler : public Operator<T, V> {
     PortMessage<T, V> toEmit;
 
     if (before.get() == nullptr) {
+      // create the point before the first one now, so that the interval [0,1] is visited only once
+      this->get(-1, inputPort);
       toEmit = this->lookAt(0, 1, inputPort);
       auto toAdd = this->lookAt(1, 2, inputPort);
       toEmit.insert(toEmit.end(), toAdd.begin(), toAdd.end());
-- 
2.43.0


From adb5bed0265b31bbb568f67e91ca228bc8275fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 12/26] fix: HermiteResampler fits the line without overflowing
 the integer time type

The squared times overflowed for big timestamps, and the point before the
first message wrapped when its time would be negative.
---
 libs/std/include/rtbot/std/HermiteResampler.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index bb74009..3dc7b15 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -146,12 +146,13 @@ struct HermiteResampler : public Operator<T, V> {
     if (index >= 0)
       return this->getDataInputMessage(inputPort, index);
     else if (before.get() == nullptr) {
-      vector<T> x;
+      vector<V> x;
       vector<V> y;
       V average = 0;
       size_t n = this->getDataInputSize(inputPort);
       for (int i = 0; i < n; i++) {
-        x.push_back(this->getDataInputMessage(inputPort, i).time);
+        // relative to the first message, to stay exact no matter how big the times are
+        x.push_back((V)(this->getDataInputMessage(inputPort, i).time - this->getDataInputMessage(inputPort, 0).time));
         y.push_back(this->getDataInputMessage(inputPort, i).value);
       }
       for (size_t i = 1; i < n; i++) {
@@ -161,7 +162,7 @@ struct HermiteResampler : public Operator<T, V> {
       average = average / (n - 1);
       pair<V, V> pair = this->getLineLeastSquares(x, y);
       T time = this->getDataInputMessage(inputPort, 0).time + (index * ((T)average));
-      V value = pair.second * time + pair.first;
+      V value = pair.second * (index * (V)((T)average)) + pair.first;
       before = make_unique<Message<T, V>>(Message<T, V>(time, value));
     }
     return *(before.get());
@@ -175,9 +176,9 @@ struct HermiteResampler : public Operator<T, V> {
       y is the vector of the y-axis
       the coordinates of a point are (x_i;y_i)
   */
-  pair<V, V> getLineLeastSquares(vector<T> x, vector<V> y) {
+  pair<V, V> getLineLeastSquares(vector<V> x, vector<V> y) {
     V sumY = 0, sumXY = 0, n, m;
-    T sumX = 0, sumX2 = 0;
+    V sumX = 0, sumX2 = 0;
     for (size_t i = 0; i < x.size(); i++) {
       sumX = sumX + x.at(i);
       sumY = sumY + y.at(i);
@@ -185,7 +186,7 @@ struct HermiteResampler : public Operator<T, V> {
       sumX2 = sumX2 + pow(x.at(i), 2);
     }
 
-    T denominator = (x.size() * sumX2 - pow(sumX, 2));
+    V denominator = (x.size() * sumX2 - pow(sumX, 2));
 
     if (denominator == 0) {
       m = (V)(y.at(1) - y.at(0)) / (V)(x.at(1) - x.at(0));
-- 
2.43.0


From b3fe47006160bc7183f45594e9ac8c26d186c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 13/26] fix: AutoRegressive applies the first coefficient to
 the newest output, as documented

---
 libs/std/include/rtbot/std/AutoRegressive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/AutoRegressive.h b/libs/std/include/rtbot/std/AutoRegressive.h
index b40ce25..1964ea0 100644
--- a/libs/std/include/rtbot/std/AutoRegressive.h
+++ b/libs/std/include/rtbot/std/AutoRegressive.h
@@ -60,7 +60,7 @@ struct AutoRegressive : public Operator<T, V> {
       throw runtime_error(typeName() + " : more than 1 input port found");
     size_t n = this->getDataInputMaxSize(inputPort);
     Message<T, V> out = this->getDataInputLastMessage(inputPort);
-    for (auto i = 0; i < n; i++) out.value += this->coeff[i] * this->getDataInputMessage(inputPort, i).value;
+    for (auto i = 0; i < n; i++) out.value += this->coeff[i] * this->getDataInputMessage(inputPort, n - 1 - i).value;
     OperatorMessage<T, V> toEmit;
     PortMessage<T, V> v;
     v.push_back(out);
-- 
2.43.0


From cf112dcc587d2f851299ea835ef159e72f1ae998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 14/26] fix: RelativeStrengthIndex is written to JSON with the
 n it was created with

---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 32b1184..9dd9671 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -383,7 +383,7 @@ void from_json(const json& j, Identity<T, V>& p) {
 
 template <class T, class V>
 void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
-  j = json{{"type", p.typeName()}, {"id", p.id}, {"n", p.getDataInputMaxSize()}};
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"n", p.getDataInputMaxSize() - 1}};
 }
 
 template <class T, class V>
-- 
2.43.0


From 2b1cda30c409c1c2eb479c693aef1cc7677cc5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 15/26] fix: Difference keeps useOldestTime through JSON

---
 libs/api/src/FactoryOp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 9dd9671..00d04f9 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -353,12 +353,12 @@ void from_json(const json& j, Power<T, V>& p) {
 
 template <class T, class V>
 void to_json(json& j, const Difference<T, V>& p) {
-  j = json{{"type", p.typeName()}, {"id", p.id}};
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"useOldestTime", p.getUseOldestTime()}};
 }
 
 template <class T, class V>
 void from_json(const json& j, Difference<T, V>& p) {
-  p = Difference<T, V>(j["id"].get<string>());
+  p = Difference<T, V>(j["id"].get<string>(), j.value("useOldestTime", true));
 }
 
 template <class T, class V>
-- 
2.43.0


From 7dd66372a66c4910dbce1a0b7862ff733ae7ffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 16/26] fix: Variable value and TimeShift dt are read from JSON
 without truncation to int

---
 libs/api/src/FactoryOp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 00d04f9..2790c69 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -298,7 +298,7 @@ void to_json(json& j, const Variable<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Variable<T, V>& p) {
-  p = Variable<T, V>(j["id"].get<string>(), j.value("value", 0));
+  p = Variable<T, V>(j["id"].get<string>(), j.value("value", (V)0));
 }
 
 template <class T, class V>
@@ -308,7 +308,7 @@ void to_json(json& j, const TimeShift<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, TimeShift<T, V>& p) {
-  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", 1), j.value("times", 1));
+  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", (T)1), j.value("times", 1));
 }
 
 template <class T, class V>
-- 
2.43.0


From 4b88dc8c0ebe77f3b0b534d3d45b9dac1db96b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 17/26] fix: Function can be read from JSON

The interpolation was stored under the same key as the operator type, so
no Function survived the trip through JSON.
---
 libs/api/src/FactoryOp.cpp             | 4 ++--
 libs/std/include/rtbot/std/Function.md | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 2790c69..953fc90 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -417,7 +417,7 @@ void to_json(json& j, const Function<T, V>& p) {
   for (const auto& point : p.getPoints()) {
     points_array.push_back({point.first, point.second});
   }
-  j = json{{"type", p.typeName()}, {"id", p.id}, {"points", points_array}, {"type", p.getInterpolationType()}};
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"points", points_array}, {"interpolation", p.getInterpolationType()}};
 }
 
 template <class T, class V>
@@ -426,7 +426,7 @@ void from_json(const json& j, Function<T, V>& p) {
   for (const auto& point : j["points"]) {
     points.push_back({point[0].get<V>(), point[1].get<V>()});
   }
-  p = Function<T, V>(j["id"].get<string>(), points, j.value("type", "linear"));
+  p = Function<T, V>(j["id"].get<string>(), points, j.value("interpolation", "linear"));
 }
 
 /* Operators serialization - deserialization - end */
diff --git a/libs/std/include/rtbot/std/Function.md b/libs/std/include/rtbot/std/Function.md
index 233e237..146ca87 100644
--- a/libs/std/include/rtbot/std/Function.md
+++ b/libs/std/include/rtbot/std/Function.md
@@ -23,7 +23,7 @@ jsonschema:
         maxItems: 2
         items:
           type: number
-    type:
+    interpolation:
       type: string
       enum: ["linear", "hermite"]
       default: "linear"
-- 
2.43.0


From a703d3a81cafc4544897f9e7df6eed274a689604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 18/26] fix: Variable answers every query instead of dropping
 the ones still waiting

A query that could not be answered yet was evicted by the next one, so the
output depended on the order in which data and queries happened to arrive.
---
 libs/std/include/rtbot/std/Variable.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libs/std/include/rtbot/std/Variable.h b/libs/std/include/rtbot/std/Variable.h
index 40ec486..b9c422e 100644
--- a/libs/std/include/rtbot/std/Variable.h
+++ b/libs/std/include/rtbot/std/Variable.h
@@ -16,7 +16,7 @@ class Variable : public Operator<T, V> {
     this->value = value;
     this->initialized = false;
     this->addDataInput("i1");
-    this->addControlInput("c1", 1);
+    this->addControlInput("c1");
     this->addOutput("o1");
   }
 
@@ -58,14 +58,23 @@ class Variable : public Operator<T, V> {
     return {};
   }
 
-  virtual OperatorMessage<T, V> processData() { return query(); }
+  virtual OperatorMessage<T, V> processData() { return queryAll(); }
 
-  virtual OperatorMessage<T, V> processControl() { return query(); }
+  virtual OperatorMessage<T, V> processControl() { return queryAll(); }
 
  private:
   V value;
   bool initialized;
 
+  // several queries may have been waiting for the data that has just arrived
+  OperatorMessage<T, V> queryAll() {
+    OperatorMessage<T, V> outputMsgs = query();
+    if (outputMsgs.empty()) return outputMsgs;
+
+    for (auto next = query(); !next.empty(); next = query()) this->mergeOutput(outputMsgs, next);
+    return outputMsgs;
+  }
+
   OperatorMessage<T, V> query() {
     OperatorMessage<T, V> outputMsgs;
 
-- 
2.43.0


From f58f6ed776ad582b6632c68b16e13975d23bdf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 19/26] fix: CumulativeSum saves a message that was received
 but not processed yet

---
 libs/std/include/rtbot/std/CumulativeSum.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/CumulativeSum.h b/libs/std/include/rtbot/std/CumulativeSum.h
index adfdefd..663583f 100644
--- a/libs/std/include/rtbot/std/CumulativeSum.h
+++ b/libs/std/include/rtbot/std/CumulativeSum.h
@@ -20,7 +20,7 @@ struct CumulativeSum : public Operator<T, V> {
   }
 
   virtual Bytes collect() {
-    Bytes bytes;
+    Bytes bytes = Operator<T, V>::collect();
 
     // Serialize accumulated
     bytes.insert(bytes.end(), reinterpret_cast<const unsigned char *>(&accumulated),
@@ -30,6 +30,7 @@ struct CumulativeSum : public Operator<T, V> {
   }
 
   virtual void restore(Bytes::const_iterator &it) {
+    Operator<T, V>::restore(it);
     // Deserialize accumulated
     accumulated = *reinterpret_cast<const V *>(&(*it));
     it += sizeof(accumulated);
-- 
2.43.0


From 699302c76d0a75c84f79e8ec509414ec9bc77fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 20/26] fix: deleting a program discards its buffered messages

---
 libs/api/include/rtbot/FactoryOp.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 9449778..8153857 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -63,7 +63,10 @@ class FactoryOp {
 
   string createProgram(string const& id, string const& json_program);
 
-  bool deleteProgram(string const& id) { return (programs.erase(id) == 1) ? true : false; }
+  bool deleteProgram(string const& id) {
+    messageBuffer.erase(id);
+    return (programs.erase(id) == 1) ? true : false;
+  }
 
   bool addToMessageBuffer(const string& apId, const string& portId, Message<uint64_t, double> msg) {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
-- 
2.43.0


From 088e77f13f9b099d6c18b9cfed889f8ce318e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 21/26] fix: buffered messages are consumed once even if
 processing them fails

---
 libs/api/include/rtbot/FactoryOp.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 8153857..ea641a8 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -78,9 +78,10 @@ class FactoryOp {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
     if (this->messageBuffer.count(apId) > 0) {
       if (!this->messageBuffer.at(apId).empty()) {
-        auto result = processMessageMap(apId, this->messageBuffer.at(apId));
-        this->messageBuffer.at(apId).clear();
+        // taken out first, so that they are consumed even if processing them raises an error
+        auto messages = this->messageBuffer.at(apId);
         this->messageBuffer.erase(apId);
+        auto result = processMessageMap(apId, messages);
         if (!result.empty()) return result;
       }
     }
@@ -91,9 +92,10 @@ class FactoryOp {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
     if (this->messageBuffer.count(apId) > 0) {
       if (!this->messageBuffer.at(apId).empty()) {
-        auto result = processMessageMapDebug(apId, this->messageBuffer.at(apId));
-        this->messageBuffer.at(apId).clear();
+        // taken out first, so that they are consumed even if processing them raises an error
+        auto messages = this->messageBuffer.at(apId);
         this->messageBuffer.erase(apId);
+        auto result = processMessageMapDebug(apId, messages);
         if (!result.empty()) return result;
       }
     }
-- 
2.43.0


From f7bc044aef02bd9d55f33673893b5db892e4eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 22/26] fix: Function scales the hermite tangents to the
 interval

---
 libs/std/include/rtbot/std/Function.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/std/include/rtbot/std/Function.h b/libs/std/include/rtbot/std/Function.h
index 2b1cf91..a8069d2 100644
--- a/libs/std/include/rtbot/std/Function.h
+++ b/libs/std/include/rtbot/std/Function.h
@@ -113,14 +113,17 @@ struct Function : public Operator<T, V> {
     } else {
       if (i == 0 && x < points[0].first) {
         msg.value = hermiteInterpolate(points[0].second, points[1].second, getTangent(0), getTangent(1),
+                                       points[1].first - points[0].first,
                                        (x - points[0].first) / (points[1].first - points[0].first));
       } else if (i >= points.size() - 2) {
         size_t last = points.size() - 1;
         msg.value =
             hermiteInterpolate(points[last - 1].second, points[last].second, getTangent(last - 1), getTangent(last),
+                               points[last].first - points[last - 1].first,
                                (x - points[last - 1].first) / (points[last].first - points[last - 1].first));
       } else {
         msg.value = hermiteInterpolate(points[i].second, points[i + 1].second, getTangent(i), getTangent(i + 1),
+                                       points[i + 1].first - points[i].first,
                                        (x - points[i].first) / (points[i + 1].first - points[i].first));
       }
     }
@@ -140,7 +143,8 @@ struct Function : public Operator<T, V> {
 
   static V linearInterpolate(V x1, V y1, V x2, V y2, V x) { return y1 + (y2 - y1) * (x - x1) / (x2 - x1); }
 
-  static V hermiteInterpolate(V y0, V y1, V m0, V m1, V mu) {
+  // m0 and m1 are the slopes at the ends of an interval of length h, mu runs from 0 to 1
+  static V hermiteInterpolate(V y0, V y1, V m0, V m1, V h, V mu) {
     V mu2 = mu * mu;
     V mu3 = mu2 * mu;
     V h00 = 2 * mu3 - 3 * mu2 + 1;
@@ -148,7 +152,7 @@ struct Function : public Operator<T, V> {
     V h01 = -2 * mu3 + 3 * mu2;
     V h11 = mu3 - mu2;
 
-    return h00 * y0 + h10 * m0 + h01 * y1 + h11 * m1;
+    return h00 * y0 + h10 * h * m0 + h01 * y1 + h11 * h * m1;
   }
 
   V getTangent(size_t i) const {
-- 
2.43.0


From dba2f0125130332aec5a2000e9bbf88c82a214f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 23/26] fix: emit keeps its own message when a connected
 operator reported under the same port

---
 libs/core/include/rtbot/Operator.h | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/libs/core/include/rtbot/Operator.h b/libs/core/include/rtbot/Operator.h
index 90de551..fb36961 100644
--- a/libs/core/include/rtbot/Operator.h
+++ b/libs/core/include/rtbot/Operator.h
@@ -468,14 +468,7 @@ class Operator {
 
     if (outputPorts.empty()) outputPorts = this->getOutputs();
     for (auto outputPort : outputPorts) {
-      PortMessage<T, V> v;
-      v.push_back(msg);
-      if (out.count(this->id) == 0) {
-        OperatorMessage<T, V> msgs;
-        msgs.emplace(outputPort, v);
-        out.emplace(this->id, msgs);
-      } else
-        out.find(this->id)->second.emplace(outputPort, v);
+      out[this->id][outputPort].push_back(msg);
       if (this->outputs.count(outputPort) > 0) {
         for (auto connection : outputs.find(outputPort)->second) {
           if (connection.fOperator->isDataInput(connection.inputPort))
-- 
2.43.0


From e0631dab9a38bbf0f47881ff55566b05febfd32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 24/26] fix: a port listed twice in the program output section
 is returned once

---
 libs/api/include/rtbot/Program.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/libs/api/include/rtbot/Program.h b/libs/api/include/rtbot/Program.h
index d3d2f61..ea8ceab 100644
--- a/libs/api/include/rtbot/Program.h
+++ b/libs/api/include/rtbot/Program.h
@@ -79,12 +79,7 @@ struct Program {
         auto outResults = opResults.at(op->first);
         for (int i = 0; i < op->second.size(); i++) {
           if (outResults.count(op->second.at(i)) > 0) {
-            OperatorMessage<uint64_t, double> opReturn;
-            opReturn.emplace(op->second.at(i), outResults.at(op->second.at(i)));
-            if (toReturn.count(op->first) == 0)
-              toReturn.emplace(op->first, opReturn);
-            else
-              Operator<uint64_t, double>::mergeOutput(toReturn[op->first], opReturn);
+            toReturn[op->first][op->second.at(i)] = outResults.at(op->second.at(i));
           }
         }
       }
-- 
2.43.0


From e998f86af158560ba90ccb5fc1c403f5d79f8bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 25/26] fix: a Join without numPorts aborted instead of getting
 its documented default of 2

---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 953fc90..4159955 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -118,7 +118,7 @@ void to_json(json& j, const Join<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Join<T, V>& p) {
-  p = Join<T, V>(j["id"].get<string>(), j["numPorts"].get<size_t>());
+  p = Join<T, V>(j["id"].get<string>(), j.value("numPorts", (size_t)2));
 }
 
 template <class T, class V>
-- 
2.43.0


From 44f30fbade8cb490806d8b431275b7e5a6e7845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:07 +0000
Subject: [PATCH 26/26] fix: an error inside a Pipeline no longer makes an
 inner operator execute again without a message

---
 libs/api/include/rtbot/Pipeline.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/api/include/rtbot/Pipeline.h b/libs/api/include/rtbot/Pipeline.h
index 3fe2777..0e2fc2f 100644
--- a/libs/api/include/rtbot/Pipeline.h
+++ b/libs/api/include/rtbot/Pipeline.h
@@ -63,11 +63,13 @@ struct Pipeline : public Operator<T, V> {
 
   ProgramMessage<T, V> executeData() override {
     ProgramMessage<T, V> opResults;
-    for (auto id : this->toProcess) {
+    while (!this->toProcess.empty()) {
+      // taken out first: an error of an operator must not make it execute again without a new message
+      string id = *(this->toProcess.begin());
+      this->toProcess.erase(id);
       auto results = inputs.at(id)->executeData();
       Operator<T, V>::mergeOutput(opResults, results);
     }
-    this->toProcess.clear();
     if (opResults.empty()) return opResults;
 
     // add the prefix of the pipeline: {id, {port,value}} --> {id:port, value}
-- 
2.43.0

