From 156be3b3f6646637afa630150c78b88417aee480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:46 +0000
Subject: [PATCH 01/65] fix: count institutions and regions in the live agent
 registries

Institution::EnterNotify and Region::EnterNotify did not register the agent
with the context, while Agent::Decommission unregisters every agent: the
number of agents of such a prototype or spec was 0 while they were deployed
and became negative when one was decommissioned.
---
 src/institution.cc | 1 +
 src/region.cc      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/institution.cc b/src/institution.cc
index ad07f95..9b6af7b 100644
--- a/src/institution.cc
+++ b/src/institution.cc
@@ -37,6 +37,7 @@ void Institution::Build(Agent* parent) {
 }
 
 void Institution::EnterNotify() {
+  Agent::EnterNotify();
   context()->RegisterTimeListener(this);
 }
 
diff --git a/src/region.cc b/src/region.cc
index dae74b6..957e6a0 100644
--- a/src/region.cc
+++ b/src/region.cc
@@ -26,6 +26,7 @@ void Region::Build(Agent* parent) {
 }
 
 void Region::EnterNotify() {
+  Agent::EnterNotify();
   context()->RegisterTimeListener(this);
 }
 
-- 
2.43.0


From 780855dd34b1334ff0e0d398c414933ad96f3380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:46 +0000
Subject: [PATCH 02/65] fix: lifetime_force no longer throws when it shortens a
 deployed agent's life

Shortening the lifetime of a deployed agent to before the current time step
(or making it infinite) called lifetime(), which throws ValueError for every
deployed agent. End the lifetime with the current time step instead, and keep
-1 as an infinite lifetime.
---
 src/agent.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/agent.cc b/src/agent.cc
index b5e8c51..86df05e 100644
--- a/src/agent.cc
+++ b/src/agent.cc
@@ -117,8 +117,8 @@ void Agent::lifetime_force(int n_timesteps) {
     lifetime(n_timesteps);
   }
   catch (ValueError e){
-    if(enter_time_+n_timesteps <= context()->time()){
-      lifetime(context()->time() - enter_time_ + 1);
+    if(n_timesteps != -1 && enter_time_+n_timesteps <= context()->time()){
+      lifetime_ = context()->time() - enter_time_ + 1;
     }
     else{
       lifetime_ = n_timesteps;    
-- 
2.43.0


From 856f90bad5625708b73b0e98a9be8c9189c57415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:46 +0000
Subject: [PATCH 03/65] fix: a listener registered twice gets one tick and tock
 per time step

Registering a time listener that is already registered added it a second time
to the tick/tock list (but not to the decision list), so it was ticked and
tocked twice in every time step.
---
 src/timer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/timer.cc b/src/timer.cc
index 49fab5e..2a41cbf 100644
--- a/src/timer.cc
+++ b/src/timer.cc
@@ -191,6 +191,10 @@ void Timer::DoDecom() {
 }
 
 void Timer::RegisterTimeListener(TimeListener* agent) {
+  std::map<int, TimeListener*>::iterator it = tickers_.find(agent->id());
+  if (it != tickers_.end() && it->second == agent) {
+    return;  // already registered
+  }
   tickers_[agent->id()] = agent;
   if (agent->IsShim()) {
     py_tickers_.push_back(agent);
-- 
2.43.0


From b0ffd6e35023b06ae17fb89df7101b0126b75a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:58 +0000
Subject: [PATCH 04/65] fix: weight mutually satisfying requests by average
 over own quantity

The documented coefficient of a request in a mutual group is the average
quantity divided by its own, so that a full order of any one of them meets
the demand; the inverse was used, which let several of them be filled.
---
 src/request_portfolio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_portfolio.h b/src/request_portfolio.h
index fbfc42a..57177ab 100644
--- a/src/request_portfolio.h
+++ b/src/request_portfolio.h
@@ -155,7 +155,7 @@ class RequestPortfolio
     for (int i = 0; i < rs.size(); i++) {
       r = rs[i];
       qty = r->target()->quantity();
-      mass_coeffs_[r] = r->target()->quantity() / avg_qty;
+      mass_coeffs_[r] = avg_qty / r->target()->quantity();
       qty_ -= qty;
     }
     qty_ += avg_qty;
-- 
2.43.0


From 86eef60494003c205c040f9973f601fdba413886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:43 +0000
Subject: [PATCH 05/65] fix: optimization solvers never trade more than a bid
 offers

The upper bound of a flow was only the requested quantity, so that a bid
whose portfolio has no (or a looser) capacity constraint could be matched
for more than its offer.
---
 src/prog_translator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/prog_translator.cc b/src/prog_translator.cc
index 50d387c..a13697c 100644
--- a/src/prog_translator.cc
+++ b/src/prog_translator.cc
@@ -165,7 +165,8 @@ void ProgTranslator::XlateGrp_(ExchangeNodeGroup* grp, bool request) {
         ctx_.obj_coeffs[arc_id] = ExchangeSolver::Cost(a, excl_);
         ctx_.col_lbs[arc_id] = 0;
         ctx_.col_ubs[arc_id] = (excl_ && a.exclusive()) ? 1 :
-                               std::min(nodes[i]->qty, inf);
+                               std::min(std::min(nodes[i]->qty,
+                                                 a.vnode()->qty), inf);
       }
     }
   }
-- 
2.43.0


From 06f1a4de92d4ac2978395fbcd85a3307024de678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:04 +0000
Subject: [PATCH 06/65] fix: finite pseudo cost when an exclusive arc cannot
 carry any flow

An exclusive order that can never be met (its all-or-nothing quantity is
zero) made the cost of unmet demand infinite when exclusive orders are not
enforced; the optimization solver then failed and no trade at all was made.
---
 src/exchange_solver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exchange_solver.cc b/src/exchange_solver.cc
index 1ac3121..50df457 100644
--- a/src/exchange_solver.cc
+++ b/src/exchange_solver.cc
@@ -90,7 +90,8 @@ double ExchangeSolver::PseudoCostByPref(double cost_factor) {
     const Arc& a = arcs[i];
     // remove exclusive value factor from costs for preferences that are less
     // than unity. otherwise they can artificially raise the maximum cost.
-    double factor = (a.exclusive() && a.excl_val() < 1) ? 1 / a.excl_val() : 1.0;
+    double factor = (a.exclusive() && a.excl_val() > 0 && a.excl_val() < 1) ?
+                    1 / a.excl_val() : 1.0;
     max_cost = std::max(max_cost, ArcCost(a) * factor);
   }
   return max_cost * (1 + cost_factor);
-- 
2.43.0


From e71b8474bf50fe6d6bf5752d820bccf749820559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:24 +0000
Subject: [PATCH 07/65] fix: Material::ChangePackage checks the new package's
 limits and records unpackaging

---
 src/material.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/material.cc b/src/material.cc
index 9a80b07..c53f777 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -162,17 +162,18 @@ Resource::Ptr Material::PackageExtract(double qty, std::string new_package_name)
 }
 
 void Material::ChangePackage(std::string new_package_name) {
-  if (ctx_ == NULL) {
+  if (new_package_name == package_name_ || ctx_ == NULL) {
     // no change needed
     return;
   }
   else if (new_package_name == Package::unpackaged_name()) {
     // unpackaged has functionally no restrictions
     package_name_ = new_package_name;
+    tracker_.Package();
     return;
   }
  
-  Package::Ptr p = ctx_->GetPackage(package_name_);
+  Package::Ptr p = ctx_->GetPackage(new_package_name);
   double min = p->fill_min();
   double max = p->fill_max();
   if (qty_ >= min && qty_ <= max) {
-- 
2.43.0


From 3bfe06e1e872444dd594f2ba1775df11275ab5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:38 +0000
Subject: [PATCH 08/65] fix: resources split off an untracked resource are not
 recorded

---
 src/res_tracker.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/res_tracker.cc b/src/res_tracker.cc
index 2bbe6f8..d19ebfa 100644
--- a/src/res_tracker.cc
+++ b/src/res_tracker.cc
@@ -42,6 +42,7 @@ void ResTracker::Modify() {
 }
 
 void ResTracker::Extract(ResTracker* removed) {
+  removed->tracked_ = tracked_;
   if (!tracked_) {
     return;
   }
@@ -56,7 +57,6 @@ void ResTracker::Extract(ResTracker* removed) {
   // after being bumped)
   removed->parent1_ = res_->state_id();
   removed->parent2_ = 0;
-  removed->tracked_ = tracked_;
   removed->Record();
 
   if (res_->quantity() > eps_rsrc()) {
@@ -75,11 +75,13 @@ void ResTracker::Absorb(ResTracker* absorbed) {
 }
 
 void ResTracker::Package(ResTracker* parent) {
+  if (parent != NULL) {
+    tracked_ = parent->tracked_;
+  }
   if (!tracked_) {
     return;
   }
   parent2_ = 0;
-  tracked_ = tracked_;
   package_name_ = res_->package_name();
 
   if (parent != NULL) {
-- 
2.43.0


From ac0299fa274a5f5b94aca7a449fafc71d1e5e678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:23 +0000
Subject: [PATCH 09/65] fix: record a transmuted material with its updated
 decay time

---
 src/material.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material.cc b/src/material.cc
index c53f777..9c71a71 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -126,7 +126,6 @@ void Material::Absorb(Material::Ptr mat) {
 
 void Material::Transmute(Composition::Ptr c) {
   comp_ = c;
-  tracker_.Modify();
 
   // Presumably the user has chosen the new composition to be accurate for
   // the current simulation time.  The next call to decay should not include
@@ -138,6 +137,7 @@ void Material::Transmute(Composition::Ptr c) {
   if (ctx_ != NULL && ctx_->time() > prev_decay_time_) {
     prev_decay_time_ = ctx_->time();
   }
+  tracker_.Modify();
 }
 
 Resource::Ptr Material::PackageExtract(double qty, std::string new_package_name) {
-- 
2.43.0


From a233acfd1053866ab64df170955dc46440ef1ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:59 +0000
Subject: [PATCH 10/65] fix: packaging nothing, or without a minimum fill, no
 longer divides by zero

---
 src/package.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/package.cc b/src/package.cc
index 4665d93..187680b 100644
--- a/src/package.cc
+++ b/src/package.cc
@@ -44,8 +44,8 @@ void Package::SetDistribution() {
 
 std::vector<double> Package::GetFillMass(double qty) {
   std::vector<double> packages;
-  if ((qty - fill_min_) < -eps_rsrc()) {
-    // less than one pkg of material available
+  if ((qty - fill_min_) < -eps_rsrc() || qty < eps_rsrc()) {
+    // less than one pkg of material available, or nothing to package
     return packages;
   }
 
@@ -58,7 +58,8 @@ std::vector<double> Package::GetFillMass(double qty) {
   if (strategy_ == "first") {
     fill_mass = fill_max_;
   } else if (strategy_ == "equal") {
-    int num_min_fill = std::floor(qty / fill_min_);
+    // without a minimum fill, the number at minimum fill is unbounded
+    double num_min_fill = std::floor(qty / fill_min_);
     int num_max_fill = std::ceil(qty / fill_max_);
     if (num_min_fill >= num_max_fill) {
       // all material can fit in package(s)
-- 
2.43.0


From d9e3af36d494cc9a2f1cbfbed9dd38fb6adc22e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:00 +0000
Subject: [PATCH 11/65] fix: transport units without a minimum or maximum fill
 no longer divide by zero or overflow

---
 src/package.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/package.cc b/src/package.cc
index 187680b..ee40fb6 100644
--- a/src/package.cc
+++ b/src/package.cc
@@ -137,7 +137,7 @@ TransportUnit::Ptr& TransportUnit::unrestricted() {
 }
 
 int TransportUnit::GetTransportUnitFill(int qty) {
-  if (qty < fill_min_) {
+  if (qty < fill_min_ || qty == 0 || fill_max_ == 0) {
     // less than one TransportUnit of material available
     return 0;
   }
@@ -146,11 +146,10 @@ int TransportUnit::GetTransportUnitFill(int qty) {
     return fill_max_;
   } else if (strategy_ == "equal" || strategy_ == "hybrid") {
     // int division automatically rounds down. don't need floor in min, and 
-    // get ceil by hand instead 
-    int num_at_min_fill = qty / fill_min_;
-    int num_at_max_fill = (qty + fill_max_ - 1) / fill_max_;
+    // get ceil by hand instead (without overflow for an unlimited fill_max)
+    int num_at_max_fill = qty / fill_max_ + (qty % fill_max_ != 0);
 
-    if (num_at_min_fill >= num_at_max_fill) {
+    if (fill_min_ == 0 || qty / fill_min_ >= num_at_max_fill) {
       // all material *might* fit transport units. However, this is more
       // challenging than packages because transport units are discrete. 
       double dbl_fill_mass = (double)qty / (double)num_at_max_fill;
@@ -184,6 +183,9 @@ int TransportUnit::MaxShippablePackages(int pkgs) {
   } else if (strategy_ == "hybrid") {
     while ((pkgs > 0) && (pkgs >= fill_min_)) {
       TU_fill = GetTransportUnitFill(pkgs);
+      if (TU_fill == 0) {
+        break;
+      }
       shippable += TU_fill;
       pkgs -= TU_fill;
     }
-- 
2.43.0


From 545447a13ff7d3fa33ed89ae0f478eb640b941b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:47 +0000
Subject: [PATCH 12/65] fix: ResBuf refuses the same resource twice in one push

---
 src/toolkit/res_buf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/res_buf.h b/src/toolkit/res_buf.h
index ac92841..db62200 100644
--- a/src/toolkit/res_buf.h
+++ b/src/toolkit/res_buf.h
@@ -328,8 +328,9 @@ class ResBuf {
       throw ValueError("Resource pushing breaks capacity limit.");
     }
 
+    std::set<typename T::Ptr> pushed;
     for (int i = 0; i < rss.size(); i++) {
-      if (rs_present_.count(rss.at(i)) == 1) {
+      if (rs_present_.count(rss.at(i)) == 1 || !pushed.insert(rss.at(i)).second) {
         throw KeyError("Duplicate resource pushing attempted");
       }
     }
-- 
2.43.0


From ff969129407a5a1285f9b780ee6325a1119fbc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:54 +0000
Subject: [PATCH 13/65] fix: packaging tolerates rounding and never takes more
 than there is

---
 src/material.cc | 4 +++-
 src/product.cc  | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/material.cc b/src/material.cc
index 9c71a71..e8d7fe6 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -1,6 +1,7 @@
 #include "material.h"
 
 #include <math.h>
+#include <algorithm>
 
 #include "comp_math.h"
 #include "context.h"
@@ -144,7 +145,8 @@ Resource::Ptr Material::PackageExtract(double qty, std::string new_package_name)
   if ((qty - qty_) > eps_rsrc()) {
     throw ValueError("Attempted to extract more quantity than exists.");
   }
-  
+  qty = std::min(qty, qty_);
+
   qty_ -= qty;
   Material::Ptr other(new Material(ctx_, qty, comp_, new_package_name));
 
diff --git a/src/product.cc b/src/product.cc
index 3081512..3e16a8b 100644
--- a/src/product.cc
+++ b/src/product.cc
@@ -1,5 +1,7 @@
 #include "product.h"
 
+#include <algorithm>
+
 #include "error.h"
 #include "logger.h"
 #include "cyc_limits.h"
@@ -78,9 +80,10 @@ std::string Product::package_name() {
 }
 
 Resource::Ptr Product::PackageExtract(double qty, std::string new_package_name) {
-  if (qty > quantity_) {
+  if ((qty - quantity_) > cyclus::eps_rsrc()) {
     throw ValueError("Attempted to extract more quantity than exists.");
   }
+  qty = std::min(qty, quantity_);
 
   quantity_ -= qty;
   Product::Ptr other(new Product(ctx_, qty, quality_, new_package_name));
-- 
2.43.0


From c5d5788e8f45a35c88bcb492799a1fca79a0ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:57 +0000
Subject: [PATCH 14/65] fix: a recorder with dump count 0 indexed an empty
 buffer

The documented meaning of 0 is that data are flushed as they come.
---
 src/recorder.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/recorder.cc b/src/recorder.cc
index a3e2ad3..b8af83e 100644
--- a/src/recorder.cc
+++ b/src/recorder.cc
@@ -55,8 +55,10 @@ void Recorder::set_dump_count(unsigned int count) {
     delete data_[i];
   }
   data_.clear();
-  data_.reserve(count);
-  for (int i = 0; i < count; ++i) {
+  // a datum is needed to hold the data even if they are flushed immediately
+  unsigned int n = (count == 0) ? 1 : count;
+  data_.reserve(n);
+  for (int i = 0; i < n; ++i) {
     Datum* d = new Datum(this, "");
     if (inject_sim_id_) {
       d->AddVal("SimId", uuid_);
-- 
2.43.0


From f4fa025dfeb72357842a97b317369bcc205ea391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:57 +0000
Subject: [PATCH 15/65] fix: set_dump_count kept counting the data it had
 dropped

The next data were recorded behind blank rows, or past the end of the
new buffer.
---
 src/recorder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/recorder.cc b/src/recorder.cc
index b8af83e..0e8bbb0 100644
--- a/src/recorder.cc
+++ b/src/recorder.cc
@@ -55,6 +55,7 @@ void Recorder::set_dump_count(unsigned int count) {
     delete data_[i];
   }
   data_.clear();
+  index_ = 0;
   // a datum is needed to hold the data even if they are flushed immediately
   unsigned int n = (count == 0) ? 1 : count;
   data_.reserve(n);
-- 
2.43.0


From 3ff00d2b1ab766032350d2d9703e3507784fc3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:57 +0000
Subject: [PATCH 16/65] fix: column names given as std::string dangled in a
 datum's values

---
 src/datum.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/datum.cc b/src/datum.cc
index 7b86f37..6a24a5b 100644
--- a/src/datum.cc
+++ b/src/datum.cc
@@ -1,5 +1,8 @@
 #include "datum.h"
 
+#include <set>
+#include <string>
+
 #include <boost/pool/singleton_pool.hpp>
 
 
@@ -27,8 +30,10 @@ Datum* Datum::AddVal(const char* field, boost::spirit::hold_any val,
 
 Datum* Datum::AddVal(std::string field, boost::spirit::hold_any val,
                      std::vector<int>* shape) {
+  // vals_ refers to the name without owning it, so it must outlive the datum
+  static std::set<std::string> names;
   fields_.push_back(field);
-  return AddValBase(field.c_str(), val, shape);
+  return AddValBase(names.insert(field).first->c_str(), val, shape);
 }
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From e6d0929ed27bab1d004a175a976b932c259436b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:57 +0000
Subject: [PATCH 17/65] fix: SqliteBack::Query failed on an empty list of
 conditions

---
 src/sqlite_back.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqlite_back.cc b/src/sqlite_back.cc
index fff1b0c..1fb1a20 100644
--- a/src/sqlite_back.cc
+++ b/src/sqlite_back.cc
@@ -106,7 +106,7 @@ QueryResult SqliteBack::Query(std::string table, std::vector<Cond>* conds) {
 
   std::stringstream sql;
   sql << "SELECT * FROM " << table;
-  if (conds != NULL) {
+  if (conds != NULL && !conds->empty()) {
     sql << " WHERE ";
     for (int i = 0; i < conds->size(); ++i) {
       if (i > 0) {
-- 
2.43.0


From 3bb758375e7b7f52a77651aacff5fefcabc37961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:29 +0000
Subject: [PATCH 18/65] fix: HDF5 values with the same concatenated bytes were
 stored as one

The digest that keys variable length values ignored where their parts
end (e.g. {"ab", "c"} and {"a", "bc"}), and for one map type
hashed the bytes of the string object instead of its characters.
---
 src/query_backend.h | 120 ++++++++++++++++++++++++++++++++------------
 1 file changed, 89 insertions(+), 31 deletions(-)

diff --git a/src/query_backend.h b/src/query_backend.h
index 59e07f7..f2228df 100644
--- a/src/query_backend.h
+++ b/src/query_backend.h
@@ -643,112 +643,132 @@ class Sha1 {
   inline void Update(const Blob& b) { Update(b.str()); }
 
   inline void Update(const std::vector<int>& x) {
+    UpdateSize(x.size());
     hash_.process_bytes(&x[0], x.size() * sizeof(int));
   }
 
   inline void Update(const std::vector<float>& x) {
+    UpdateSize(x.size());
     hash_.process_bytes(&x[0], x.size() * sizeof(float));
   }
 
   inline void Update(const std::vector<double>& x) {
+    UpdateSize(x.size());
     hash_.process_bytes(&x[0], x.size() * sizeof(double));
   }
 
   inline void Update(const std::vector<std::string>& x) {
+    UpdateSize(x.size());
     for (unsigned int i = 0; i < x.size(); ++i)
-      hash_.process_bytes(x[i].c_str(), x[i].size());
+      UpdatePart(x[i]);
   }
 
   inline void Update(const std::vector<cyclus::Blob>& x) {
+    UpdateSize(x.size());
     for (unsigned int i = 0; i < x.size(); ++i)
-      hash_.process_bytes(x[i].str().c_str(), x[i].str().size());
+      UpdatePart(x[i]);
   }
 
   inline void Update(const std::vector<boost::uuids::uuid>& x) {
+    UpdateSize(x.size());
     std::vector<boost::uuids::uuid>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), CYCLUS_UUID_SIZE);
   }
 
   inline void Update(const std::set<int>& x) {
+    UpdateSize(x.size());
     std::set<int>::iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(int));
   }
 
   inline void Update(const std::set<bool>& x) {
+    UpdateSize(x.size());
     std::set<bool>::iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(bool));
   }
 
   inline void Update(const std::set<double>& x) {
+    UpdateSize(x.size());
     std::set<double>::iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(double));
   }
 
   inline void Update(const std::set<float>& x) {
+    UpdateSize(x.size());
     std::set<float>::iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(float));
   }
 
   inline void Update(const std::set<cyclus::Blob>& x) {
+    UpdateSize(x.size());
     std::set<cyclus::Blob>::iterator it = x.begin();
     for (; it != x.end(); ++it)
-      hash_.process_bytes(it->str().c_str(), it->str().size());
+      UpdatePart(*it);
   }
 
   inline void Update(const std::set<boost::uuids::uuid>& x) {
+    UpdateSize(x.size());
     std::set<boost::uuids::uuid>::iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), CYCLUS_UUID_SIZE);
   }
 
   inline void Update(const std::set<std::string>& x) {
+    UpdateSize(x.size());
     std::set<std::string>::iterator it = x.begin();
     for (; it != x.end(); ++it)
-      hash_.process_bytes(it->c_str(), it->size());
+      UpdatePart(*it);
   }
 
   inline void Update(const std::list<int>& x) {
+    UpdateSize(x.size());
     std::list<int>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(int));
   }
 
   inline void Update(const std::list<bool>& x) {
+    UpdateSize(x.size());
     std::list<bool>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(bool));
   }
 
   inline void Update(const std::list<double>& x) {
+    UpdateSize(x.size());
     std::list<double>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(double));
   }
 
   inline void Update(const std::list<float>& x) {
+    UpdateSize(x.size());
     std::list<float>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(float));
   }
 
   inline void Update(const std::list<std::string>& x) {
+    UpdateSize(x.size());
     std::list<std::string>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
-      hash_.process_bytes(it->c_str(), it->size());
+      UpdatePart(*it);
   }
 
   inline void Update(const std::list<cyclus::Blob>& x) {
+    UpdateSize(x.size());
     std::list<cyclus::Blob>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
-      hash_.process_bytes(it->str().c_str(), it->str().size());
+      UpdatePart(*it);
   }
 
   inline void Update(const std::list<boost::uuids::uuid>& x) {
+    UpdateSize(x.size());
     std::list<boost::uuids::uuid>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), CYCLUS_UUID_SIZE);
@@ -761,10 +781,11 @@ class Sha1 {
 
   inline void Update(const std::pair<int, std::string>& x) {
     hash_.process_bytes(&(x.first), sizeof(int));
-    hash_.process_bytes(x.second.c_str(), x.second.size());
+    UpdatePart(x.second);
   }
 
   inline void Update(const std::map<int, int>& x) {
+    UpdateSize(x.size());
     std::map<int, int>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -773,6 +794,7 @@ class Sha1 {
   }
 
   inline void Update(const std::map<int, bool>& x) {
+    UpdateSize(x.size());
     std::map<int, bool>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -781,6 +803,7 @@ class Sha1 {
   }
 
   inline void Update(const std::map<int, double>& x) {
+    UpdateSize(x.size());
     std::map<int, double>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -789,6 +812,7 @@ class Sha1 {
   }
 
   inline void Update(const std::map<int, float>& x) {
+    UpdateSize(x.size());
     std::map<int, float>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -797,14 +821,16 @@ class Sha1 {
   }
 
   inline void Update(const std::map<int, cyclus::Blob>& x) {
+    UpdateSize(x.size());
     std::map<int, cyclus::Blob>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
-      hash_.process_bytes(it->second.str().c_str(), it->second.str().size());
+      UpdatePart(it->second);
     }
   }
 
   inline void Update(const std::map<int, boost::uuids::uuid>& x) {
+    UpdateSize(x.size());
     std::map<int, boost::uuids::uuid>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -813,104 +839,117 @@ class Sha1 {
   }
 
   inline void Update(const std::map<int, std::string>& x) {
+    UpdateSize(x.size());
     std::map<int, std::string>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
-      hash_.process_bytes(it->second.c_str(), it->second.size());
+      UpdatePart(it->second);
     }
   }
 
   inline void Update(const std::map<std::string, int>& x) {
+    UpdateSize(x.size());
     std::map<std::string, int>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdatePart(it->first);
       hash_.process_bytes(&(it->second), sizeof(int));
     }
   }
 
   inline void Update(const std::map<std::string, double>& x) {
+    UpdateSize(x.size());
     std::map<std::string, double>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdatePart(it->first);
       hash_.process_bytes(&(it->second), sizeof(double));
     }
   }
 
   inline void Update(const std::map<std::string, float>& x) {
+    UpdateSize(x.size());
     std::map<std::string, float>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdatePart(it->first);
       hash_.process_bytes(&(it->second), sizeof(float));
     }
   }
 
   inline void Update(const std::map<std::string, bool>& x) {
+    UpdateSize(x.size());
     std::map<std::string, bool>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdatePart(it->first);
       hash_.process_bytes(&(it->second), sizeof(bool));
     }
   }
 
   inline void Update(const std::map<std::string, cyclus::Blob>& x) {
+    UpdateSize(x.size());
     std::map<std::string, cyclus::Blob>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
-      hash_.process_bytes(it->second.str().c_str(), it->second.str().size());
+      UpdatePart(it->first);
+      UpdatePart(it->second);
     }
   }
 
   inline void Update(const std::map<std::string, boost::uuids::uuid>& x) {
+    UpdateSize(x.size());
     std::map<std::string, boost::uuids::uuid>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdatePart(it->first);
       hash_.process_bytes(&(it->second), CYCLUS_UUID_SIZE);
     }
   }
 
   inline void Update(const std::map<std::string, std::string>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::string>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
-      hash_.process_bytes(it->second.c_str(), it->second.size());
+      UpdatePart(it->first);
+      UpdatePart(it->second);
     }
   }
 
   inline void Update(const std::map<std::pair<int, std::string>, double>& x) {
+    UpdateSize(x.size());
     std::map<std::pair<int, std::string>, double>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first.first), sizeof(int));
-      hash_.process_bytes(it->first.second.c_str(), it->first.second.size());
+      UpdatePart(it->first.second);
       hash_.process_bytes(&(it->second), sizeof(double));
     }
   }
 
   inline void Update(const std::map<std::pair<std::string, std::string>, int>& x) {
+    UpdateSize(x.size());
     std::map<std::pair<std::string, std::string>, int>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.first.c_str(), it->first.first.size());
-      hash_.process_bytes(it->first.second.c_str(), it->first.second.size());
+      UpdatePart(it->first.first);
+      UpdatePart(it->first.second);
       hash_.process_bytes(&(it->second), sizeof(int));
     }
   }
 
   inline void Update(const std::map<std::string, std::vector<double>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::vector<double>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdatePart(it->first);
       Update(it->second);
     }
   }
 
   inline void Update(const std::map<std::string, std::map<int, double>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::map<int, double>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdatePart(it->first);
       Update(it->second);
     }
   }
 
   inline void Update(const std::map<int, std::map<std::string, double>>& x) {
+    UpdateSize(x.size());
     std::map<int, std::map<std::string, double>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -924,20 +963,22 @@ class Sha1 {
   }
 
   inline void Update(const std::map<std::string, std::pair<double, std::map<int, double>>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::pair<double, std::map<int, double>>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(&(it->first), it->first.size());
+      UpdatePart(it->first);
       Update(it->second);
     }
   }
 
   inline void Update(const std::pair<int, std::pair<std::string, std::string>>& x) {
     hash_.process_bytes(&(x.first), sizeof(int));
-    hash_.process_bytes(x.second.first.c_str(), x.second.first.size());
-    hash_.process_bytes(x.second.second.c_str(), x.second.second.size());
+    UpdatePart(x.second.first);
+    UpdatePart(x.second.second);
   }
 
   inline void Update(const std::vector<std::pair<int, std::pair<std::string, std::string>>>& x) {
+    UpdateSize(x.size());
     std::vector<std::pair<int, std::pair<std::string, std::string>>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       Update(*it);
@@ -945,14 +986,16 @@ class Sha1 {
   }
 
   inline void Update(const std::map<std::string, std::vector<std::pair<int, std::pair<std::string, std::string>>>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::vector<std::pair<int, std::pair<std::string, std::string>>>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdatePart(it->first);
       Update(it->second);
     }
   }
 
   inline void Update(const std::list<std::pair<int, int>>& x){
+    UpdateSize(x.size());
     std::list<std::pair<int, int>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       Update(*it);
@@ -960,22 +1003,24 @@ class Sha1 {
   }
 
   inline void Update(const std::pair<std::string, std::vector<double>>& x) {
-    hash_.process_bytes(x.first.c_str(), x.first.size());
+    UpdatePart(x.first);
     Update(x.second);
   }
 
   inline void Update(const std::map<std::string, std::pair<std::string, std::vector<double>>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::pair<std::string, std::vector<double>>>::const_iterator it = x.begin();
     for(; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdatePart(it->first);
       Update(it->second);
     }
   }
 
   inline void Update(const std::map<std::string, std::map<std::string, int>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::map<std::string, int>>::const_iterator it = x.begin();
     for(; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdatePart(it->first);
       Update(it->second);
     }
   }
@@ -991,6 +1036,7 @@ class Sha1 {
   }
 
   inline void Update(const std::vector<std::pair<std::pair<double, double>, std::map<std::string, double>>>& x) {
+    UpdateSize(x.size());
     std::vector<std::pair<std::pair<double, double>, std::map<std::string, double>>>::const_iterator it = x.begin();
     for(; it != x.end(); ++it) {
       Update(*it);
@@ -998,9 +1044,10 @@ class Sha1 {
   }
 
   inline void Update(const std::map<std::string, std::map<std::string, double>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::map<std::string, double>>::const_iterator it = x.begin();
     for(; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdatePart(it->first);
       Update(it->second);
     }
   }
@@ -1038,6 +1085,17 @@ class Sha1 {
   }
 
  private:
+  /// Sizes delimit the parts of a value, so that values whose parts merely
+  /// concatenate to the same bytes have different hashes.
+  inline void UpdateSize(size_t n) { hash_.process_bytes(&n, sizeof(n)); }
+
+  inline void UpdatePart(const std::string& s) {
+    UpdateSize(s.size());
+    Update(s);
+  }
+
+  inline void UpdatePart(const Blob& b) { UpdatePart(b.str()); }
+
   boost::uuids::detail::sha1 hash_;
 };
 
-- 
2.43.0


From 49bdb484cf00e3e016fabb73834a686a40e21833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:18 +0000
Subject: [PATCH 19/65] fix: appending to a reopened HDF5 database failed on
 nested types not yet stored

A nested variable length type is known in a reopened database only from
its array of values, which was not made until the first such value (e.g.
if all maps written so far were empty).
---
 src/hdf5_back.cc.in | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hdf5_back.cc.in b/src/hdf5_back.cc.in
index 01a8805..46e8d56 100644
--- a/src/hdf5_back.cc.in
+++ b/src/hdf5_back.cc.in
@@ -425,6 +425,13 @@ void Hdf5Back::CreateTable(Datum* d) {
   schema_sizes_[d->title()] = dst_size;
   col_sizes_[d->title()] = dst_sizes;
   schemas_[d->title()] = dbtypes;
+
+  // make the arrays of all variable length types in use, even if no value has
+  // been written yet: a reopened database learns the types from them
+  std::map<DbTypes, hid_t>::iterator vl;
+  for (vl = vldts_.begin(); vl != vldts_.end(); ++vl) {
+    VLDataset(vl->first, false);
+  }
 }
 
 std::map<std::string, DbTypes> Hdf5Back::ColumnTypes(std::string table) {
-- 
2.43.0


From 96f30752ab0731a826929e8a4ede7b8608bda70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:14 +0000
Subject: [PATCH 20/65] fix: input files with a transport unit that omits
 fill_max were refused

The default was the largest double, converted to the int the transport unit
takes.
---
 src/xml_file_loader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xml_file_loader.cc b/src/xml_file_loader.cc
index 3c4d6c4..95a171f 100644
--- a/src/xml_file_loader.cc
+++ b/src/xml_file_loader.cc
@@ -351,8 +351,8 @@ void XMLFileLoader::LoadTransportUnits() {
     std::string name = cyclus::OptionalQuery<std::string>(qe, "name", "default");
     CLOG(LEV_DEBUG3) << "loading transport unit: " << name;
     
-    double fill_min = cyclus::OptionalQuery<double>(qe, "fill_min", eps());
-    double fill_max = cyclus::OptionalQuery<double>(qe, "fill_max", std::numeric_limits<double>::max());
+    int fill_min = cyclus::OptionalQuery<int>(qe, "fill_min", 0);
+    int fill_max = cyclus::OptionalQuery<int>(qe, "fill_max", std::numeric_limits<int>::max());
     
     std::string strategy = cyclus::OptionalQuery<std::string>(qe, "strategy", "first");
 
-- 
2.43.0


From 8d0bd7f630d19c17077bba13de4f9d14a9f12f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:40 +0000
Subject: [PATCH 21/65] fix: restarted simulations ignored the tolerances of
 the original

---
 src/sim_init.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 9e80110..71a90fa 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -168,6 +168,8 @@ void SimInit::LoadInfo() {
   qr = b_->Query("Epsilon", NULL);
   si_.eps = qr.GetVal<double>("GenericEpsilon");
   si_.eps_rsrc = qr.GetVal<double>("ResourceEpsilon");
+  cy_eps = si_.eps;
+  cy_eps_rsrc = si_.eps_rsrc;
 
   qr = b_->Query("InfoExplicitInv", NULL);
   si_.explicit_inventory = qr.GetVal<bool>("RecordInventory");
-- 
2.43.0


From 133fcc7821a910bf1998b57f004ab7ca239e0333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:53 +0000
Subject: [PATCH 22/65] fix: commodity priorities of the input file never
 reached the solver

The loader writes the SolutionPriority column; initialisation looked for
SolutionOrder and silently fell back to no priorities.
---
 src/sim_init.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 71a90fa..c6320ce 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -249,7 +249,7 @@ void* SimInit::LoadPreconditioner(std::string name) {
     QueryResult qr = b_->Query("CommodPriority", NULL);
     for (int i = 0; i < qr.rows.size(); ++i) {
       std::string commod = qr.GetVal<string>("Commodity", i);
-      double order = qr.GetVal<double>("SolutionOrder", i);
+      double order = qr.GetVal<double>("SolutionPriority", i);
       commod_order[commod] = order;
     }
   } catch (std::exception err) {
-- 
2.43.0


From 497478c340124ca0ea495dacc918dbeb3df6e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:54 +0000
Subject: [PATCH 23/65] fix: restart never returned when an agent had outlived
 its parent

The parent is not among the agents to restore, so the loop over the agents
whose parent still has to be built went on forever.
---
 src/sim_init.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index c6320ce..83a3768 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -437,7 +437,8 @@ void SimInit::LoadInitialAgents() {
     Agent* m = it->second;
     int parentid = parentmap[id];
 
-    if (parentid == -1) {  // root agent
+    bool orphan = agents_.count(parentid) == 0 && unbuilt.count(parentid) == 0;
+    if (parentid == -1 || orphan) {  // no parent, or it was decommissioned
       m->Connect(NULL);
       agents_[id] = m;
       ++it;
-- 
2.43.0


From 7646d70f7298ba32e2786b4b2951f8828860ab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:54 +0000
Subject: [PATCH 24/65] fix: restart lost the builds due at the restart time
 and kept later ones

A snapshot is taken before the builds of its time step, so those due at that
time are still to be done, while anything scheduled from then on will be
scheduled again by the restarted simulation.
---
 src/sim_init.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 83a3768..b899383 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -489,7 +489,10 @@ void SimInit::LoadInventories() {
 
 void SimInit::LoadBuildSched() {
   std::vector<Cond> conds;
-  conds.push_back(Cond("BuildTime", ">", t_));
+  conds.push_back(Cond("BuildTime", ">=", t_));
+  if (t_ > 0) {
+    conds.push_back(Cond("SchedTime", "<", t_));
+  }
   QueryResult qr;
   try {
     qr = b_->Query("BuildSchedule", &conds);
-- 
2.43.0


From ad37126b44789408e8ed0c4affa2aea72220789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:54 +0000
Subject: [PATCH 25/65] fix: restart crashed on decommissionings of agents that
 are not alive

Decommissionings scheduled after the restart time, of agents that are built
only later, and superseded ones of agents that left earlier were restored
with a null agent.
---
 src/sim_init.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index b899383..c39cc66 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -509,6 +509,9 @@ void SimInit::LoadBuildSched() {
 void SimInit::LoadDecomSched() {
   std::vector<Cond> conds;
   conds.push_back(Cond("DecomTime", ">=", t_));
+  if (t_ > 0) {
+    conds.push_back(Cond("SchedTime", "<", t_));
+  }
   QueryResult qr;
   try {
     qr = b_->Query("DecomSchedule", &conds);
@@ -517,7 +520,9 @@ void SimInit::LoadDecomSched() {
   for (int i = 0; i < qr.rows.size(); ++i) {
     int t = qr.GetVal<int>("DecomTime", i);
     int agentid = qr.GetVal<int>("AgentId", i);
-    ctx_->SchedDecom(agents_[agentid], t);
+    if (agents_.count(agentid) > 0) {
+      ctx_->SchedDecom(agents_[agentid], t);
+    }
   }
 }
 
-- 
2.43.0


From f832dfc55a79a7abff617719e47060d7972c6336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:16 +0000
Subject: [PATCH 26/65] fix: restart forgot how the resources in inventories
 are packaged

---
 src/sim_init.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index c39cc66..c5d086b 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -612,11 +612,12 @@ Material::Ptr SimInit::LoadMaterial(Context* ctx, QueryableBackend* b, int state
   qr = b->Query("Resources", &conds);
   double qty = qr.GetVal<double>("Quantity");
   int stateid = qr.GetVal<int>("QualId");
+  std::string package_name = qr.GetVal<std::string>("PackageName");
 
   // create the composition and material
   Composition::Ptr comp = LoadComposition(b, stateid);
   Agent* dummy = new Dummy(ctx);
-  Material::Ptr mat = Material::Create(dummy, qty, comp);
+  Material::Ptr mat = Material::Create(dummy, qty, comp, package_name);
   mat->prev_decay_time_ = prev_decay;
   ctx->DelAgent(dummy);
 
@@ -646,6 +647,7 @@ Product::Ptr SimInit::LoadProduct(Context* ctx, QueryableBackend* b, int state_i
   QueryResult qr = b->Query("Resources", &conds);
   double qty = qr.GetVal<double>("Quantity");
   int stateid = qr.GetVal<int>("QualId");
+  std::string package_name = qr.GetVal<std::string>("PackageName");
 
   // get special Product internal state
   conds.clear();
@@ -657,7 +659,7 @@ Product::Ptr SimInit::LoadProduct(Context* ctx, QueryableBackend* b, int state_i
   Product::qualids_[quality] = stateid;
 
   Agent* dummy = new Dummy(ctx);
-  Product::Ptr r = Product::Create(dummy, qty, quality);
+  Product::Ptr r = Product::Create(dummy, qty, quality, package_name);
   ctx->DelAgent(dummy);
   return r;
 }
-- 
2.43.0


From 81cbd1b7e8a7e3601b484199dc66470b1c4c5220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 27/65] fix: a buy policy without a tracker dereferenced an
 uninitialised pointer

---
 src/toolkit/matl_buy_policy.cc | 3 ++-
 src/toolkit/matl_buy_policy.h  | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/matl_buy_policy.cc b/src/toolkit/matl_buy_policy.cc
index 746642a..0c11931 100644
--- a/src/toolkit/matl_buy_policy.cc
+++ b/src/toolkit/matl_buy_policy.cc
@@ -61,7 +61,8 @@ void MatlBuyPolicy::set_manager(Agent* m) {
 void MatlBuyPolicy::set_total_inv_tracker(TotalInvTracker* t) {
   if (t == NULL){
     std::vector<ResBuf<Material>*> bufs = {buf_};
-    buf_tracker_->Init(bufs, buf_->capacity());
+    own_tracker_.Init(bufs, buf_->capacity());
+    buf_tracker_ = &own_tracker_;
   }
   else if (!t->buf_in_tracker(buf_)) {
     std::stringstream ss;
diff --git a/src/toolkit/matl_buy_policy.h b/src/toolkit/matl_buy_policy.h
index 82e742d..9b04ad6 100644
--- a/src/toolkit/matl_buy_policy.h
+++ b/src/toolkit/matl_buy_policy.h
@@ -254,6 +254,8 @@ class MatlBuyPolicy : public Trader {
 
   ResBuf<Material>* buf_;
   TotalInvTracker* buf_tracker_;
+  /// used when no tracker is given
+  TotalInvTracker own_tracker_;
   std::string name_, inv_policy;
   double fill_to_, req_at_, quantize_, throughput_, cumulative_cap_,
     cycle_total_inv_;
-- 
2.43.0


From 42e30e0c119a5836e822477479885d6f4cce2d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 28/65] fix: a buy policy initialised again with dormant
 periods stayed always active

---
 src/toolkit/matl_buy_policy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toolkit/matl_buy_policy.cc b/src/toolkit/matl_buy_policy.cc
index 0c11931..60ffee1 100644
--- a/src/toolkit/matl_buy_policy.cc
+++ b/src/toolkit/matl_buy_policy.cc
@@ -142,6 +142,8 @@ void MatlBuyPolicy::init_active_dormant() {
     LGH(INFO4) << "dormant length set at -1 for first active period of cumulative capacity cycle" << std::endl;
     }
   else {
+    // forget an "always active" left by an earlier Init
+    next_dormant_end_ = 0;
     SetNextDormantTime();
     LGH(INFO4) << "first dormant time end: " << next_dormant_end_ << std::endl;
   }
-- 
2.43.0


From be969265d5528937240c64fc634c0848a3d835ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 29/65] fix: a sell policy ignoring compositions did not ship
 the requested one

---
 src/toolkit/matl_sell_policy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toolkit/matl_sell_policy.cc b/src/toolkit/matl_sell_policy.cc
index 62188d9..c65f6fd 100644
--- a/src/toolkit/matl_sell_policy.cc
+++ b/src/toolkit/matl_sell_policy.cc
@@ -284,7 +284,7 @@ void MatlSellPolicy::GetMatlTrades(
         trade_mat = mat;
       }
 
-      if (ignore_comp_ && compmath::AlmostEq(it->request->target()->comp()->mass(), trade_mat->comp()->mass(), eps_rsrc())) {
+      if (ignore_comp_ && !compmath::AlmostEq(it->request->target()->comp()->mass(), trade_mat->comp()->mass(), eps_rsrc())) {
         trade_mat->Transmute(it->request->target()->comp());
       }
       responses.push_back(std::make_pair(*it, trade_mat));
-- 
2.43.0


From 7a92063be4a4e10989baf8b414dcafdfd6e04d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 30/65] fix: a sell policy lost the packages a trade did not
 take

---
 src/toolkit/matl_sell_policy.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/toolkit/matl_sell_policy.cc b/src/toolkit/matl_sell_policy.cc
index c65f6fd..b8e1f40 100644
--- a/src/toolkit/matl_sell_policy.cc
+++ b/src/toolkit/matl_sell_policy.cc
@@ -275,6 +275,10 @@ void MatlSellPolicy::GetMatlTrades(
           // packaging successful
           trade_mat = mat_pkgd[0];
           shippable_pkgs-=1;
+          // a trade takes one package, keep the others
+          for (size_t i = 1; i < mat_pkgd.size(); ++i) {
+            buf_->Push(mat_pkgd[i]);
+          }
         } else {
           // packaging failed. Will need to ship empty trade
           trade_mat = Material::CreateUntracked(0, mat->comp());
-- 
2.43.0


From 65cbbd45fe0bf6760b506a3096c8d7e88e0677a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 31/65] fix: a sell policy shipped packages beyond its
 transport unit's limit

---
 src/toolkit/matl_sell_policy.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toolkit/matl_sell_policy.cc b/src/toolkit/matl_sell_policy.cc
index b8e1f40..448bd17 100644
--- a/src/toolkit/matl_sell_policy.cc
+++ b/src/toolkit/matl_sell_policy.cc
@@ -286,6 +286,7 @@ void MatlSellPolicy::GetMatlTrades(
 
       } else { // no packaging needed
         trade_mat = mat;
+        shippable_pkgs-=1;
       }
 
       if (ignore_comp_ && !compmath::AlmostEq(it->request->target()->comp()->mass(), trade_mat->comp()->mass(), eps_rsrc())) {
-- 
2.43.0


From dc159d63fdf38512d0422ddc27c3f3ad75e55d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:49 +0000
Subject: [PATCH 32/65] fix: a buy policy without commodities put an empty
 portfolio on the market

---
 src/toolkit/matl_buy_policy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toolkit/matl_buy_policy.cc b/src/toolkit/matl_buy_policy.cc
index 60ffee1..fd6a3ff 100644
--- a/src/toolkit/matl_buy_policy.cc
+++ b/src/toolkit/matl_buy_policy.cc
@@ -295,7 +295,7 @@ std::set<RequestPortfolio<Material>::Ptr> MatlBuyPolicy::GetMatlRequests() {
 
   CheckActiveDormantCumulativeTimes();
 
-  if (amt < eps())
+  if (amt < eps() || commod_details_.empty())
     return ports;
 
   bool excl = Excl();
-- 
2.43.0


From c7e07286ea0bd1f325ace952bd0bbfea81becf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:49 +0000
Subject: [PATCH 33/65] fix: a sell policy crashed on lots too small for their
 package

---
 src/toolkit/matl_sell_policy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toolkit/matl_sell_policy.cc b/src/toolkit/matl_sell_policy.cc
index 448bd17..3f619f3 100644
--- a/src/toolkit/matl_sell_policy.cc
+++ b/src/toolkit/matl_sell_policy.cc
@@ -52,7 +52,7 @@ void MatlSellPolicy::set_package(std::string x) {
     if (quantize_ > 0 && pkg->name() != Package::unpackaged_name()) {
       if (pkg->strategy() == "first" || pkg->strategy() == "equal") {
         std::vector<double> fill = pkg->GetFillMass(quantize_);
-        if (fill.size() > 1 ||  std::fmod(fill.front(), quantize_) > 0) {
+        if (fill.size() != 1 || std::fmod(fill.front(), quantize_) > 0) {
           ss << "Quantize " << quantize_ 
              << " is not fully packagable based on fill min/max values (" 
              << pkg->fill_min() << ", " << pkg->fill_max() << ")";
-- 
2.43.0


From dd0238004e978db467d41969a7c4e4bf2675968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:19 +0000
Subject: [PATCH 34/65] fix: Poisson distributions used an uninitialised mean

---
 src/random_number_generator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index 9072618..86247d5 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -152,7 +152,7 @@ class PoissonDoubleDist : public DoubleDistribution {
   public:
     typedef boost::shared_ptr<PoissonDoubleDist> Ptr;
 
-    PoissonDoubleDist(double mean) : dist(mean_) {
+    PoissonDoubleDist(double mean) : dist(mean), mean_(mean) {
       if (mean_ < 0) {
         throw ValueError("Mean must be positive");
       }
@@ -302,7 +302,7 @@ class PoissonIntDist : public IntDistribution {
   public:
     typedef boost::shared_ptr<PoissonIntDist> Ptr;
 
-    PoissonIntDist(double mean) : dist(mean_) {
+    PoissonIntDist(double mean) : dist(mean), mean_(mean) {
       if (mean_ < 0) {
         throw ValueError("Mean must be positive");
       }
-- 
2.43.0


From a88cecec8ac5bf67ca2f2bcff830555f2937ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:19 +0000
Subject: [PATCH 35/65] fix: Poisson, exponential and binary real distributions
 could not be instantiated

---
 src/random_number_generator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index 86247d5..837d573 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -1,8 +1,10 @@
 #ifndef CYCLUS_SRC_RNG_H
 #define CYCLUS_SRC_RNG_H
 
+#include <algorithm>
 #include <boost/random.hpp>
 #include <cstdint>
+#include <limits>
 
 #include "error.h"
 
@@ -158,6 +160,7 @@ class PoissonDoubleDist : public DoubleDistribution {
       }
     };
     virtual double sample() { return dist(RandomNumberGenerator::gen_); }
+    virtual double max() { return std::numeric_limits<double>::max(); }
     virtual double mean() { return dist.mean(); }
 };
 
@@ -175,6 +178,7 @@ class ExponentialDoubleDist : public DoubleDistribution {
       }
     };
     virtual double sample() { return dist(RandomNumberGenerator::gen_); }
+    virtual double max() { return std::numeric_limits<double>::max(); }
     virtual double lambda() { return lambda_; }
 };
 
@@ -195,6 +199,7 @@ class BinaryDoubleDist : public DoubleDistribution {
     };
     virtual double sample() { 
       return dist(RandomNumberGenerator::gen_) ? choice_a_ : choice_b_; }
+    virtual double max() { return std::max(choice_a_, choice_b_); }
     virtual double p() { return p_success_; }
 };
 
-- 
2.43.0


From 9a47b0cb0c2f4ac8203adaeb8857709450a9882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:19 +0000
Subject: [PATCH 36/65] fix: distributions did not report their probability

---
 src/random_number_generator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index 837d573..4ba042d 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -192,7 +192,7 @@ class BinaryDoubleDist : public DoubleDistribution {
   public:
 
     BinaryDoubleDist(double p_success, double choice_a, double choice_b) : 
-      dist(1, p_success),choice_a_(choice_a), choice_b_(choice_b) {
+      dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
       if (p_success < 0) {
         throw ValueError("Probability of choice A must be positive");
       }
@@ -271,7 +271,7 @@ class BinomialIntDist : public IntDistribution {
     };
     virtual int sample() { return dist(RandomNumberGenerator::gen_); }
     virtual int trials() { return trials_; }
-    virtual int p() { return p_success_; }
+    virtual double p() { return p_success_; }
 };
 
 /// NegativeBinomialIntDist takes the number of successes desired and a 
@@ -296,7 +296,7 @@ class NegativeBinomialIntDist : public IntDistribution {
     };
     virtual int sample() { return dist(RandomNumberGenerator::gen_); }
     virtual int successes() { return successes_; }
-    virtual int p() { return p_success_; }
+    virtual double p() { return p_success_; }
 };
 
 /// Poisson distribution requires a mean 
@@ -342,7 +342,7 @@ class BinaryIntDist : public IntDistribution {
   public:
 
     BinaryIntDist(double p_success, int choice_a, int choice_b) : 
-      dist(1, p_success),choice_a_(choice_a), choice_b_(choice_b) {
+      dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
       if (p_success < 0) {
         throw ValueError("Probability of choice A must be positive");
       }
-- 
2.43.0


From aae29b6f82f22f84a25fca2efdd48d6a8e266263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:19 +0000
Subject: [PATCH 37/65] fix: a binary distribution accepted a probability above
 one

---
 src/random_number_generator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index 4ba042d..e1de07e 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -193,8 +193,8 @@ class BinaryDoubleDist : public DoubleDistribution {
 
     BinaryDoubleDist(double p_success, double choice_a, double choice_b) : 
       dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
-      if (p_success < 0) {
-        throw ValueError("Probability of choice A must be positive");
+      if (p_success > 1 || p_success < 0) {
+        throw ValueError("Probability of choice A must be between zero and one");
       }
     };
     virtual double sample() { 
@@ -343,8 +343,8 @@ class BinaryIntDist : public IntDistribution {
 
     BinaryIntDist(double p_success, int choice_a, int choice_b) : 
       dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
-      if (p_success < 0) {
-        throw ValueError("Probability of choice A must be positive");
+      if (p_success > 1 || p_success < 0) {
+        throw ValueError("Probability of choice A must be between zero and one");
       }
     };
     virtual int sample() { 
-- 
2.43.0


From 348dce5f5b4b300699bb535e1e239b90e5598f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:19 +0000
Subject: [PATCH 38/65] fix: sampling a normal distribution with its bounds
 reversed never ended

---
 src/random_number_generator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index e1de07e..79eebbe 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -135,8 +135,8 @@ class NormalDoubleDist : public DoubleDistribution {
     typedef boost::shared_ptr<NormalDoubleDist> Ptr;
 
     NormalDoubleDist(double mean, double std_dev, double min=0, double max=1) : dist(mean, std_dev), min_(min), max_(max) {
-      if (min_ == max_) {
-        throw ValueError("Min and max cannot be equal for a normal distribution. Either use FixedDoubleDist or change the min/max.");
+      if (min_ >= max_) {
+        throw ValueError("Min must be less than max for a normal distribution. Either use FixedDoubleDist or change the min/max.");
       }
       if (max_ < (mean - 3*std_dev) || min_ > (mean + 3*std_dev)) {
         Warn<VALUE_WARNING>("Dist is sampling from a tail of a truncated normal more than 3 standard deviations from the mean. Drawing sampling may be inefficient");
@@ -239,8 +239,8 @@ class NormalIntDist : public IntDistribution {
     typedef boost::shared_ptr<NormalIntDist> Ptr;
 
     NormalIntDist(double mean, double std_dev, int min=0, int max=1) : dist(mean, std_dev), min_(min), max_(max) {
-      if (min_ == max_) {
-        throw ValueError("Min and max cannot be equal for a normal distribution. Either use FixedIntDist or change the min/max.");
+      if (min_ >= max_) {
+        throw ValueError("Min must be less than max for a normal distribution. Either use FixedIntDist or change the min/max.");
       }
       if (max_ < (mean - 3*std_dev) || min_ > (mean + 3*std_dev)) {
         Warn<VALUE_WARNING>("Dist is sampling from a tail of a truncated normal more than 3 standard deviations from the mean. Drawing sampling may be inefficient");
-- 
2.43.0


From a4bc6beca9280e98a3daa2b40c48b5de72ea916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:59 +0000
Subject: [PATCH 39/65] fix: cycpp lost a state variable whose alias is its own
 name

The alias entry replaced the variable's own annotations.
---
 cli/cycpp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/cycpp.py b/cli/cycpp.py
index e4c2b69..8413492 100755
--- a/cli/cycpp.py
+++ b/cli/cycpp.py
@@ -505,7 +505,8 @@ class VarDeclarationFilter(Filter):
             alias = annotations['alias']
             while not isinstance(alias, STRING_TYPES):
                 alias = alias[0]
-            state.context[classname]['vars'][alias] = vname
+            if alias != vname:
+                state.context[classname]['vars'][alias] = vname
         if annotations['type'][0] not in BUFFERS:
             annotations['alias'] = self.canonize_alias(
                 annotations['type'], vname, alias=annotations.get('alias'))
-- 
2.43.0


From ae72cd3ace7e5d08018cb2b7da16196914a18921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:59 +0000
Subject: [PATCH 40/65] fix: cycpp dropped a shape shorter than the variable's
 type

list.extend() returns None, so the shape was not completed with -1 and
the generated code referred to a shape that was never declared.
---
 cli/cycpp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cycpp.py b/cli/cycpp.py
index 8413492..71223f8 100755
--- a/cli/cycpp.py
+++ b/cli/cycpp.py
@@ -865,7 +865,7 @@ class StateAccumulator(object):
         # Shape is too short.
         elif len(current_shape) < expected_shape_length:
             diff = expected_shape_length - len(current_shape)
-            new_shape = current_shape.extend([-1] * diff)
+            new_shape = list(current_shape) + [-1] * diff
         # Shape is too long- we throw an error.
         elif len(current_shape) > expected_shape_length:
             err_string = ("Shape array for type {t} is not formatted correctly."
-- 
2.43.0


From 7428777a73fd9e6963c73c3ecd779f15c59af730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:57 +0000
Subject: [PATCH 41/65] fix: cycpp generated invalid code for defaults of
 nested containers

An element of a nested pair, map or sequence was declared under the name
of the variable it belongs to.
---
 cli/cycpp.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cli/cycpp.py b/cli/cycpp.py
index 71223f8..df0f1d2 100755
--- a/cli/cycpp.py
+++ b/cli/cycpp.py
@@ -1215,6 +1215,11 @@ class InfileToDbFilter(CodeGeneratorFilter):
         else:
             return self._vals[key](t, val=val, name=name, uitype=uitype, ind=ind)
 
+    def _unshadow(self, base, name):
+        """Returns a name for an element of the variable called name that does
+        not hide it."""
+        return base + '_' if base == name else base
+
     def _val_bool(self, t, val=False, name='boolvar', uitype=None, ind=''):
         return ind + 'bool {0} = {1};\n'.format(name, 'true' if val else 'false')
 
@@ -1250,7 +1255,7 @@ class InfileToDbFilter(CodeGeneratorFilter):
 
     def _val_vector(self, t, val=(), name='vecvar', uitype=None, ind=''):
         uitype = prepare_type(t, uitype)
-        elemname = 'elem'
+        elemname = self._unshadow('elem', name)
 
         v = ind + '{0} {1};\n'.format(type_to_str(t), name)
         v += ind + '{0}.resize({1});\n'.format(name, len(val))
@@ -1271,7 +1276,7 @@ class InfileToDbFilter(CodeGeneratorFilter):
 
     def _val_set(self, t, val=frozenset(), name='setvar', uitype=None, ind=''):
         uitype = prepare_type(t, uitype)
-        elemname = 'elem'
+        elemname = self._unshadow('elem', name)
 
         v = ind + '{0} {1};\n'.format(type_to_str(t), name)
         v += ind + '{\n'
@@ -1291,7 +1296,7 @@ class InfileToDbFilter(CodeGeneratorFilter):
 
     def _val_list(self, t, val=(), name='listvar', uitype=None, ind=''):
         uitype = prepare_type(t, uitype)
-        elemname = 'elem'
+        elemname = self._unshadow('elem', name)
 
         v = ind + '{0} {1};\n'.format(type_to_str(t), name)
         v += ind + '{\n'
@@ -1314,7 +1319,8 @@ class InfileToDbFilter(CodeGeneratorFilter):
         ftype, stype = t[1], t[2]
         uitype = prepare_type(t, uitype)
 
-        fname, sname = 'first', 'second'
+        fname = self._unshadow('first', name)
+        sname = self._unshadow('second', name)
         v = ind + '{0} {1};\n'.format(type_to_str(t), name)
         v += ind + '{\n'
         ind += '  '
@@ -1328,8 +1334,8 @@ class InfileToDbFilter(CodeGeneratorFilter):
 
     def _val_map(self, t, val=None, name=None, uitype=None, ind=''):
         uitype = prepare_type(t, uitype)
-        keyname = 'key'
-        valname = 'val'
+        keyname = self._unshadow('key', name)
+        valname = self._unshadow('val', name)
 
         v = ind + '{0} {1};\n'.format(type_to_str(t), name)
         v += ind + '{\n'
-- 
2.43.0


From d27c021ed610f8584a4da356a722c7634aed6982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:31 +0000
Subject: [PATCH 42/65] fix: boolean state variables could not be given as true
 or false

The schema accepts true and false (and surrounding space) for a boolean,
but reading them failed with a bad lexical cast.
---
 src/infile_tree.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/infile_tree.h b/src/infile_tree.h
index 3db7b2b..6a270fe 100644
--- a/src/infile_tree.h
+++ b/src/infile_tree.h
@@ -90,6 +90,16 @@ inline std::string Query(InfileTree* tree, std::string query, int index) {
   return tree->GetString(query, index);
 }
 
+template <>
+inline bool Query(InfileTree* tree, std::string query, int index) {
+  std::string s = tree->GetString(query, index);
+  boost::trim(s);
+  if (s == "true" || s == "false") {
+    return s == "true";
+  }
+  return boost::lexical_cast<bool>(s.c_str());
+}
+
 template <>
 inline int Query(InfileTree* tree, std::string query, int index) {
   std::string s = tree->GetString(query, index);
-- 
2.43.0


From 5a486ed64ba0b5290ed47b4072d80ce73bb0979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:30 +0000
Subject: [PATCH 43/65] fix: build decisions fell short when the solver's
 numbers were just below whole

The number to build was truncated, so a solution of 5.9999999 units
ordered 5 and left demand unmet.
---
 src/toolkit/building_manager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/building_manager.cc b/src/toolkit/building_manager.cc
index ea61643..1ba480f 100644
--- a/src/toolkit/building_manager.cc
+++ b/src/toolkit/building_manager.cc
@@ -81,7 +81,8 @@ void BuildingManager::Solve_(OsiCbcSolverInterface& iface,
   CommodityProducer* p;
   Builder* b;
   for (int i = 0; i != nvar; i++) {
-    n = static_cast<int>(sol[i]);
+    // the solver's integers are only integers to within its tolerance
+    n = static_cast<int>(sol[i] + 0.5);
     if (n > 0) {
       p = idx_to_p[i];
       b = p_to_b[p];
-- 
2.43.0


From 27912bc66a3903b9f5d0d98e67813e3ad1342bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:42 +0000
Subject: [PATCH 44/65] fix: XML to JSON conversion lost an empty element
 followed by its namesakes

---
 src/toolkit/infile_converters.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/infile_converters.cc b/src/toolkit/infile_converters.cc
index ac49b78..a215e85 100644
--- a/src/toolkit/infile_converters.cc
+++ b/src/toolkit/infile_converters.cc
@@ -105,7 +105,8 @@ void JsonInsertOrAppend(Json::Value& node, std::string key, Json::Value& val) {
   using std::string;
   using Json::Value;
   if (node.isMember(key)) {
-    if (node[key].isArray()) {
+    // isArray() is also true of null, which here is an empty element
+    if (node[key].type() == Json::arrayValue) {
       node[key].append(val);
     } else {
       Value keynode = node[key];
-- 
2.43.0


From 92d5fbcbaeccda6fdcc91e3e4a59fb8472b6be16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:42 +0000
Subject: [PATCH 45/65] fix: JSON to XML conversion wrote malformed XML for
 arrays with null items, and an element for empty arrays

---
 src/toolkit/infile_converters.cc | 85 ++++++++++++++------------------
 1 file changed, 38 insertions(+), 47 deletions(-)

diff --git a/src/toolkit/infile_converters.cc b/src/toolkit/infile_converters.cc
index a215e85..7a92b6d 100644
--- a/src/toolkit/infile_converters.cc
+++ b/src/toolkit/infile_converters.cc
@@ -12,56 +12,46 @@
 namespace cyclus {
 namespace toolkit {
 
-void AddJsonToXml(Json::Value& node, std::stringstream& ss,
-                  std::string parent_name, std::string indent) {
-  using std::string;
-  using Json::Value;
-  if (node.isObject()) {
-    bool indent_child;
-    string name;
-    string newindent = indent + "  ";
-    Value::Members members = node.getMemberNames();
-    for (int n = 0; n < members.size(); ++n) {
-      name = members[n];
-      if (node[name].isNull()) {
-        ss << indent << "<" << name << "/>\n";
-        continue;
-      }
-      indent_child = node[name].isObject();
-      if (!indent_child && node[name].isArray())
-        indent_child = node[name][0].isObject() || node[name][0].isArray();
-      ss << indent << "<" << name << ">";
-      if (indent_child)
-        ss << "\n";
-      AddJsonToXml(node[name], ss, name, newindent);
-      if (indent_child)
-        ss << indent;
-      ss << "</" << name << ">\n";
-    }
+void AddJsonToXml(Json::Value& node, std::stringstream& ss, std::string name,
+                  std::string indent);
+
+// writes the members of an object as XML elements
+void AddMembersToXml(Json::Value& node, std::stringstream& ss,
+                     std::string indent) {
+  Json::Value::Members members = node.getMemberNames();
+  for (int n = 0; n < members.size(); ++n) {
+    AddJsonToXml(node[members[n]], ss, members[n], indent);
+  }
+}
+
+// writes a value as the XML element of the given name, or as one such element
+// per item if the value is an array
+void AddJsonToXml(Json::Value& node, std::stringstream& ss, std::string name,
+                  std::string indent) {
+  // isObject() and isArray() are also true of null
+  if (node.isNull()) {
+    ss << indent << "<" << name << "/>\n";
+    return;
   } else if (node.isArray()) {
-    bool indent_child;
-    std::string newindent = indent;
-    indent = indent.substr(0, indent.size() - 2);
     int nchildren = node.size();
     for (int n = 0; n < nchildren; ++n) {
-      if (node[n].isNull()) {
-        ss << indent << "<" << parent_name << "/>\n";
-        continue;
-      }
-      indent_child = node[n].isObject() || node[n].isArray();
-      if (n > 0) {
-        ss << indent << "<" << parent_name << ">";
-        if (indent_child)
-          ss << "\n";
-      }
-      AddJsonToXml(node[n], ss, parent_name, newindent);
-      if (n < nchildren - 1) {
-        if (indent_child)
-          ss << indent;
-        ss << "</" << parent_name << ">\n";
-      }
+      AddJsonToXml(node[n], ss, name, indent);
     }
-  } else if (node.isString()) {
+    return;
+  } else if (node.isObject()) {
+    std::stringstream body;
+    AddMembersToXml(node, body, indent + "  ");
+    if (body.str().empty()) {
+      ss << indent << "<" << name << "/>\n";
+    } else {
+      ss << indent << "<" << name << ">\n" << body.str() << indent << "</"
+         << name << ">\n";
+    }
+    return;
+  }
+
+  ss << indent << "<" << name << ">";
+  if (node.isString()) {
     ss << node.asString();
   } else if (node.isInt()) {
     ss << node.asInt64();
@@ -75,6 +65,7 @@ void AddJsonToXml(Json::Value& node, std::stringstream& ss,
     // plain old data
     ss << node.asString();
   }
+  ss << "</" << name << ">\n";
 }
 
 // Converts a JSON string into an equivalent XML string
@@ -96,7 +87,7 @@ std::string JsonToXml(std::string s) {
   }
 
   // convert to XML
-  AddJsonToXml(root, x, "", "");
+  AddMembersToXml(root, x, "");
   return x.str();
 }
 
-- 
2.43.0


From fce1a733ca82e369362a44fad0fd0be47918f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:42 +0000
Subject: [PATCH 46/65] fix: JSON to XML conversion did not escape markup
 characters in texts

---
 src/toolkit/infile_converters.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/infile_converters.cc b/src/toolkit/infile_converters.cc
index 7a92b6d..0871399 100644
--- a/src/toolkit/infile_converters.cc
+++ b/src/toolkit/infile_converters.cc
@@ -12,6 +12,23 @@
 namespace cyclus {
 namespace toolkit {
 
+// returns the text as it is written in XML
+std::string EscapeXml(const std::string& s) {
+  std::string out;
+  for (int i = 0; i < s.size(); ++i) {
+    if (s[i] == '&') {
+      out += "&amp;";
+    } else if (s[i] == '<') {
+      out += "&lt;";
+    } else if (s[i] == '>') {
+      out += "&gt;";
+    } else {
+      out += s[i];
+    }
+  }
+  return out;
+}
+
 void AddJsonToXml(Json::Value& node, std::stringstream& ss, std::string name,
                   std::string indent);
 
@@ -52,7 +69,7 @@ void AddJsonToXml(Json::Value& node, std::stringstream& ss, std::string name,
 
   ss << indent << "<" << name << ">";
   if (node.isString()) {
-    ss << node.asString();
+    ss << EscapeXml(node.asString());
   } else if (node.isInt()) {
     ss << node.asInt64();
   } else if (node.isUInt()) {
-- 
2.43.0


From 85de1f935b303e29b84415bc3e8132a4fc8f7f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:42 +0000
Subject: [PATCH 47/65] fix: JSON to XML conversion rounded numbers to six
 digits

---
 src/toolkit/infile_converters.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/infile_converters.cc b/src/toolkit/infile_converters.cc
index 0871399..c7eb0e0 100644
--- a/src/toolkit/infile_converters.cc
+++ b/src/toolkit/infile_converters.cc
@@ -1,3 +1,5 @@
+#include <cstdlib>
+#include <iomanip>
 #include <sstream>
 
 #include <boost/shared_ptr.hpp>
@@ -75,7 +77,15 @@ void AddJsonToXml(Json::Value& node, std::stringstream& ss, std::string name,
   } else if (node.isUInt()) {
     ss << node.asUInt64();
   } else if (node.isDouble()) {
-    ss << node.asDouble();
+    // the shortest of the usual forms that reads back as the same number
+    double x = node.asDouble();
+    std::stringstream num;
+    num << std::setprecision(15) << x;
+    if (strtod(num.str().c_str(), NULL) != x) {
+      num.str("");
+      num << std::setprecision(17) << x;
+    }
+    ss << num.str();
   } else if (node.isBool()) {
     ss << node.asBool();
   } else {
-- 
2.43.0


From 80e412aa970dde9113fcf99a8b6764813831e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:58 +0000
Subject: [PATCH 48/65] fix: decay dropped nuclides that have no decay data
 from the composition

---
 src/composition.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/composition.cc b/src/composition.cc
index 12eb439..f9a4950 100644
--- a/src/composition.cc
+++ b/src/composition.cc
@@ -130,11 +130,14 @@ Composition::Ptr Composition::NewDecay(int delta, uint64_t secs_per_timestep) {
 
   // Get intial condition vector
   std::vector<double> n0 (pyne_cram_transmute_info.n, 0.0);
+  CompMap cm;
   CompMap::const_iterator it;
   int i = -1;
   for (it = atom_.begin(); it != atom_.end(); ++it) {
     i = pyne_cram_transmute_nucid_to_i(it->first);
     if (i < 0) {
+      // no decay data: the nuclide stays as it is
+      cm[it->first] = it->second;
       continue;
     }
     n0[i] = it->second;
@@ -152,7 +155,6 @@ Composition::Ptr Composition::NewDecay(int delta, uint64_t secs_per_timestep) {
   pyne_cram_expm_multiply14(decay_matrix.data(), n0.data(), n1.data());
 
   // convert back to map
-  CompMap cm;
   for (i=0; i < pyne_cram_transmute_info.n; ++i) {
     if (n1[i] > 0.0) {
       cm[(pyne_cram_transmute_info.nucids)[i]] = n1[i];
-- 
2.43.0


From 54db3b298a48b2f0a92cc1b010b766fcfdd21e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:20 +0000
Subject: [PATCH 49/65] fix: decayed compositions were reused for time steps of
 another length

---
 src/composition.cc | 17 +++++++++++++++--
 src/composition.h  |  3 +++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/composition.cc b/src/composition.cc
index f9a4950..bb0dcc1 100644
--- a/src/composition.cc
+++ b/src/composition.cc
@@ -65,6 +65,16 @@ const CompMap& Composition::mass() {
 }
 
 Composition::Ptr Composition::Decay(int delta, uint64_t secs_per_timestep) {
+  if (!decay_line_->empty() &&
+      decay_line_->begin()->second->decay_secs_ != secs_per_timestep) {
+    // the decay chain was computed for time steps of another length, so the
+    // result can be neither looked up nor stored there.
+    Composition::Ptr other = NewDecay(delta, secs_per_timestep);
+    other->prev_decay_ = 0;
+    other->decay_line_ = ChainPtr(new Chain());
+    return other;
+  }
+
   int tot_decay = prev_decay_ + delta;
   if (decay_line_->count(tot_decay) == 1) {
     // decay_line_ has cached, pre-computed result of this decay
@@ -102,7 +112,8 @@ void Composition::Record(Context* ctx) {
   }
 }
 
-Composition::Composition() : prev_decay_(0), recorded_(false) {
+Composition::Composition()
+    : prev_decay_(0), recorded_(false), decay_secs_(0) {
   id_ = next_id_;
   next_id_++;
   decay_line_ = ChainPtr(new Chain());
@@ -111,7 +122,8 @@ Composition::Composition() : prev_decay_(0), recorded_(false) {
 Composition::Composition(int prev_decay, ChainPtr decay_line)
     : recorded_(false),
       prev_decay_(prev_decay),
-      decay_line_(decay_line) {
+      decay_line_(decay_line),
+      decay_secs_(0) {
   id_ = next_id_;
   next_id_++;
 }
@@ -123,6 +135,7 @@ Composition::Ptr Composition::NewDecay(int delta, uint64_t secs_per_timestep) {
   // the new composition is a part of this decay chain and so is created with a
   // pointer to the exact same decay_line_.
   Composition::Ptr decayed(new Composition(tot_decay, decay_line_));
+  decayed->decay_secs_ = secs_per_timestep;
 
   // FIXME this is only here for testing, see issue #761
   if (atom_.size() == 0)
diff --git a/src/composition.h b/src/composition.h
index cf6aca5..5270fac 100644
--- a/src/composition.h
+++ b/src/composition.h
@@ -105,6 +105,9 @@ class Composition {
 
   /// the total time delta this composition has been decayed from its root ancestor.
   int prev_decay_;
+
+  /// the length in seconds of the time steps this composition was decayed by
+  uint64_t decay_secs_;
 };
 
 }  // namespace cyclus
-- 
2.43.0


From fd60400726e96a88354f72c8f4168fd6cf555091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:20 +0000
Subject: [PATCH 50/65] fix: materials of more than 100 nuclides were decayed
 backwards in time

---
 src/material.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material.cc b/src/material.cc
index e8d7fe6..e5bb07b 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -198,7 +198,7 @@ void Material::Decay(int curr_time) {
   }
 
   int dt = curr_time - prev_decay_time_;
-  if (dt == 0) {
+  if (dt <= 0) {
     return;
   }
 
-- 
2.43.0


From 81315890320aa22712934c23446e65c6f135df4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:41 +0000
Subject: [PATCH 51/65] fix: sinks and k-facilities asked for more than fits
 their inventory

Once the inventory was nearly full the delivery broke its capacity limit and
the simulation died with an exception.
---
 agents/k_facility.h | 7 +++++--
 agents/sink.cc      | 6 +++---
 agents/sink.h       | 6 ++++++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/agents/k_facility.h b/agents/k_facility.h
index e2c543d..7320c48 100644
--- a/agents/k_facility.h
+++ b/agents/k_facility.h
@@ -1,6 +1,7 @@
 #ifndef CYCLUS_AGENTS_K_FACILITY_H_
 #define CYCLUS_AGENTS_K_FACILITY_H_
 
+#include <algorithm>
 #include <set>
 #include <string>
 #include <vector>
@@ -122,8 +123,10 @@ class KFacility : public cyclus::Facility {
   /// @return the current timestep's capacity
   inline double CurrentCapacity() const { return current_capacity; }
 
-  /// @brief determines the amount to request
-  inline double RequestAmt() const { return in_capacity; }
+  /// @brief determines the amount to request, which has to fit the inventory
+  inline double RequestAmt() const {
+    return std::min(in_capacity, inventory.space());
+  }
 
   /// @ return the conversion factor input
   inline double KFactorIn() const { return k_factor_in; }
diff --git a/agents/sink.cc b/agents/sink.cc
index 31534cd..dbf8f3a 100644
--- a/agents/sink.cc
+++ b/agents/sink.cc
@@ -20,7 +20,7 @@ Sink::GetMatlRequests() {
 
   std::set<RequestPortfolio<Material>::Ptr> ports;
   RequestPortfolio<Material>::Ptr port(new RequestPortfolio<Material>());
-  double amt = Capacity();
+  double amt = RequestAmt();
 
   Material::Ptr mat = cyclus::NewBlankMaterial(amt);
   if (!recipe_name.empty()) {
@@ -53,7 +53,7 @@ Sink::GetProductRequests() {
   std::set<RequestPortfolio<Product>::Ptr> ports;
   RequestPortfolio<Product>::Ptr
       port(new RequestPortfolio<Product>());
-  double amt = Capacity();
+  double amt = RequestAmt();
 
   if (amt > cyclus::eps()) {
     CapacityConstraint<Product> cc(amt);
@@ -96,7 +96,7 @@ void Sink::AcceptProductTrades(
 void Sink::Tick() {
   using std::string;
   using std::vector;
-  double request_amt = Capacity();
+  double request_amt = RequestAmt();
   // Inform the simulation about what the sink facility will be requesting
   if (request_amt > cyclus::eps()) {
     for (vector<string>::iterator commod = in_commods.begin();
diff --git a/agents/sink.h b/agents/sink.h
index 96fa8fb..15b9cab 100644
--- a/agents/sink.h
+++ b/agents/sink.h
@@ -1,6 +1,7 @@
 #ifndef CYCLUS_AGENTS_SINK_H_
 #define CYCLUS_AGENTS_SINK_H_
 
+#include <algorithm>
 #include <string>
 
 #include "cyclus.h"
@@ -60,6 +61,11 @@ class Sink : public cyclus::Facility  {
 
   inline void Capacity(double cap) { capacity = cap; }
 
+  /// @brief determines the amount to request, which has to fit the inventory
+  inline double RequestAmt() const {
+    return std::min(capacity, inventory.space());
+  }
+
   void AddIncommod(std::string commod) {in_commods.push_back(commod);};
 
   /// sets the name of the recipe to be requested
-- 
2.43.0


From 9522cc2c03e5e2d69692e382a9f77b14f3acdd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:16 +0000
Subject: [PATCH 52/65] fix: sources and k-facilities with nothing to supply
 offered empty bids

A capacity of zero is within the declared range, but the first request for the
commodity ended the simulation with an exception.
---
 agents/k_facility.cc | 2 +-
 agents/source.cc     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/agents/k_facility.cc b/agents/k_facility.cc
index 77a0e1a..27edb14 100644
--- a/agents/k_facility.cc
+++ b/agents/k_facility.cc
@@ -88,7 +88,7 @@ KFacility::GetMatlBids(
 
   std::set<BidPortfolio<Material>::Ptr> ports;
 
-  if (commod_requests.count(out_commod) > 0) {
+  if (out_capacity > cyclus::eps() && commod_requests.count(out_commod) > 0) {
     BidPortfolio<Material>::Ptr port(new BidPortfolio<Material>());
 
     std::vector<Request<Material>*>& requests = commod_requests.at(
diff --git a/agents/source.cc b/agents/source.cc
index e94f893..27833cd 100644
--- a/agents/source.cc
+++ b/agents/source.cc
@@ -51,7 +51,7 @@ Source::GetMatlBids(
 
   std::set<BidPortfolio<Material>::Ptr> ports;
 
-  if (commod_requests.count(commod) > 0) {
+  if (capacity > cyclus::eps() && commod_requests.count(commod) > 0) {
     BidPortfolio<Material>::Ptr port(new BidPortfolio<Material>());
 
     std::vector<Request<Material>*>& requests = commod_requests[commod];
-- 
2.43.0


From 72d89c9d660780e6bd920491fa367e87287c8f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:05 +0000
Subject: [PATCH 53/65] fix: a sink of several commodities took its throughput
 once for each

The requests of the portfolio added up instead of being alternatives, so a sink
of n commodities accepted up to n times its declared throughput per time step.
---
 agents/sink.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/agents/sink.cc b/agents/sink.cc
index dbf8f3a..4fa73b8 100644
--- a/agents/sink.cc
+++ b/agents/sink.cc
@@ -32,10 +32,13 @@ Sink::GetMatlRequests() {
     CapacityConstraint<Material> cc(amt);
     port->AddConstraint(cc);
 
+    // any mix of the commodities will do, as long as it is no more than amt
+    std::vector<Request<Material>*> mutuals;
     std::vector<std::string>::const_iterator it;
     for (it = in_commods.begin(); it != in_commods.end(); ++it) {
-      port->AddRequest(mat, this, *it);
+      mutuals.push_back(port->AddRequest(mat, this, *it));
     }
+    port->AddMutualReqs(mutuals);
 
     ports.insert(port);
   }  // if amt > eps
@@ -59,12 +62,15 @@ Sink::GetProductRequests() {
     CapacityConstraint<Product> cc(amt);
     port->AddConstraint(cc);
 
+    // any mix of the commodities will do, as long as it is no more than amt
+    std::vector<Request<Product>*> mutuals;
     std::vector<std::string>::const_iterator it;
     for (it = in_commods.begin(); it != in_commods.end(); ++it) {
       std::string quality = "";  // not clear what this should be..
       Product::Ptr rsrc = Product::CreateUntracked(amt, quality);
-      port->AddRequest(rsrc, this, *it);
+      mutuals.push_back(port->AddRequest(rsrc, this, *it));
     }
+    port->AddMutualReqs(mutuals);
 
     ports.insert(port);
   }  // if amt > eps
-- 
2.43.0


From 1c6c9e07173da7bb7d8841993b7667350c17980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:56 +0000
Subject: [PATCH 54/65] fix: printing the agents below one never returned

---
 src/agent.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agent.cc b/src/agent.cc
index 86df05e..4dbc9c4 100644
--- a/src/agent.cc
+++ b/src/agent.cc
@@ -211,7 +211,7 @@ std::vector<std::string> Agent::GetTreePrintOuts(Agent* m) {
   ss << m->prototype() << std::endl;
   ret.push_back(ss.str());
   std::set<Agent*>::iterator it;
-  for (it = children_.begin(); it != children_.end(); ++it) {
+  for (it = m->children_.begin(); it != m->children_.end(); ++it) {
     Agent* child = *it;
     std::vector<std::string> outs = GetTreePrintOuts(child);
     for (int j = 0; j < outs.size(); j++) {
-- 
2.43.0


From 28e460340d6985e02d1c92aee6e741896546db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:54 +0000
Subject: [PATCH 55/65] fix: a build scheduled under a parent that left used
 the freed parent

---
 src/agent.cc |  2 ++
 src/timer.cc | 11 +++++++++++
 src/timer.h  |  4 ++++
 3 files changed, 17 insertions(+)

diff --git a/src/agent.cc b/src/agent.cc
index 4dbc9c4..0998bb2 100644
--- a/src/agent.cc
+++ b/src/agent.cc
@@ -10,6 +10,7 @@
 #include "error.h"
 #include "logger.h"
 #include "resource.h"
+#include "timer.h"
 
 namespace cyclus {
 
@@ -187,6 +188,7 @@ void Agent::Decommission() {
       ->AddVal("ExitTime", ctx_->time())
       ->Record();
   ctx_->UnregisterAgent(this);
+  ctx_->ti_->OrphanBuilds(this);
   ctx_->DelAgent(this);
 }
 
diff --git a/src/timer.cc b/src/timer.cc
index 2a41cbf..630974d 100644
--- a/src/timer.cc
+++ b/src/timer.cc
@@ -225,6 +225,17 @@ void Timer::SchedBuild(Agent* parent, std::string proto_name, int t) {
   build_queue_[t].push_back(std::make_pair(proto_name, parent));
 }
 
+void Timer::OrphanBuilds(Agent* parent) {
+  std::map<int, std::vector<std::pair<std::string, Agent*> > >::iterator it;
+  for (it = build_queue_.begin(); it != build_queue_.end(); ++it) {
+    for (int i = 0; i < it->second.size(); ++i) {
+      if (it->second[i].second == parent) {
+        it->second[i].second = NULL;
+      }
+    }
+  }
+}
+
 void Timer::SchedDecom(Agent* m, int t) {
   if (t < time_) {
     throw ValueError("Cannot schedule decommission for t < [current-time]");
diff --git a/src/timer.h b/src/timer.h
index 410452b..77b4ace 100644
--- a/src/timer.h
+++ b/src/timer.h
@@ -48,6 +48,10 @@ class Timer {
   /// timestep t.
   void SchedBuild(Agent* parent, std::string proto_name, int t);
 
+  /// Leaves all builds scheduled for the given parent without a parent. Must
+  /// be called before the parent is deleted.
+  void OrphanBuilds(Agent* parent);
+
   /// Schedules the given Agent to be decommissioned at the specified
   /// timestep t.
   void SchedDecom(Agent* m, int time);
-- 
2.43.0


From 093ead59f469c8f105d1c94e11a500f198afc494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:34 +0000
Subject: [PATCH 56/65] fix: an in-memory query with an empty list of
 conditions failed

---
 cyclus/memback.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclus/memback.pyx b/cyclus/memback.pyx
index 3c6106d..beb0664 100644
--- a/cyclus/memback.pyx
+++ b/cyclus/memback.pyx
@@ -258,6 +258,8 @@ cdef class _MemBack(lib._FullBackend):
     #
     def _apply_conds(self, df, conds):
         """Applies the condition query to data frame."""
+        if len(conds) == 0:
+            return df
         key = ''
         ctx = {'__builtins__': None}
         for i, (field, op, val) in enumerate(conds):
-- 
2.43.0


From f5c965b2542e5bac4f07832955029e80bab3e9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:34 +0000
Subject: [PATCH 57/65] fix: an in-memory query on a column named val0 compared
 the value with itself

---
 cyclus/memback.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cyclus/memback.pyx b/cyclus/memback.pyx
index beb0664..e640a69 100644
--- a/cyclus/memback.pyx
+++ b/cyclus/memback.pyx
@@ -266,7 +266,7 @@ cdef class _MemBack(lib._FullBackend):
             key += field + op  # the value doesn't affect the key since it is loaded.
             if field not in ctx:
                 ctx[field] = df[field]
-            ctx['val' + str(i)] = val
+            ctx[self._val_name(i)] = val
         qccache = self._query_code_cache
         if key in qccache:
             code = qccache[key]
@@ -280,6 +280,12 @@ cdef class _MemBack(lib._FullBackend):
         res = df[mask]
         return res
 
+    def _val_name(self, i):
+        """The name of the i-th value; not an identifier, so that it can't
+        hide a column.
+        """
+        return '<val' + str(i) + '>'
+
     def _compile_conds(self, conds):
         """Compiles conditions into a code object."""
         tree = Expression(body=self._parse_conds(conds))
@@ -291,7 +297,7 @@ cdef class _MemBack(lib._FullBackend):
         cond0 & cond1 & cond2, etc.
         """
         for i, (field, op, _) in enumerate(conds):
-            cond_tree = self._parse_cond(field, op, 'val' + str(i))
+            cond_tree = self._parse_cond(field, op, self._val_name(i))
             if i == 0:
                 tree = cond_tree
             else:
-- 
2.43.0


From 9f2dd48088a1d342bef592399d541b5196e49df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:34 +0000
Subject: [PATCH 58/65] fix: restricting an in-memory backend that stored all
 tables kept the others

---
 cyclus/memback.pyx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cyclus/memback.pyx b/cyclus/memback.pyx
index e640a69..5bf33c1 100644
--- a/cyclus/memback.pyx
+++ b/cyclus/memback.pyx
@@ -243,13 +243,12 @@ cdef class _MemBack(lib._FullBackend):
         else:
             if not isinstance(val, Set):
                 val = frozenset(val)
-            old = self.registry
             cpp_ptx.registry = std_set_std_string_to_cpp(val)
             cpp_ptx.store_all_tables = False
             self._registry = None
-            # find keys in the old registry but not in the new one and
-            # also in the current cache. Then remove them.
-            dirty_keys = frozenset(cache.keys()) & (old - val)
+            # find keys in the current cache but not in the new registry.
+            # Then remove them.
+            dirty_keys = frozenset(cache.keys()) - val
             for key in dirty_keys:
                 del cache[key]
 
-- 
2.43.0


From 2b9f00a0850829fb7c16fe62c9e09eacaec2c919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:34 +0000
Subject: [PATCH 59/65] fix: the tables of a backend were those at the time
 they were first asked for

---
 cyclus/lib.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cyclus/lib.pyx b/cyclus/lib.pyx
index 4aaaf25..f0f58aa 100644
--- a/cyclus/lib.pyx
+++ b/cyclus/lib.pyx
@@ -271,8 +271,7 @@ cdef class _FullBackend:
             tab = deref(it)
             tabs.add(tab.decode())
             inc(it)
-        self._tables = tabs
-        return self._tables
+        return tabs
 
     @tables.setter
     def tables(self, value):
-- 
2.43.0


From 5dd3d8059ceb3509ae7287142d5441263d1eebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:57 +0000
Subject: [PATCH 60/65] fix: recording from Python left the datum with the
 names of freed columns

---
 cyclus/lib.pyx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cyclus/lib.pyx b/cyclus/lib.pyx
index f0f58aa..dad0265 100644
--- a/cyclus/lib.pyx
+++ b/cyclus/lib.pyx
@@ -76,7 +76,6 @@ cdef class _Datum:
         """Constructor for Datum type conversion."""
         self._free = False
         self.ptx = NULL
-        self._fields = []
 
     def __dealloc__(self):
         """Datum destructor."""
@@ -118,9 +117,8 @@ cdef class _Datum:
             pass
         else:
             raise ValueError('field name must be str or bytes.')
-        # have to keep refs around so don't dealloc field names
-        self._fields.append(field)
-        cdef char* cpp_field = <char*> field
+        # as a string, since the datum outlives this object when it is recorded
+        cdef std_string cpp_field = field
         if shape is None:
             (<cpp_cyclus.Datum*> self.ptx).AddVal(cpp_field, v)
         else:
@@ -134,7 +132,6 @@ cdef class _Datum:
     def record(self):
         """Records the Datum."""
         (<cpp_cyclus.Datum*> self.ptx).Record()
-        self._fields.clear()
 
     @property
     def title(self):
-- 
2.43.0


From 486984c3df6d0de269ea3dacb140497d90c5ff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:21 +0000
Subject: [PATCH 61/65] fix: the columns of a table that is not in an HDF5 file
 asked for all of memory

---
 src/hdf5_back.cc.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5_back.cc.in b/src/hdf5_back.cc.in
index 46e8d56..17d1573 100644
--- a/src/hdf5_back.cc.in
+++ b/src/hdf5_back.cc.in
@@ -436,6 +436,8 @@ void Hdf5Back::CreateTable(Datum* d) {
 
 std::map<std::string, DbTypes> Hdf5Back::ColumnTypes(std::string table) {
   using std::string;
+  if (!H5Lexists(file_, table.c_str(), H5P_DEFAULT))
+    throw IOError("table '" + table + "' does not exist in '" + path_ + "'.");
   int i;
   char* colname;
   hid_t dset = H5Dopen2(file_, table.c_str(), H5P_DEFAULT);
@@ -462,6 +464,8 @@ std::map<std::string, DbTypes> Hdf5Back::ColumnTypes(std::string table) {
 }
 
 std::list<ColumnInfo> Hdf5Back::Schema(std::string table) {
+  if (!H5Lexists(file_, table.c_str(), H5P_DEFAULT))
+    throw IOError("table '" + table + "' does not exist in '" + path_ + "'.");
   std::list<ColumnInfo> schema;
   hid_t tb_set = H5Dopen2(file_, table.c_str(), H5P_DEFAULT);
   hid_t tb_type = H5Dget_type(tb_set);
-- 
2.43.0


From 5526f84a73dac708d7333d656103db1d189b4f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:12 +0000
Subject: [PATCH 62/65] fix: asking Python for the columns of a missing table
 ended the process

---
 cyclus/cpp_cyclus.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclus/cpp_cyclus.pxd b/cyclus/cpp_cyclus.pxd
index 0cf8f81..c588d64 100644
--- a/cyclus/cpp_cyclus.pxd
+++ b/cyclus/cpp_cyclus.pxd
@@ -150,7 +150,7 @@ cdef extern from "cyclus.h" namespace "cyclus":
     cdef cppclass QueryableBackend:
         QueryResult Query(std_string, vector[Cond]*) except +
         map[std_string, DbTypes] ColumnTypes(std_string) except +
-        list[ColumnInfo] Schema(std_string)
+        list[ColumnInfo] Schema(std_string) except +
         set[std_string] Tables() except +
 
     cdef cppclass FullBackend(QueryableBackend, RecBackend):
-- 
2.43.0


From afd57dab75a44495a30c0c3036c20bf35f53f585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:02 +0000
Subject: [PATCH 63/65] fix: blobs recorded from Python were cut at NUL bytes

---
 cyclus/gentypesystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cyclus/gentypesystem.py b/cyclus/gentypesystem.py
index 0fba046..4ae23a2 100644
--- a/cyclus/gentypesystem.py
+++ b/cyclus/gentypesystem.py
@@ -474,7 +474,7 @@ VARS_TO_CPP = {
     'float': '<float> {var}',
     'double': '<double> {var}',
     'std::string': 'str_py_to_cpp({var})',
-    'cyclus::Blob': 'cpp_cyclus.Blob(std_string(<const char*> {var}))',
+    'cyclus::Blob': 'cpp_cyclus.Blob(<std_string> {var})',
     'boost::uuids::uuid': 'uuid_py_to_cpp({var})',
     }
 
@@ -660,7 +660,7 @@ TO_CPP_CONVERTERS = {
         'else:\n'
         '   b_{var} = bytes({var})\n',
         'std_string(<const char*> b_{var})'),
-    'cyclus::Blob': ('', '', 'cpp_cyclus.Blob(std_string(<const char*> {var}))'),
+    'cyclus::Blob': ('', '', 'cpp_cyclus.Blob(<std_string> {var})'),
     'boost::uuids::uuid': ('', '', 'uuid_py_to_cpp({var})'),
     'cyclus::Material': (
         'cdef _Material py{var}\n'
-- 
2.43.0


From 2206e4562a525b1970758be57b3dda64dd6769f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:18 +0000
Subject: [PATCH 64/65] fix: the extractable amount of a composition could
 exceed the material

---
 src/toolkit/mat_query.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/mat_query.cc b/src/toolkit/mat_query.cc
index df7cc78..196a2bf 100644
--- a/src/toolkit/mat_query.cc
+++ b/src/toolkit/mat_query.cc
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "mat_query.h"
 #include "pyne.h"
 
@@ -110,7 +112,8 @@ double MatQuery::Amount(Composition::Ptr c) {
   for (it = m_other.begin(); it != m_other.end(); ++it) {
     sum += it->second;
   }
-  return sum;
+  // rounding must not make it more than there is
+  return std::min(sum, qty());
 }
 
 }  // namespace toolkit
-- 
2.43.0


From 9f7d1943cf3b18495c99c9a2f6f29c1f277c040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:46 +0000
Subject: [PATCH 65/65] fix: an in-memory query with a condition on a missing
 column failed, unlike any other

---
 cyclus/memback.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclus/memback.pyx b/cyclus/memback.pyx
index 5bf33c1..4f4e09c 100644
--- a/cyclus/memback.pyx
+++ b/cyclus/memback.pyx
@@ -257,6 +257,8 @@ cdef class _MemBack(lib._FullBackend):
     #
     def _apply_conds(self, df, conds):
         """Applies the condition query to data frame."""
+        # non-existent columns are skipped, as in the other backends
+        conds = [cond for cond in conds if cond[0] in df.columns]
         if len(conds) == 0:
             return df
         key = ''
-- 
2.43.0

