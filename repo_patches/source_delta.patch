From 62537051c27b76bed3f2cf0f052fef5f48c02cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 01/31] fix: recursive_generator lost exceptions of children
 that yield no value

---
 include/soro/utls/coroutine/recursive_generator.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/soro/utls/coroutine/recursive_generator.h b/include/soro/utls/coroutine/recursive_generator.h
index b08d48a..4f74125 100644
--- a/include/soro/utls/coroutine/recursive_generator.h
+++ b/include/soro/utls/coroutine/recursive_generator.h
@@ -62,9 +62,10 @@ public:
     auto yield_value(recursive_generator& generator) noexcept {
       struct awaitable {
 
-        awaitable(promise_type* childPromise) : m_childPromise(childPromise) {}
+        awaitable(promise_type* childPromise, bool const ready)
+            : m_childPromise(childPromise), m_ready(ready) {}
 
-        bool await_ready() noexcept { return this->m_childPromise == nullptr; }
+        bool await_ready() noexcept { return this->m_ready; }
 
         void await_suspend(coro::coroutine_handle<promise_type>) noexcept {}
 
@@ -76,6 +77,7 @@ public:
 
       private:
         promise_type* m_childPromise;
+        bool m_ready;
       };
 
       if (generator.m_promise != nullptr) {
@@ -85,13 +87,17 @@ public:
         generator.m_promise->resume();
 
         if (!generator.m_promise->is_complete()) {
-          return awaitable{generator.m_promise};
+          return awaitable{generator.m_promise, false};
         }
 
         m_root->m_parentOrLeaf = this;
+
+        // the child ran to completion without yielding a value,
+        // await_resume() still has to rethrow its exception
+        return awaitable{generator.m_promise, true};
       }
 
-      return awaitable{nullptr};
+      return awaitable{nullptr, true};
     }
 
     // Don't allow any use of 'co_await' inside the recursive_generator
-- 
2.43.0


From ad530bb1f74279d33019800438ccbf4a791cec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 02/31] fix: generator swallowed exceptions thrown by the
 coroutine

---
 include/soro/utls/coroutine/generator.h | 34 ++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/include/soro/utls/coroutine/generator.h b/include/soro/utls/coroutine/generator.h
index 9b41d6e..eb637f7 100644
--- a/include/soro/utls/coroutine/generator.h
+++ b/include/soro/utls/coroutine/generator.h
@@ -57,7 +57,15 @@ public:
   }
 
   void return_void() {}
-  void unhandled_exception() {}
+  void unhandled_exception() noexcept {
+    exception_ = std::current_exception();
+  }
+
+  void rethrow_if_exception() const {
+    if (exception_ != nullptr) {
+      std::rethrow_exception(exception_);
+    }
+  }
 
   reference_type value() const noexcept {
     return static_cast<reference_type>(*value_);
@@ -69,6 +77,7 @@ public:
 
 private:
   pointer_type value_{nullptr};
+  std::exception_ptr exception_{nullptr};
 };
 
 template <typename T, bool IsConst>
@@ -113,6 +122,11 @@ struct generator_iterator {
 
   generator_iterator& operator++() {
     coroutine_.resume();
+
+    if (coroutine_.done()) {
+      coroutine_.promise().rethrow_if_exception();
+    }
+
     return *this;
   }
 
@@ -147,8 +161,15 @@ struct [[nodiscard]] generator {
     }
   }
 
-  iterator begin() noexcept { return iterator{coroutine_}; }
-  const_iterator begin() const noexcept { return const_iterator{coroutine_}; }
+  iterator begin() {
+    rethrow_if_failed();
+    return iterator{coroutine_};
+  }
+
+  const_iterator begin() const {
+    rethrow_if_failed();
+    return const_iterator{coroutine_};
+  }
 
   iterator end() noexcept { return {}; }
   const_iterator end() const noexcept { return {}; }
@@ -159,6 +180,13 @@ private:
   explicit generator(coro::coroutine_handle<promise_type> coroutine) noexcept
       : coroutine_(coroutine) {}
 
+  // the coroutine runs up to its first yield on construction
+  void rethrow_if_failed() const {
+    if (coroutine_ && coroutine_.done()) {
+      coroutine_.promise().rethrow_if_exception();
+    }
+  }
+
   coro::coroutine_handle<promise_type> coroutine_;
 };
 
-- 
2.43.0


From 2558b6dfdbfffc8d41f9b561dce6690de2805b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 03/31] fix: two empty exclusion sets must compare equivalent

---
 src/infrastructure/exclusion/exclusion_set.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/exclusion/exclusion_set.cc b/src/infrastructure/exclusion/exclusion_set.cc
index 08e1b6b..e931689 100644
--- a/src/infrastructure/exclusion/exclusion_set.cc
+++ b/src/infrastructure/exclusion/exclusion_set.cc
@@ -281,7 +281,8 @@ std::partial_ordering exclusion_set::compare(exclusion_set const& other) const {
   }
 
   if (other.empty()) {
-    return std::partial_ordering::greater;
+    return this->empty() ? std::partial_ordering::equivalent
+                         : std::partial_ordering::greater;
   }
 
   if (this == &other) {
-- 
2.43.0


From 0ae5b3d5a16040ef8138ac5e5153acde76a7412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 04/31] fix: inserting into an empty exclusion set corrupted
 its bounds

---
 src/infrastructure/exclusion/exclusion_set.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/infrastructure/exclusion/exclusion_set.cc b/src/infrastructure/exclusion/exclusion_set.cc
index e931689..badbda8 100644
--- a/src/infrastructure/exclusion/exclusion_set.cc
+++ b/src/infrastructure/exclusion/exclusion_set.cc
@@ -157,6 +157,16 @@ bool exclusion_set::operator[](exclusion_set::value_type const idx) const {
 }
 
 void exclusion_set::set(value_type const idx) {
+  if (this->empty()) {
+    first_ = (idx / bitvec_t::bits_per_block) * bitvec_t::bits_per_block;
+    last_ = first_ + bitvec_t::bits_per_block - 1;
+
+    first_bit_set_ = idx;
+    last_bit_set_ = idx;
+
+    bits_.resize(bitvec_t::bits_per_block);
+  }
+
   if (idx < first_) {
     lower_first(this,
                 (idx / bitvec_t::bits_per_block) * bitvec_t::bits_per_block);
-- 
2.43.0


From 79b26769fc049d586b55d53f775fab63ecf0da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 05/31] fix: graph traversal visited the edges of the start
 node again on every cycle

---
 include/soro/utls/graph/traversal.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/soro/utls/graph/traversal.h b/include/soro/utls/graph/traversal.h
index c1229f3..5c9f43e 100644
--- a/include/soro/utls/graph/traversal.h
+++ b/include/soro/utls/graph/traversal.h
@@ -28,6 +28,7 @@ inline void graph_traversal(Node const start, GetNeighbours&& get_neighbours,
   Todo q;
   cista::raw::hash_set<Node> seen;
 
+  seen.emplace(start);
   q.emplace(std::pair{start, start});
 
   while (!q.empty()) {
-- 
2.43.0


From 8a06a74e594d996f3c80845bed560ced2ac83815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 06/31] fix: strong_type operators modified their left operand

---
 include/soro/utls/strong_types/strong_type.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/soro/utls/strong_types/strong_type.h b/include/soro/utls/strong_types/strong_type.h
index b6b4646..68f09a9 100644
--- a/include/soro/utls/strong_types/strong_type.h
+++ b/include/soro/utls/strong_types/strong_type.h
@@ -15,7 +15,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator+(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator+(strong_type lhs, strong_type const& rhs) {
     lhs += rhs;
     return lhs;
   }
@@ -25,7 +25,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator-(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator-(strong_type lhs, strong_type const& rhs) {
     lhs -= rhs;
     return lhs;
   }
@@ -35,7 +35,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator*(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator*(strong_type lhs, strong_type const& rhs) {
     lhs *= rhs;
     return lhs;
   }
@@ -45,7 +45,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator/(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator/(strong_type lhs, strong_type const& rhs) {
     lhs /= rhs;
     return lhs;
   }
-- 
2.43.0


From df898c6e93847e0c633d358bc1b943f75e81067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:27 +0000
Subject: [PATCH 07/31] fix: bitfield::equivalent did not align bitfields with
 different first dates

---
 src/timetable/bitfield.cc | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/timetable/bitfield.cc b/src/timetable/bitfield.cc
index 377fe9f..1eada28 100644
--- a/src/timetable/bitfield.cc
+++ b/src/timetable/bitfield.cc
@@ -189,15 +189,14 @@ bool bitfield::equivalent(bitfield const& o) const noexcept {
     return true;
   }
 
-  if (this->first_date_ < o.first_date_) {
-    auto copy = o;
-    copy.bitset_ >> distance(this->first_date_, o.first_date_);
-    return *this == copy;
-  } else {
-    auto copy = *this;
-    copy.bitset_ >> distance(o.first_date_, this->first_date_);
-    return copy == o;
-  }
+  auto const& early = this->first_date_ < o.first_date_ ? *this : o;
+  auto const& late = this->first_date_ < o.first_date_ ? o : *this;
+
+  auto const offset = distance(early.first_date_, late.first_date_);
+
+  // shifting in both directions notices days that are shifted out
+  return early.bitset_ == (late.bitset_ << offset) &&
+         (early.bitset_ >> offset) == late.bitset_;
 }
 
 bitfield operator|(bitfield const& lhs, bitfield const& rhs) noexcept {
-- 
2.43.0


From 3e2234f72d3f38c76b8fe083bb50887f59c4cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:22 +0000
Subject: [PATCH 08/31] fix: train::departures missed trips that started on an
 earlier service day

---
 src/timetable/train.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/timetable/train.cc b/src/timetable/train.cc
index e314edd..1b04387 100644
--- a/src/timetable/train.cc
+++ b/src/timetable/train.cc
@@ -21,11 +21,21 @@ bool train_node::omitted() const {
   return omitted_ || (node_->is(type::HALT) && !sequence_point_.has_value());
 }
 
+// the earliest service day with a trip that may overlap the interval, as trips
+// can end on a later day than their service day
+absolute_time first_anchor(train const& train, interval const& interval) {
+  auto const start = interval.start_.time_since_epoch();
+  auto const arrival = train.last_arrival();
+  return absolute_time{start > arrival ? start - arrival
+                                       : absolute_time::duration{0}};
+}
+
 train::iterator::iterator(train const* train, interval const& interval,
                           bool const end)
     : train_{train},
-      bitfield_it_(end ? train->service_days_.to(interval.end_)
-                       : train->service_days_.from(interval.start_)),
+      bitfield_it_(
+          end ? train->service_days_.to(interval.end_)
+              : train->service_days_.from(first_anchor(*train, interval))),
       interval_{interval} {
   advance();
 }
-- 
2.43.0


From 8dc102ffa4ab7db3dc5ea59e818c22bf9065b609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 09/31] fix: dpd::insert of a value below the first one lost or
 misplaced entries

---
 include/soro/simulation/dpd.h | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/include/soro/simulation/dpd.h b/include/soro/simulation/dpd.h
index 9f0cf99..23987d9 100644
--- a/include/soro/simulation/dpd.h
+++ b/include/soro/simulation/dpd.h
@@ -127,15 +127,10 @@ struct dpd<Granularity, T> {
     }
 
     if (granular < first_) {
-      auto diff = (first_ - granular) / granularity;
-      std::vector<probability_t> new_dpd(dpd_.size() + size_t{diff});
-      for (soro::size_t idx = 0; idx < new_dpd.size(); ++idx) {
-        if (static_cast<soro::size_t>(diff) < idx) {
-          new_dpd[idx] = 0.0F;
-        } else {
-          new_dpd[idx + size_t{diff}] = dpd_[idx];
-        }
-      }
+      auto const diff =
+          static_cast<std::size_t>((first_ - granular) / granularity);
+      dpd_.insert(std::begin(dpd_), diff, probability_t{0.0F});
+      first_ = granular;
     }
 
     auto const idx = to_idx(head);
@@ -197,14 +192,8 @@ struct dpd<Granularity, T, Ts...> {
     if (granular < first_) {
       auto const diff =
           static_cast<std::size_t>(((first_ - granular) / granularity).t_);
-      container_t new_dpds(dpd_.size() + diff);
-      for (auto idx = 0U; idx < new_dpds.size(); ++idx) {
-        if (idx < diff) {
-          new_dpds[idx] = {};
-        } else {
-          new_dpds[idx] = std::move(dpd_[idx]);
-        }
-      }
+      dpd_.insert(std::begin(dpd_), diff, inner_dpd_t{});
+      first_ = granular;
     }
 
     auto const idx = to_idx(head);
-- 
2.43.0


From 5c1113842458458a0172180e845fb772262cd4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 10/31] fix: iterating a dpd reported every speed one step too
 high

---
 include/soro/simulation/dpd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/soro/simulation/dpd.h b/include/soro/simulation/dpd.h
index 23987d9..bc7e160 100644
--- a/include/soro/simulation/dpd.h
+++ b/include/soro/simulation/dpd.h
@@ -246,7 +246,7 @@ utls::generator<std::tuple<
           dpd.first_ +
           dpd.get_granularity() * soro::utls::unixtime{static_cast<time_t>(p1)};
       auto const speed =
-          m2.first_ + m2.get_granularity() + kilometer_per_hour{p2};
+          m2.first_ + kilometer_per_hour{m2.get_granularity().km_h_ * p2};
 
       co_yield std::tuple{time, speed, prob};
     }
-- 
2.43.0


From e379a4c918dd43c17c27ac918d787c9af0ac9d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 11/31] fix: the difference of dpd iterators had the wrong sign

---
 include/soro/simulation/dpd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/soro/simulation/dpd.h b/include/soro/simulation/dpd.h
index bc7e160..7fb6bd2 100644
--- a/include/soro/simulation/dpd.h
+++ b/include/soro/simulation/dpd.h
@@ -71,7 +71,7 @@ struct prob_dist_iter {
   bool operator!=(prob_dist_iter const& o) const { return it_ != o.it_; }
 
   int operator-(prob_dist_iter const& o) const {
-    return std::distance(it_, o.it_);
+    return static_cast<int>(std::distance(o.it_, it_));
   }
 
   typename T::primary_t t_;
-- 
2.43.0


From 769852a87d83473719ce172d158740923ce564b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 12/31] fix: utls::equal compared string views beyond their end

---
 include/soro/utls/string.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/soro/utls/string.h b/include/soro/utls/string.h
index ed7a5c3..2630c1a 100644
--- a/include/soro/utls/string.h
+++ b/include/soro/utls/string.h
@@ -4,6 +4,7 @@
 #include <cstdint>
 #include <cstring>
 #include <string>
+#include <string_view>
 #include <vector>
 
 #include "soro/base/soro_types.h"
@@ -43,16 +44,18 @@ inline bool equal(char const* const s1, soro::string const& s2) {
   return equal(s1, s2.data());
 }
 
-inline bool equal(soro::string_view s1, char const* const s2) {
-  return equal(s1.data(), s2);
+inline bool equal(soro::string_view const& s1, soro::string_view const& s2) {
+  // views are not necessarily null terminated
+  return std::string_view{s1.data(), s1.size()} ==
+         std::string_view{s2.data(), s2.size()};
 }
 
-inline bool equal(char const* const s1, soro::string_view s2) {
-  return equal(s1, s2.data());
+inline bool equal(soro::string_view s1, char const* const s2) {
+  return std::string_view{s1.data(), s1.size()} == s2;
 }
 
-inline bool equal(soro::string_view const& s1, soro::string_view const& s2) {
-  return equal(s1.data(), s2.data());
+inline bool equal(char const* const s1, soro::string_view s2) {
+  return equal(s2, s1);
 }
 
 inline bool starts_with(char const* const str, char const* const prfx) {
-- 
2.43.0


From f40df262df6b66b5e5a246edeb818bbcdfb2d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 13/31] fix: extra speed limits of station routes leaked to all
 later nodes

---
 src/infrastructure/station/station_route.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/infrastructure/station/station_route.cc b/src/infrastructure/station/station_route.cc
index 74b63a7..f8e4b7e 100644
--- a/src/infrastructure/station/station_route.cc
+++ b/src/infrastructure/station/station_route.cc
@@ -166,15 +166,22 @@ utls::recursive_generator<route_node> station_route::from_to(
 
     if (result.omitted_) {
       ++omit_idx;
-    } else {
-      bool const extra_spl =
-          spl_idx < extra_speed_limits_.size() &&
-          extra_speed_limits_[spl_idx].node_->id_ == result.node_->id_;
+    }
+
+    // an extra speed limit belongs to its node only
+    result.extra_spl_ = {};
+
+    bool const extra_spl =
+        spl_idx < extra_speed_limits_.size() &&
+        extra_speed_limits_[spl_idx].node_->id_ == result.node_->id_;
 
-      if (extra_spl) {
+    if (extra_spl) {
+      if (!result.omitted_) {
         result.extra_spl_ =
-            speed_limit::optional_ptr(&extra_speed_limits_[spl_idx++]);
+            speed_limit::optional_ptr(&extra_speed_limits_[spl_idx]);
       }
+
+      ++spl_idx;
     }
 
     co_yield result;
-- 
2.43.0


From 299110036bbe520976795b47d1a969c48828d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 14/31] fix: dividing by the number of interlocking routes when
 there are none

---
 src/infrastructure/interlocking/get_interlocking.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infrastructure/interlocking/get_interlocking.cc b/src/infrastructure/interlocking/get_interlocking.cc
index b4d2d8a..69400a9 100644
--- a/src/infrastructure/interlocking/get_interlocking.cc
+++ b/src/infrastructure/interlocking/get_interlocking.cc
@@ -273,6 +273,11 @@ void print_interlocking_stats(soro::vector<interlocking_route> const& irs) {
   }
 
   uLOG(utl::info) << "Generated " << irs.size() << " interlocking routes.";
+
+  if (irs.empty()) {
+    return;
+  }
+
   uLOG(utl::info) << "Average length in station routes of an interlocking: "
                   << length_in_srs / irs.size();
 }
-- 
2.43.0


From 4545d79e5ee6e169b95c746f5eddd82f6df14c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 15/31] fix: read the point of action of speed limits the right
 way round

---
 src/infrastructure/parsers/iss/parse_track_element.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infrastructure/parsers/iss/parse_track_element.cc b/src/infrastructure/parsers/iss/parse_track_element.cc
index 9bfeb65..25619bd 100644
--- a/src/infrastructure/parsers/iss/parse_track_element.cc
+++ b/src/infrastructure/parsers/iss/parse_track_element.cc
@@ -21,11 +21,11 @@ namespace soro::infra {
 speed_limit::poa parse_speed_limit_poa(xml_node const& poa_node) {
   switch (str_hash(poa_node.child_value())) {
     case str_hash(SIGNAL): {
-      return speed_limit::poa::HERE;
+      return speed_limit::poa::LAST_SIGNAL;
     }
 
     case str_hash(HERE): {
-      return speed_limit::poa::LAST_SIGNAL;
+      return speed_limit::poa::HERE;
     }
 
     default: {
-- 
2.43.0


From 7bf0974030e79bf330bf4bfcfc246f16f401cc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 16/31] fix: read the index when its path is given as
 infrastructure

---
 src/infrastructure/parsers/iss/iss_files.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/parsers/iss/iss_files.cc b/src/infrastructure/parsers/iss/iss_files.cc
index 04de0fd..d70c131 100644
--- a/src/infrastructure/parsers/iss/iss_files.cc
+++ b/src/infrastructure/parsers/iss/iss_files.cc
@@ -51,7 +51,7 @@ iss_files get_iss_files(std::filesystem::path const& fp) {
   if (fp.extension() == ".iss") {
     throw utl::fail("archives are currently not supported.");
   } else if (fp.filename().string() == "Index.xml") {
-    return iss_files(fp.parent_path());
+    return iss_files(fp);
   } else if (is_directory(fp) && exists(fp / "Index.xml")) {
     return iss_files(fp / "Index.xml");
   } else if (is_directory(fp) && !exists(fp / "Index.xml")) {
-- 
2.43.0


From 7ab1319e5ee2edff087f82d19197f6a1243ca817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 17/31] fix: look up train series by exactly the given series
 and owner

---
 src/rolling_stock/rolling_stock.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rolling_stock/rolling_stock.cc b/src/rolling_stock/rolling_stock.cc
index 7adc5df..9ca55ff 100644
--- a/src/rolling_stock/rolling_stock.cc
+++ b/src/rolling_stock/rolling_stock.cc
@@ -8,7 +8,7 @@ utls::result<traction_vehicle> rolling_stock::get_traction_vehicle(
     std::string_view const series, std::string_view const owner,
     variant_id variant_id) const {
 
-  std::string tsk = series.data() + std::string("-") + owner.data();  // NOLINT
+  auto const tsk = std::string{series} + "-" + std::string{owner};
   soro::string const train_series_key{tsk.data()};  // NOLINT
 
   auto train_series_it = train_series_.find(train_series_key);
-- 
2.43.0


From ecc99b7648e0417af083a4b64ff2726c702c8ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 18/31] fix: first interlocking route leading beyond the stop
 sequence read past the end of the sequence or refused the train

---
 .../station_route_to_interlocking_route.cc    | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/timetable/parsers/station_route_to_interlocking_route.cc b/src/timetable/parsers/station_route_to_interlocking_route.cc
index adb5f39..a9734c6 100644
--- a/src/timetable/parsers/station_route_to_interlocking_route.cc
+++ b/src/timetable/parsers/station_route_to_interlocking_route.cc
@@ -141,7 +141,7 @@ utls::result<first_ir> get_first_ir(stop_sequence const& stop_sequence,
   auto const candidates =
       get_candidates(stop_sequence, ss_cover, first_node, freight, infra);
 
-  auto const [longest_prefix_routes, current_longest_prefix] =
+  auto const [longest_prefix_routes, longest_prefix] =
       get_longest_prefix_interlocking_routes(candidates, irs, stop_sequence, 0);
 
   if (longest_prefix_routes.empty()) {
@@ -154,13 +154,20 @@ utls::result<first_ir> get_first_ir(stop_sequence const& stop_sequence,
 
   auto const& prefix_ir = irs.routes_[longest_prefix_routes.front()];
 
-  ss_cover.node_idx_ = prefix_ir.end_offset_;
-  if (current_longest_prefix == 0) {
-    ss_cover.stop_sequence_offset_ =
-        prefix_ir.station_routes_.size() -
-        utls::find_position(prefix_ir.station_routes_, first_sr->id_) - 1;
+  // the first interlocking route can start before the first station route and
+  // lead beyond the last station route of the stop sequence
+  auto const covered_srs =
+      prefix_ir.station_routes_.size() -
+      utls::find_position(prefix_ir.station_routes_, first_sr->id_);
+
+  if (covered_srs > stop_sequence.points_.size()) {
+    auto const last_sr =
+        infra->station_routes_[stop_sequence.points_.back().station_route_];
+    ss_cover.stop_sequence_offset_ = stop_sequence.points_.size() - 1;
+    ss_cover.node_idx_ = last_sr->size();
   } else {
-    ss_cover.stop_sequence_offset_ = current_longest_prefix - 1;
+    ss_cover.stop_sequence_offset_ = covered_srs - 1;
+    ss_cover.node_idx_ = prefix_ir.end_offset_;
   }
 
   if (longest_prefix_routes.size() == 1) {
-- 
2.43.0


From 114c0a8a28a666a6f3ef6031639e110f14375386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 19/31] fix: a stop sequence that no interlocking route follows
 was accepted with a route to another station

---
 .../station_route_to_interlocking_route.cc    | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/timetable/parsers/station_route_to_interlocking_route.cc b/src/timetable/parsers/station_route_to_interlocking_route.cc
index a9734c6..8abf8df 100644
--- a/src/timetable/parsers/station_route_to_interlocking_route.cc
+++ b/src/timetable/parsers/station_route_to_interlocking_route.cc
@@ -119,6 +119,22 @@ interlocking_route::ids get_candidates(stop_sequence const& ss,
   return candidates;
 }
 
+// an interlocking route only follows the stop sequence if it leads over the
+// same station routes as far as both of them go
+bool follows(interlocking_route const& ir, std::size_t const ir_offset,
+             stop_sequence const& ss, std::size_t const ss_offset) {
+  for (auto i = 0UL; ir_offset + i < ir.station_routes_.size() &&
+                     ss_offset + i < ss.points_.size();
+       ++i) {
+    if (ir.station_routes_[ir_offset + i] !=
+        ss.points_[ss_offset + i].station_route_) {
+      return false;
+    }
+  }
+
+  return true;
+}
+
 struct first_ir {
   interlocking_route::id id_;
   cover cover_;
@@ -156,9 +172,13 @@ utls::result<first_ir> get_first_ir(stop_sequence const& stop_sequence,
 
   // the first interlocking route can start before the first station route and
   // lead beyond the last station route of the stop sequence
-  auto const covered_srs =
-      prefix_ir.station_routes_.size() -
+  auto const first_sr_offset =
       utls::find_position(prefix_ir.station_routes_, first_sr->id_);
+  auto const covered_srs = prefix_ir.station_routes_.size() - first_sr_offset;
+
+  if (!follows(prefix_ir, first_sr_offset, stop_sequence, 0)) {
+    return std::unexpected(error::route_transform::NO_FIRST_IR);
+  }
 
   if (covered_srs > stop_sequence.points_.size()) {
     auto const last_sr =
@@ -248,6 +268,11 @@ utls::result<interlocking_transformation> transform_to_interlocking(
 
     current_ir = &irs.routes_[longest_prefix_routes.front()];
 
+    if (!follows(*current_ir, 0, stop_sequence,
+                 current_cover.stop_sequence_offset_)) {
+      return std::unexpected(error::route_transform::NO_IR);
+    }
+
     result.path_.emplace_back(current_ir->id_);
     utl::concat(
         result.sequence_points_,
-- 
2.43.0


From e8674463d8a716c16fddd2e6720013af581fdb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 20/31] fix: the first interlocking route of a train did not
 need to contain its first halt

---
 .../parsers/station_route_to_interlocking_route.cc         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/timetable/parsers/station_route_to_interlocking_route.cc b/src/timetable/parsers/station_route_to_interlocking_route.cc
index 8abf8df..e08984e 100644
--- a/src/timetable/parsers/station_route_to_interlocking_route.cc
+++ b/src/timetable/parsers/station_route_to_interlocking_route.cc
@@ -180,6 +180,13 @@ utls::result<first_ir> get_first_ir(stop_sequence const& stop_sequence,
     return std::unexpected(error::route_transform::NO_FIRST_IR);
   }
 
+  auto const& first_point = stop_sequence.points_.front();
+  if (first_point.is_halt() &&
+      !prefix_ir.contains(first_sr->id_,
+                          *first_point.get_node_idx(freight, infra))) {
+    return std::unexpected(error::route_transform::NO_FIRST_IR);
+  }
+
   if (covered_srs > stop_sequence.points_.size()) {
     auto const last_sr =
         infra->station_routes_[stop_sequence.points_.back().station_route_];
-- 
2.43.0


From 81343df06152f6a96559984c04873f3174ef9e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 21/31] fix: the version of a kss timetable was read from files
 that are not kss files

---
 src/timetable/parsers/kss/parse_kss_timetable.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/timetable/parsers/kss/parse_kss_timetable.cc b/src/timetable/parsers/kss/parse_kss_timetable.cc
index a45d802..9a3d07c 100644
--- a/src/timetable/parsers/kss/parse_kss_timetable.cc
+++ b/src/timetable/parsers/kss/parse_kss_timetable.cc
@@ -510,7 +510,14 @@ infra::version get_required_infra_version(timetable_options const& opts) {
   utls::expect(!fs::is_empty(opts.timetable_path_),
                "timetable path {} is empty", opts.timetable_path_);
 
-  auto const first_fp = begin(fs::directory_iterator{opts.timetable_path_});
+  // there can be other files next to the kss files
+  auto const first_fp = std::find_if(
+      begin(fs::directory_iterator{opts.timetable_path_}),
+      end(fs::directory_iterator{}),
+      [](auto&& dir_entry) { return is_kss_file(dir_entry.path()); });
+  utl::verify(first_fp != end(fs::directory_iterator{}),
+              "timetable path {} contains no kss file", opts.timetable_path_);
+
   auto const first_file = utls::load_file(first_fp->path());
 
   xml_document tt_xml;
-- 
2.43.0


From b6fcf00cbab0df8a89a349210168d8d0682f0e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 22/31] fix: a parsed timetable did not know its source type

---
 src/timetable/timetable.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timetable/timetable.cc b/src/timetable/timetable.cc
index 7c0316e..cb1f8a1 100644
--- a/src/timetable/timetable.cc
+++ b/src/timetable/timetable.cc
@@ -69,7 +69,10 @@ utls::result<timetable> try_parsing_timetable(
 
   utls::sassert(bt.has_value(), "base timetable not successfully parsed");
 
-  return timetable(std::move(*bt));
+  timetable result(std::move(*bt));
+  result.source_type_ = source_type;
+
+  return result;
 }
 
 }  // namespace soro::tt
-- 
2.43.0


From aa7310af3c98f8ea9d6395a5fc0a70f6919fc28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:51 +0000
Subject: [PATCH 23/31] fix: speed limits of the last signal, when the signal
 shares its place with others

---
 src/runtime/interval.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/runtime/interval.cc b/src/runtime/interval.cc
index b61af2d..880a896 100644
--- a/src/runtime/interval.cc
+++ b/src/runtime/interval.cc
@@ -211,10 +211,6 @@ interval_list get_interval_list(train const& train, type_set const& event_types,
       current_limit = (*spl_duo.here_)->limit_;
     }
 
-    if (tn.node_->is(type::MAIN_SIGNAL)) {
-      last_ms = list.size();
-    }
-
     if (event_types.contains(tn.node_->type())) {
       current_events.emplace_back(tn.node_, current_distance);
     }
@@ -237,6 +233,11 @@ interval_list get_interval_list(train const& train, type_set const& event_types,
       prev_limit = current_limit;
       current_events = {};
     }
+
+    // a main signal can share its interval with elements at the same place
+    if (tn.node_->is(type::MAIN_SIGNAL)) {
+      last_ms = list.size() - 1;
+    }
   }
 
   while (adjust_speed_limits(list, train.physics_))
-- 
2.43.0


From 060e8cbb826aa80b45e2cbcbc5a68160ac3a162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 24/31] fix: the next node of a trip in the ordering graph

---
 src/simulation/ordering/ordering_graph.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simulation/ordering/ordering_graph.cc b/src/simulation/ordering/ordering_graph.cc
index fa553f4..f9800a1 100644
--- a/src/simulation/ordering/ordering_graph.cc
+++ b/src/simulation/ordering/ordering_graph.cc
@@ -219,13 +219,15 @@ std::span<const ordering_node> ordering_graph::trip_nodes(
 }
 
 ordering_node const& ordering_node::next(ordering_graph const& og) const {
+  // the nodes of a trip have consecutive ids. out_ also has edges to nodes of
+  // other trips, and the edge to the next node can be a transitive one.
   utls::sasserts([this, &og] {
-    utls::sassert(!out_.empty(), "no next node");
-    auto const& next = og.nodes_[out_.front()];
+    utls::sassert(id_ + 1 < og.nodes_.size(), "no next node");
+    auto const& next = og.nodes_[id_ + 1];
     utls::sassert(next.train_id_ == train_id_, "next node not same train");
   });
 
-  return og.nodes_[out_.front()];
+  return og.nodes_[id_ + 1];
 }
 
 }  // namespace soro::simulation
\ No newline at end of file
-- 
2.43.0


From ca53abf1927d6c55526b1dafac61cbdb1e41f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:57 +0000
Subject: [PATCH 25/31] fix: is_path for elements without neighbours on every
 side

---
 include/soro/infrastructure/path/is_path.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/soro/infrastructure/path/is_path.h b/include/soro/infrastructure/path/is_path.h
index 9c46d87..154cf7b 100644
--- a/include/soro/infrastructure/path/is_path.h
+++ b/include/soro/infrastructure/path/is_path.h
@@ -9,8 +9,9 @@
 namespace soro::infra {
 
 inline bool neighbours(element::ptr e1, element::ptr e2) {
-  return utls::any_of(e1->neighbours(),
-                      [&](auto&& neigh) { return neigh->id() == e2->id(); });
+  return utls::any_of(e1->neighbours(), [&](auto&& neigh) {
+    return neigh != nullptr && neigh->id() == e2->id();
+  });
 }
 
 template <typename Iterable>
-- 
2.43.0


From 658b9f30df7c0b726e3ba7dd8f681100eeabfbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 26/31] fix: the length of a path by its sections read past the
 end of the path

---
 include/soro/infrastructure/path/length.h | 37 +++++++++++------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/include/soro/infrastructure/path/length.h b/include/soro/infrastructure/path/length.h
index 473de07..6e8ba66 100644
--- a/include/soro/infrastructure/path/length.h
+++ b/include/soro/infrastructure/path/length.h
@@ -45,38 +45,37 @@ template <typename Iterable>
   requires utls::yields<element::ptr, Iterable> &&
            utls::is_input_iterable<Iterable>
 si::length get_path_length_from_sections(Iterable&& element_iter) {
-  auto iter = std::begin(element_iter);
-
   si::length distance = si::ZERO<si::length>;
 
+  auto iter = std::begin(element_iter);
+
   element::ptr last_section = *iter;
-  element::ptr next_to_last_section = *(++iter);
+  ++iter;
+
+  if (iter == std::end(element_iter)) {
+    return distance;
+  }
 
-  element::ptr next_section = next_to_last_section;
+  element::ptr next_to_last_section = *iter;
   element::ptr prev_to_next_section = last_section;
 
   while (iter != std::end(element_iter)) {
-    while (iter != std::end(element_iter) && (*iter)->is_track_element()) {
-      ++iter;
+    element::ptr const next_section = *iter;
+    ++iter;
 
-      prev_to_next_section = next_section;
-      next_section = *iter;
-    }
+    bool const at_end = iter == std::end(element_iter);
 
-    distance += abs(last_section->get_km(next_to_last_section) -
-                    next_section->get_km(prev_to_next_section));
+    if (!next_section->is_track_element() || at_end) {
+      distance += abs(last_section->get_km(next_to_last_section) -
+                      next_section->get_km(prev_to_next_section));
 
-    if (iter == std::end(element_iter)) {
-      break;
+      if (!at_end) {
+        last_section = next_section;
+        next_to_last_section = *iter;
+      }
     }
 
-    ++iter;
-
-    last_section = next_section;
-    next_to_last_section = *iter;
-
     prev_to_next_section = next_section;
-    next_section = *iter;
   }
 
   return distance;
-- 
2.43.0


From 3db0a2f81cafb15d210d8225542c04b218bf4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:55 +0000
Subject: [PATCH 27/31] fix: answer requests for elements and exclusion sets
 that do not exist with not found

---
 web/server/src/modules/infrastructure/serve_element.cc    | 7 +++++++
 .../src/modules/infrastructure/serve_exclusion_set.cc     | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/web/server/src/modules/infrastructure/serve_element.cc b/web/server/src/modules/infrastructure/serve_element.cc
index 564aeab..ae09506 100644
--- a/web/server/src/modules/infrastructure/serve_element.cc
+++ b/web/server/src/modules/infrastructure/serve_element.cc
@@ -46,6 +46,13 @@ net::web_server::string_res_t infrastructure_module::serve_element(
   }
 
   auto const e_id = utls::parse_int<element_id>(req.path_params_[1]);
+  if (e_id >= (**infra)->graph_.elements_.size()) {
+    uLOG(utl::warn) << "requesting element with id " << e_id
+                    << " but there are only "
+                    << (**infra)->graph_.elements_.size() << " elements";
+    return net::not_found_response(req);
+  }
+
   auto const& element = (**infra)->graph_.elements_[e_id];
 
   json_archive archive;
diff --git a/web/server/src/modules/infrastructure/serve_exclusion_set.cc b/web/server/src/modules/infrastructure/serve_exclusion_set.cc
index c775048..75646eb 100644
--- a/web/server/src/modules/infrastructure/serve_exclusion_set.cc
+++ b/web/server/src/modules/infrastructure/serve_exclusion_set.cc
@@ -21,6 +21,14 @@ net::web_server::string_res_t infrastructure_module::serve_exclusion_set(
   }
 
   auto const es_id = utls::parse_int<exclusion_set::id>(req.path_params_[1]);
+  if (es_id >= (**infra)->exclusion_.exclusion_sets_.size()) {
+    uLOG(utl::warn) << "requesting exclusion set with id " << es_id
+                    << " but there are only "
+                    << (**infra)->exclusion_.exclusion_sets_.size()
+                    << " exclusion sets";
+    return net::not_found_response(req);
+  }
+
   auto const& es = (**infra)->exclusion_.exclusion_sets_[es_id];
 
   json_archive archive;
-- 
2.43.0


From 2308a2664321fbf2326df8bddb3152750d8d566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:55 +0000
Subject: [PATCH 28/31] fix: answer a request for the timetables of an unknown
 infrastructure with not found

---
 .../src/modules/timetable/serve_timetable_names.cc       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/web/server/src/modules/timetable/serve_timetable_names.cc b/web/server/src/modules/timetable/serve_timetable_names.cc
index c3744a9..2176df2 100644
--- a/web/server/src/modules/timetable/serve_timetable_names.cc
+++ b/web/server/src/modules/timetable/serve_timetable_names.cc
@@ -1,5 +1,7 @@
 #include "soro/server/modules/timetable/timetable_module.h"
 
+#include "net/web_server/responses.h"
+
 #include "soro/server/cereal/cereal_extern.h"
 #include "soro/server/cereal/json_archive.h"
 
@@ -7,7 +9,12 @@ namespace soro::server {
 
 net::web_server::string_res_t timetable_module::serve_timetable_names(
     net::query_router::route_request const& req) const {
-  auto const& context = this->contexts_.at(req.path_params_.front());
+  auto const context_it = contexts_.find(req.path_params_.front());
+  if (context_it == std::end(contexts_)) {
+    return net::not_found_response(req);
+  }
+
+  auto const& context = context_it->second;
 
   json_archive archive;
   archive.add()(cereal::make_nvp("timetables",
-- 
2.43.0


From 5c6f82d2975fdc8a2b247948d19608fa0660dfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:55 +0000
Subject: [PATCH 29/31] fix: index external and operational identifiers of
 halts under their own name and condition

---
 web/server/src/modules/search/search_module.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/web/server/src/modules/search/search_module.cc b/web/server/src/modules/search/search_module.cc
index ec359e4..b119e69 100644
--- a/web/server/src/modules/search/search_module.cc
+++ b/web/server/src/modules/search/search_module.cc
@@ -107,12 +107,12 @@ search_module::context get_search_context(infra::infrastructure const& infra) {
       }
 
       if (!data.identifier_extern_.empty()) {
-        std::string const name(data.identifier_operational_);
-        ctx.results_.push_back({type, name, bb, id});
+        std::string const name(data.identifier_extern_);
+        ctx.results_.push_back({type, name, bb, id, type_str});
       }
 
       if (!data.identifier_operational_.empty()) {
-        std::string const name(data.identifier_extern_);
+        std::string const name(data.identifier_operational_);
         ctx.results_.push_back({type, name, bb, id, type_str});
       }
     }
-- 
2.43.0


From e0150bcec063095de2ada3a64083bf81ae59c2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:44 +0000
Subject: [PATCH 30/31] fix: the stations of an infrastructure are answered
 without a slash at the end of the URL, as the client asks for them

---
 web/server/src/soro_server.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/server/src/soro_server.cc b/web/server/src/soro_server.cc
index 1fcc49e..507629e 100644
--- a/web/server/src/soro_server.cc
+++ b/web/server/src/soro_server.cc
@@ -45,7 +45,7 @@ void soro_server::set_up_routes(server_settings const& s) {
                 });
 
   // 0.0.0.0:8080/infrastructure/{infrastructure_name}/stations/
-  router_.route("GET", R"(/infrastructure\/([a-zA-Z0-9_-]+)\/stations/$)",
+  router_.route("GET", R"(/infrastructure\/([a-zA-Z0-9_-]+)\/stations\/?$)",
                 [this](net::query_router::route_request const& req,
                        web_server::http_res_cb_t const& cb, bool const) {
                   cb(infrastructure_module_.serve_station_names(req));
-- 
2.43.0


From 23da01da207118a76bb609d42b11f7bb0320b12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:44 +0000
Subject: [PATCH 31/31] fix: an infrastructure without a coordinate file has
 unknown station positions instead of none

---
 src/infrastructure/parsers/parse_station_coords.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infrastructure/parsers/parse_station_coords.cc b/src/infrastructure/parsers/parse_station_coords.cc
index c15d047..812a6a5 100644
--- a/src/infrastructure/parsers/parse_station_coords.cc
+++ b/src/infrastructure/parsers/parse_station_coords.cc
@@ -18,14 +18,14 @@ using namespace soro::utls;
 soro::vector<gps> parse_station_coords(
     std::filesystem::path const& gps_path,
     soro::map<soro::string, station::ptr> const& ds100_to_station) {
+  soro::vector<gps> station_coords(
+      static_cast<uint32_t>(ds100_to_station.size()));
+
   if (!std::filesystem::exists(gps_path)) {
     uLOG(warn) << "GPS coordinate path '" << gps_path << "' does not exist.";
-    return {};
+    return station_coords;
   }
 
-  soro::vector<gps> station_coords(
-      static_cast<uint32_t>(ds100_to_station.size()));
-
   auto const gps_content = utls::read_file_to_string(gps_path);
 
   struct row {
-- 
2.43.0

