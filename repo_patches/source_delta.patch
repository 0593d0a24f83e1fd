From 7b3d1c791b8a4a5ca14dc26842d1ad45435065f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:26 +0000
Subject: [PATCH 01/10] fix: compare service days in bitfield::equivalent

The shifted copy was discarded and the dates were part of the comparison,
so fields covering different ranges were never equivalent.
---
 src/timetable/bitfield.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/timetable/bitfield.cc b/src/timetable/bitfield.cc
index 377fe9f..c7cb20b 100644
--- a/src/timetable/bitfield.cc
+++ b/src/timetable/bitfield.cc
@@ -189,15 +189,13 @@ bool bitfield::equivalent(bitfield const& o) const noexcept {
     return true;
   }
 
-  if (this->first_date_ < o.first_date_) {
-    auto copy = o;
-    copy.bitset_ >> distance(this->first_date_, o.first_date_);
-    return *this == copy;
-  } else {
-    auto copy = *this;
-    copy.bitset_ >> distance(o.first_date_, this->first_date_);
-    return copy == o;
+  if (o.first_date_ < this->first_date_) {
+    return o.equivalent(*this);
   }
+
+  auto const offset = distance(this->first_date_, o.first_date_);
+  return (this->bitset_ >> offset) == o.bitset_ &&
+         (o.bitset_ << offset) == this->bitset_;
 }
 
 bitfield operator|(bitfield const& lhs, bitfield const& rhs) noexcept {
-- 
2.43.0


From 0e0207f1eb226ef42a4fd92a6d2b358c6a02941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 02/10] fix: yield trips that start before the interval and
 have events in it

---
 src/timetable/train.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/timetable/train.cc b/src/timetable/train.cc
index e314edd..494b95d 100644
--- a/src/timetable/train.cc
+++ b/src/timetable/train.cc
@@ -21,11 +21,23 @@ bool train_node::omitted() const {
   return omitted_ || (node_->is(type::HALT) && !sequence_point_.has_value());
 }
 
+// A trip that starts before the interval can still have events in it: the
+// first candidate is the trip whose last arrival is not before the interval.
+static absolute_time first_candidate(train const& train,
+                                     interval const& interval) {
+  auto const start = interval.start_.time_since_epoch();
+  auto const last_arrival = train.last_arrival();
+
+  return last_arrival < start ? interval.start_ - last_arrival
+                              : absolute_time{absolute_time::duration::zero()};
+}
+
 train::iterator::iterator(train const* train, interval const& interval,
                           bool const end)
     : train_{train},
       bitfield_it_(end ? train->service_days_.to(interval.end_)
-                       : train->service_days_.from(interval.start_)),
+                       : train->service_days_.from(
+                             first_candidate(*train, interval))),
       interval_{interval} {
   advance();
 }
-- 
2.43.0


From fb90ff2fbd6f9cec835181ebb37d2da270160d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:22 +0000
Subject: [PATCH 03/10] fix: set the first id of an empty exclusion set

---
 src/infrastructure/exclusion/exclusion_set.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/infrastructure/exclusion/exclusion_set.cc b/src/infrastructure/exclusion/exclusion_set.cc
index 08e1b6b..b972e1a 100644
--- a/src/infrastructure/exclusion/exclusion_set.cc
+++ b/src/infrastructure/exclusion/exclusion_set.cc
@@ -157,6 +157,13 @@ bool exclusion_set::operator[](exclusion_set::value_type const idx) const {
 }
 
 void exclusion_set::set(value_type const idx) {
+  if (this->empty()) {
+    first_ = (idx / bitvec_t::bits_per_block) * bitvec_t::bits_per_block;
+    last_ = first_ + bitvec_t::bits_per_block - 1;
+    last_bit_set_ = idx;
+    bits_.resize(bitvec_t::bits_per_block);
+  }
+
   if (idx < first_) {
     lower_first(this,
                 (idx / bitvec_t::bits_per_block) * bitvec_t::bits_per_block);
-- 
2.43.0


From 061902c9fec64643228528bb200b9131b39ef4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:22 +0000
Subject: [PATCH 04/10] fix: two empty exclusion sets are equivalent

---
 src/infrastructure/exclusion/exclusion_set.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/exclusion/exclusion_set.cc b/src/infrastructure/exclusion/exclusion_set.cc
index b972e1a..ae3a6fe 100644
--- a/src/infrastructure/exclusion/exclusion_set.cc
+++ b/src/infrastructure/exclusion/exclusion_set.cc
@@ -288,7 +288,8 @@ std::partial_ordering exclusion_set::compare(exclusion_set const& other) const {
   }
 
   if (other.empty()) {
-    return std::partial_ordering::greater;
+    return this->empty() ? std::partial_ordering::equivalent
+                         : std::partial_ordering::greater;
   }
 
   if (this == &other) {
-- 
2.43.0


From 38a8328486b47deca8ad8f9ca40fa5c28393c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:40 +0000
Subject: [PATCH 05/10] fix: report an additional speed limit of a station
 route at its own node only

---
 src/infrastructure/station/station_route.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/infrastructure/station/station_route.cc b/src/infrastructure/station/station_route.cc
index 74b63a7..7483f6b 100644
--- a/src/infrastructure/station/station_route.cc
+++ b/src/infrastructure/station/station_route.cc
@@ -160,6 +160,7 @@ utls::recursive_generator<route_node> station_route::from_to(
 
   for (; node_idx < to; ++node_idx) {
     result.node_ = nodes(node_idx);
+    result.extra_spl_.reset();
 
     result.omitted_ = omit_idx < omitted_nodes_.size() &&
                       omitted_nodes_[omit_idx] == node_idx;
-- 
2.43.0


From 698b3968eb436b532f3f05a287a2b106846baac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:40 +0000
Subject: [PATCH 06/10] fix: do not dereference the end iterator in
 get_path_length_from_sections

---
 include/soro/infrastructure/path/length.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/soro/infrastructure/path/length.h b/include/soro/infrastructure/path/length.h
index 473de07..f29dbe4 100644
--- a/include/soro/infrastructure/path/length.h
+++ b/include/soro/infrastructure/path/length.h
@@ -59,6 +59,10 @@ si::length get_path_length_from_sections(Iterable&& element_iter) {
     while (iter != std::end(element_iter) && (*iter)->is_track_element()) {
       ++iter;
 
+      if (iter == std::end(element_iter)) {
+        break;
+      }
+
       prev_to_next_section = next_section;
       next_section = *iter;
     }
@@ -72,6 +76,10 @@ si::length get_path_length_from_sections(Iterable&& element_iter) {
 
     ++iter;
 
+    if (iter == std::end(element_iter)) {
+      break;
+    }
+
     last_section = next_section;
     next_to_last_section = *iter;
 
-- 
2.43.0


From 1938c700f2a2408275bf2fe189b7b97750e8edee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:40 +0000
Subject: [PATCH 07/10] fix: visit the edges of the start node of a traversal
 only once

---
 include/soro/utls/graph/traversal.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/soro/utls/graph/traversal.h b/include/soro/utls/graph/traversal.h
index c1229f3..2e074b1 100644
--- a/include/soro/utls/graph/traversal.h
+++ b/include/soro/utls/graph/traversal.h
@@ -29,6 +29,7 @@ inline void graph_traversal(Node const start, GetNeighbours&& get_neighbours,
   cista::raw::hash_set<Node> seen;
 
   q.emplace(std::pair{start, start});
+  seen.emplace(start);
 
   while (!q.empty()) {
     auto const current = get_current(q);
-- 
2.43.0


From f6d49b4c18535eb72e154128f168dc7922740d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:40 +0000
Subject: [PATCH 08/10] fix: ordering_node::next returns the next node of the
 same trip

---
 src/simulation/ordering/ordering_graph.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/simulation/ordering/ordering_graph.cc b/src/simulation/ordering/ordering_graph.cc
index fa553f4..da9c321 100644
--- a/src/simulation/ordering/ordering_graph.cc
+++ b/src/simulation/ordering/ordering_graph.cc
@@ -219,13 +219,16 @@ std::span<const ordering_node> ordering_graph::trip_nodes(
 }
 
 ordering_node const& ordering_node::next(ordering_graph const& og) const {
+  // The nodes of a trip are numbered consecutively. The outgoing edges don't tell
+  // the next node: they are in no particular order and the edge to the next node
+  // might have been removed as a transitive edge.
   utls::sasserts([this, &og] {
-    utls::sassert(!out_.empty(), "no next node");
-    auto const& next = og.nodes_[out_.front()];
+    utls::sassert(id_ + 1 < og.nodes_.size(), "no next node");
+    auto const& next = og.nodes_[id_ + 1];
     utls::sassert(next.train_id_ == train_id_, "next node not same train");
   });
 
-  return og.nodes_[out_.front()];
+  return og.nodes_[id_ + 1];
 }
 
 }  // namespace soro::simulation
\ No newline at end of file
-- 
2.43.0


From 36c60862d37bb4b7b6589c0e8e9936ca974fbb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 09/10] fix: apply limits from the last signal when it shares
 its place with another border

---
 src/runtime/interval.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/runtime/interval.cc b/src/runtime/interval.cc
index b61af2d..e798348 100644
--- a/src/runtime/interval.cc
+++ b/src/runtime/interval.cc
@@ -211,10 +211,6 @@ interval_list get_interval_list(train const& train, type_set const& event_types,
       current_limit = (*spl_duo.here_)->limit_;
     }
 
-    if (tn.node_->is(type::MAIN_SIGNAL)) {
-      last_ms = list.size();
-    }
-
     if (event_types.contains(tn.node_->type())) {
       current_events.emplace_back(tn.node_, current_distance);
     }
@@ -234,6 +230,11 @@ interval_list get_interval_list(train const& train, type_set const& event_types,
         list.push_back(new_interval);
       }
 
+      // a main signal can share its interval with a previous border
+      if (tn.node_->is(type::MAIN_SIGNAL)) {
+        last_ms = list.size() - 1;
+      }
+
       prev_limit = current_limit;
       current_events = {};
     }
-- 
2.43.0


From d6b93a64723b710f6628a436ed6a2164f12bf2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:46 +0000
Subject: [PATCH 10/10] fix: a first interlocking route beyond the last stop
 covers the stop sequence

---
 .../parsers/station_route_to_interlocking_route.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/timetable/parsers/station_route_to_interlocking_route.cc b/src/timetable/parsers/station_route_to_interlocking_route.cc
index adb5f39..4479f93 100644
--- a/src/timetable/parsers/station_route_to_interlocking_route.cc
+++ b/src/timetable/parsers/station_route_to_interlocking_route.cc
@@ -163,6 +163,20 @@ utls::result<first_ir> get_first_ir(stop_sequence const& stop_sequence,
     ss_cover.stop_sequence_offset_ = current_longest_prefix - 1;
   }
 
+  // the first interlocking route leads beyond the last station route of the
+  // stop sequence, thus, the stop sequence is fully covered
+  auto const last_offset = stop_sequence.points_.size() - 1;
+  auto const sr_count =
+      prefix_ir.station_routes_.size() -
+      utls::find_position(prefix_ir.station_routes_, first_sr->id_);
+  if (ss_cover.stop_sequence_offset_ >= last_offset &&
+      sr_count > stop_sequence.points_.size()) {
+    auto const last_sr =
+        infra->station_routes_[stop_sequence.points_.back().station_route_];
+    ss_cover.stop_sequence_offset_ = last_offset;
+    ss_cover.node_idx_ = last_sr->size();
+  }
+
   if (longest_prefix_routes.size() == 1) {
     return first_ir{.id_ = longest_prefix_routes.front(), .cover_ = ss_cover};
   }
-- 
2.43.0

