From 88df8550b25c9b5c04efb6d7391d8be51279aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 01/25] fix: binomial_coefficient no longer overflows while the
 result fits in 64 bits

Doubling k wrapped for k >= 2^63, and the intermediate product could exceed
64 bits for representable results, e.g., binom(63, 31).
---
 include/fiction/utils/math_utils.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/utils/math_utils.hpp b/include/fiction/utils/math_utils.hpp
index 0a01af6..681e397 100644
--- a/include/fiction/utils/math_utils.hpp
+++ b/include/fiction/utils/math_utils.hpp
@@ -65,14 +65,15 @@ template <std::integral T>
 
     uint64_t result = 1;
 
-    if (2 * k > n)
+    if (k > n - k)
     {
         k = n - k;
     }
 
     for (uint64_t i = 1; i <= k; i++)
     {
-        result = result * (n + 1 - i) / i;
+        // scale quotient and remainder separately such that no intermediate value exceeds the final result
+        result = ((result / i) * (n + 1 - i)) + (((result % i) * (n + 1 - i)) / i);
     }
 
     return result;
-- 
2.43.0


From 0bed4808c2db4fcf9d9a07962eb01eb031b302fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 02/25] fix: parallel annealing instances no longer share the
 random number generator

simulated_annealing kept its generator and distribution in function-local statics, which
multi_simulated_annealing accessed from all of its threads without synchronization.
---
 .../fiction/algorithms/optimization/simulated_annealing.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/optimization/simulated_annealing.hpp b/include/fiction/algorithms/optimization/simulated_annealing.hpp
index bc21ea8..aa0920d 100644
--- a/include/fiction/algorithms/optimization/simulated_annealing.hpp
+++ b/include/fiction/algorithms/optimization/simulated_annealing.hpp
@@ -85,9 +85,9 @@ simulated_annealing(const State& init_state, const double init_temp, const doubl
     assert(std::isfinite(init_temp) && "init_temp must be a finite number");
     assert(std::isfinite(final_temp) && "final_temp must be a finite number");
 
-    static std::mt19937_64 generator{std::random_device{}()};
+    thread_local std::mt19937_64 generator{std::random_device{}()};
 
-    static std::uniform_real_distribution<double> random_functor(0, 1);
+    thread_local std::uniform_real_distribution<double> random_functor(0, 1);
 
     auto current_cost  = cost(init_state);
     auto current_state = init_state;
-- 
2.43.0


From 8dcdc3f61d0dc61e48214d6510c26766371b97a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 03/25] fix: copies of an aspect ratio iterator stay valid and
 operator<= agrees with operator<

A copy kept an iterator into the factors of its source: dereferencing the result of a postfix
increment read freed memory. operator<= was true for any two iterators of the same area.
---
 .../algorithms/iter/aspect_ratio_iterator.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
index 778079b..76b415c 100644
--- a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
+++ b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
@@ -6,6 +6,7 @@
 #define FICTION_ASPECT_RATIO_ITERATOR_HPP
 
 #include <cmath>
+#include <cstddef>
 #include <cstdint>
 #include <iterator>
 #include <vector>
@@ -48,10 +49,10 @@ class aspect_ratio_iterator
      */
     aspect_ratio_iterator& operator++() noexcept
     {
-        ++it;
+        ++pos;
 
         // end of factors: compute next ones
-        if (it == factors.end())
+        if (pos == factors.size())
         {
             next();
         }
@@ -77,7 +78,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] AspectRatio operator*() const
     {
-        return *it;
+        return factors[pos];
     }
 
     [[nodiscard]] bool operator==(const uint64_t m) const noexcept
@@ -87,7 +88,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator==(const aspect_ratio_iterator& other) const
     {
-        return (num == other.num) && (*it == *(other.it));
+        return (num == other.num) && (**this == *other);
     }
 
     [[nodiscard]] bool operator!=(const uint64_t m) const noexcept
@@ -107,7 +108,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<(const aspect_ratio_iterator& other) const
     {
-        return (num < other.num) || (num == other.num && *it < *(other.it));
+        return (num < other.num) || (num == other.num && **this < *other);
     }
 
     [[nodiscard]] bool operator<=(const uint64_t m) const noexcept
@@ -117,7 +118,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<=(const aspect_ratio_iterator& other) const
     {
-        return (num <= other.num) || (num == other.num && *it <= *(other.it));
+        return (num < other.num) || (num == other.num && **this <= *other);
     }
 
   private:
@@ -130,9 +131,9 @@ class aspect_ratio_iterator
      */
     std::vector<AspectRatio> factors;
     /**
-     * Iterator pointing to current factor.
+     * Index of the current factor. An index remains valid when the iterator is copied.
      */
-    typename std::vector<AspectRatio>::iterator it;
+    std::size_t pos{0};
 
     /**
      * Factorizes the current `num` into all possible factors \f$(x, y)\f$ with \f$x \cdot y = num\f$. The result is
@@ -158,7 +159,7 @@ class aspect_ratio_iterator
         }
 
         // let it point to the first element of the sequence
-        it = factors.begin();
+        pos = 0;
     }
     /**
      * Computes the next possible `num` where a factorization \f$(x, y)\f$ with \f$x \cdot y = num\f$ exists.
-- 
2.43.0


From f94ec4048789f519249986bf4ae2f504ed18040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 04/25] fix: find_first_two_of no longer forms a pointer before
 an empty range

With an empty range, last - 1 lies before its begin and the loop ran out of bounds.
---
 include/fiction/utils/stl_utils.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fiction/utils/stl_utils.hpp b/include/fiction/utils/stl_utils.hpp
index 8b94e88..04011af 100644
--- a/include/fiction/utils/stl_utils.hpp
+++ b/include/fiction/utils/stl_utils.hpp
@@ -39,6 +39,12 @@ namespace fiction
 template <std::random_access_iterator InputIt, std::random_access_iterator ForwardIt>
 InputIt find_first_two_of(InputIt first, InputIt last, ForwardIt s_first, ForwardIt s_last) noexcept
 {
+    // a range of fewer than two elements neither contains nor provides a pair
+    if (last - first < 2 || s_last - s_first < 2)
+    {
+        return last;
+    }
+
     for (; first != last - 1; ++first)
     {
         for (ForwardIt it = s_first; it != s_last - 1; ++it)
-- 
2.43.0


From 1084e0fa28a5270da41c44951137cb52438ebe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 05/25] fix: the second decayed and_xor gate computes a
 cofactor of and_xor

---
 include/fiction/technology/technology_mapping_library.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/technology/technology_mapping_library.hpp b/include/fiction/technology/technology_mapping_library.hpp
index 3fe8145..f3632cb 100644
--- a/include/fiction/technology/technology_mapping_library.hpp
+++ b/include/fiction/technology/technology_mapping_library.hpp
@@ -91,7 +91,7 @@ inline constexpr const char* DECAY_MUX = "GATE  d1_mux  1 O=a*b;           PIN *
 
 inline constexpr const char* GATE_AND_XOR  = "GATE  and_xor     1 O=a^(b*c);  PIN * NONINV 1 999 1.0 1.0 1.0 1.0\n";
 inline constexpr const char* DECAY_AND_XOR = "GATE  d1_and_xor  1 O=a*b;      PIN * NONINV 1 999 1.0 1.0 1.0 1.0\n"
-                                             "GATE  d2_and_xor  1 O=!a*b;     PIN * NONINV 1 999 1.0 1.0 1.0 1.0\n"
+                                             "GATE  d2_and_xor  1 O=!(a*b);   PIN * NONINV 1 999 1.0 1.0 1.0 1.0\n"
                                              "GATE  d3_and_xor  1 O=a^b;      PIN * NONINV 1 999 1.0 1.0 1.0 1.0\n";
 
 }  // namespace fiction
-- 
2.43.0


From ad3e5da2d3255f01ca3d56db408f214be001337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 06/25] fix: a clone of a clocked layout no longer shares the
 original's clocking scheme

---
 include/fiction/layouts/clocked_layout.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/layouts/clocked_layout.hpp b/include/fiction/layouts/clocked_layout.hpp
index ff9b406..db3ac13 100644
--- a/include/fiction/layouts/clocked_layout.hpp
+++ b/include/fiction/layouts/clocked_layout.hpp
@@ -113,7 +113,7 @@ class clocked_layout : public CoordinateLayout
     [[nodiscard]] clocked_layout clone() const noexcept
     {
         auto copy = clocked_layout(CoordinateLayout::clone());
-        copy.strg = std::make_shared<clocked_layout_storage>(*strg);
+        copy.strg = std::make_shared<clocked_layout_storage>(*strg->clocking);
 
         return copy;
     }
-- 
2.43.0


From 4d75e65f7257a412f57970448a40b0dea8ece00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 07/25] fix: the number of crossings of a gate-level layout no
 longer depends on the order of placement

---
 include/fiction/layouts/gate_level_layout.hpp | 53 ++++++++++---------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 819d04b..3cd73e9 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -800,24 +800,14 @@ class gate_level_layout : public ClockedLayout
 
             if (!t.is_dead())
             {
+                // decrease crossing count
+                strg->data.num_crossings -= num_crossings_at(t, n);
+
                 // decrease wire count
                 if (is_wire(n))
                 {
                     strg->data.num_wires--;
 
-                    // decrease crossing count
-                    if (ClockedLayout::is_crossing_layer(t) && !is_empty_tile(ClockedLayout::below(t)))
-                    {
-                        strg->data.num_crossings--;
-                    }
-
-                    if (ClockedLayout::is_ground_layer(t) &&
-                        ClockedLayout::is_crossing_layer(ClockedLayout::above(t)) &&
-                        !is_empty_tile(ClockedLayout::above(t)))
-                    {
-                        strg->data.num_crossings--;
-                    }
-
                     // find PO entry and remove it if present
                     if (const auto po_it = std::ranges::find_if(strg->outputs, [this, &n](const auto& p)
                                                                 { return this->get_node(p.index) == n; });
@@ -1761,23 +1751,38 @@ class gate_level_layout : public ClockedLayout
             if (is_wire(n))
             {
                 strg->data.num_wires++;
-
-                if (ClockedLayout::is_crossing_layer(t) && !is_empty_tile(ClockedLayout::below(t)))
-                {
-                    strg->data.num_crossings++;
-                }
-
-                if (ClockedLayout::is_ground_layer(t) && ClockedLayout::is_crossing_layer(ClockedLayout::above(t)) &&
-                    !is_empty_tile(ClockedLayout::above(t)))
-                {
-                    strg->data.num_crossings++;
-                }
             }
             else  // is gate
             {
                 strg->data.num_gates++;
             }
+
+            // keep track of number of crossings
+            strg->data.num_crossings += num_crossings_at(t, n);
+        }
+    }
+
+    // number of crossings that a node `n` on tile `t` is part of, i.e., where `n` and the node directly above or below it
+    // are not both gates
+    [[nodiscard]] uint32_t num_crossings_at(const tile& t, const node n) const noexcept
+    {
+        const auto is_crossing_with = [this, n](const tile& other) noexcept
+        { return !is_empty_tile(other) && (is_wire(n) || is_wire_tile(other)); };
+
+        uint32_t crossings{0};
+
+        if (ClockedLayout::is_crossing_layer(t) && is_crossing_with(ClockedLayout::below(t)))
+        {
+            ++crossings;
+        }
+
+        if (ClockedLayout::is_ground_layer(t) && ClockedLayout::is_crossing_layer(ClockedLayout::above(t)) &&
+            is_crossing_with(ClockedLayout::above(t)))
+        {
+            ++crossings;
         }
+
+        return crossings;
     }
 
     void kill_node(const node n)
-- 
2.43.0


From 6adb0e39e7e8121c5e41e92d0999216c4e32b01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 08/25] fix: a primary output that overwrites a wire of a
 gate-level layout is no longer lost

---
 include/fiction/layouts/gate_level_layout.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 3cd73e9..00edae7 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -272,9 +272,9 @@ class gate_level_layout : public ClockedLayout
         const auto n = static_cast<node>(strg->nodes.size());
         strg->nodes.emplace_back();     // empty node data
         strg->nodes[n].data[1].h1 = 2;  // assign identity function
+        assign_node(t, n);  // before t is marked as a PO because a wire that is being overwritten loses its PO mark
         strg->outputs.emplace_back(static_cast<signal>(t));
         strg->data.node_names[n] = name.empty() ? fmt::format("po{}", num_pos()) : name;
-        assign_node(t, n);
 
         /* increase ref-count to child */
         strg->nodes[get_node(s)].data[0].h1++;
@@ -745,6 +745,8 @@ class gate_level_layout : public ClockedLayout
         {
             if (!t.is_dead())
             {
+                // clear t first because a wire that is being overwritten loses its PO mark
+                clear_tile(t);
                 // if n lived on a tile that was marked as PO, update it with the new tile t
                 std::ranges::replace(strg->outputs, static_cast<signal>(old_t), static_cast<signal>(t));
             }
-- 
2.43.0


From cc61274971bdb443759befbead1b958516b6aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:31 +0000
Subject: [PATCH 09/25] fix: moving a node of a gate-level layout no longer
 marks other nodes dead

---
 include/fiction/layouts/gate_level_layout.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 00edae7..806270b 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -736,7 +736,7 @@ class gate_level_layout : public ClockedLayout
         // n's children
         auto& children = strg->nodes[n].children;
         // decrease ref-count of children
-        std::ranges::for_each(children, [this](const auto& c) { strg->nodes[get_node(c.index)].data[0].h1--; });
+        std::ranges::for_each(children, [this](const auto& c) { decr_fanout_count(get_node(c.index)); });
         // clear n's children
         children.clear();
 
@@ -779,6 +779,8 @@ class gate_level_layout : public ClockedLayout
     {
         if (!is_constant(n))
         {
+            /* increase ref-count to child */
+            strg->nodes[get_node(s)].data[0].h1++;
             strg->nodes[n].children.push_back(s);
         }
 
@@ -1787,6 +1789,16 @@ class gate_level_layout : public ClockedLayout
         return crossings;
     }
 
+    // decreases the internal fan-out size of `n`; a tile's current node might not have been counted when it replaced the
+    // node that was originally connected to, so make sure not to flip the MSB that indicates dead nodes
+    void decr_fanout_count(const node n) noexcept
+    {
+        if ((strg->nodes[n].data[0].h1 & UINT32_C(0x7FFFFFFF)) != 0u)
+        {
+            strg->nodes[n].data[0].h1--;
+        }
+    }
+
     void kill_node(const node n)
     {
         if (!is_constant(n))
-- 
2.43.0


From b69f233cced1f47a563f7902483fa20c2fa22ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 10/25] fix: a gate-level layout made from a clocked layout
 knows its constant and elementary functions

---
 include/fiction/layouts/gate_level_layout.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 806270b..ed5de45 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -220,6 +220,8 @@ class gate_level_layout : public ClockedLayout
             evnts{std::make_shared<typename event_storage::element_type>()}
     {
         static_assert(is_clocked_layout_v<ClockedLayout>, "ClockedLayout is not a clocked layout type");
+
+        initialize_truth_table_cache();
     }
     /**
      * Clones the layout returning a deep copy.
-- 
2.43.0


From 49cbc402e497d59a46a2d9a856e26b91a4223593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 11/25] fix: simulating a gate of a gate-level layout with
 Boolean values compiles and agrees with its truth table

---
 include/fiction/layouts/gate_level_layout.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index ed5de45..a6365f5 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -1272,13 +1272,12 @@ class gate_level_layout : public ClockedLayout
     mockturtle::iterates_over_t<Iterator, bool> compute(const node n, Iterator begin, Iterator end) const
     {
         uint32_t index{0};
-        while (begin != end)
+        for (uint32_t i = 0u; begin != end; ++i)
         {
-            index <<= 1u;
-            index ^= *begin++ ? 1 : 0;
+            index |= static_cast<uint32_t>(*begin++ ? 1u : 0u) << i;
         }
 
-        return kitty::get_bit(strg->data.cache[strg->nodes[n].data[1].h1], index);
+        return kitty::get_bit(strg->data.fn_cache[strg->nodes[n].data[1].h1], index);
     }
 
     template <typename Iterator>
-- 
2.43.0


From 4512407141e58c5d29f24f930639fa36694b0352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:33 +0000
Subject: [PATCH 12/25] fix: the distance map of a layout with several layers
 is no longer written out of bounds

---
 include/fiction/algorithms/path_finding/distance_map.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/distance_map.hpp b/include/fiction/algorithms/path_finding/distance_map.hpp
index 563acb4..2d9ff55 100644
--- a/include/fiction/algorithms/path_finding/distance_map.hpp
+++ b/include/fiction/algorithms/path_finding/distance_map.hpp
@@ -59,12 +59,12 @@ template <typename Lyt, typename Dist>
     // initialize distance map
     distance_map<Dist> dist_map(lyt.area(), std::vector<Dist>(lyt.area(), Dist{}));
 
-    // compute distances and store them via coordinate index
-    lyt.foreach_coordinate(
+    // compute distances and store them via coordinate index (which ignores the layer)
+    lyt.foreach_ground_coordinate(
         [&lyt, &dist_fn, &dist_map](const auto& c1, const unsigned src)
         {
-            lyt.foreach_coordinate([&lyt, &dist_fn, &dist_map, &c1, src](const auto& c2, const unsigned tgt)
-                                   { dist_map[src][tgt] = dist_fn(lyt, c1, c2); });
+            lyt.foreach_ground_coordinate([&lyt, &dist_fn, &dist_map, &c1, src](const auto& c2, const unsigned tgt)
+                                          { dist_map[src][tgt] = dist_fn(lyt, c1, c2); });
         });
 
     return dist_map;
-- 
2.43.0


From 87e730038df7e15f0d2171003cdccb3cdde6141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 13/25] fix: a random coordinate lies in the box its corners
 span, whatever corners are given

---
 include/fiction/utils/layout_utils.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/fiction/utils/layout_utils.hpp b/include/fiction/utils/layout_utils.hpp
index f79da4b..9cb0bb9 100644
--- a/include/fiction/utils/layout_utils.hpp
+++ b/include/fiction/utils/layout_utils.hpp
@@ -595,7 +595,8 @@ CoordinateType random_coordinate(CoordinateType coordinate1, CoordinateType coor
 
     if constexpr (is_siqad_coord_v<CoordinateType>)
     {
-        std::uniform_int_distribution<> dist_x(coordinate1.x, coordinate2.x);
+        std::uniform_int_distribution<> dist_x(std::min<int>(coordinate1.x, coordinate2.x),
+                                               std::max<int>(coordinate1.x, coordinate2.x));
         std::uniform_int_distribution<> dist_y(coordinate1.y, coordinate2.y);
         std::uniform_int_distribution<> dist_z(0, 1);
 
@@ -604,9 +605,12 @@ CoordinateType random_coordinate(CoordinateType coordinate1, CoordinateType coor
     }
     else
     {
-        std::uniform_int_distribution<> dist_x(coordinate1.x, coordinate2.x);
-        std::uniform_int_distribution<> dist_y(coordinate1.y, coordinate2.y);
-        std::uniform_int_distribution<> dist_z(coordinate1.z, coordinate2.z);
+        std::uniform_int_distribution<> dist_x(std::min<int>(coordinate1.x, coordinate2.x),
+                                               std::max<int>(coordinate1.x, coordinate2.x));
+        std::uniform_int_distribution<> dist_y(std::min<int>(coordinate1.y, coordinate2.y),
+                                               std::max<int>(coordinate1.y, coordinate2.y));
+        std::uniform_int_distribution<> dist_z(std::min<int>(coordinate1.z, coordinate2.z),
+                                               std::max<int>(coordinate1.z, coordinate2.z));
 
         return {dist_x(generator), dist_y(generator), dist_z(generator)};
     }
-- 
2.43.0


From 537ed21af364a1662c52ea5a6324881a86c15176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 14/25] fix: a defect that is moved onto another defect or its
 own position is no longer lost

---
 include/fiction/technology/sidb_defect_surface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/technology/sidb_defect_surface.hpp b/include/fiction/technology/sidb_defect_surface.hpp
index 1840cfe..24139ca 100644
--- a/include/fiction/technology/sidb_defect_surface.hpp
+++ b/include/fiction/technology/sidb_defect_surface.hpp
@@ -154,10 +154,10 @@ class sidb_defect_surface<Lyt, false> : public Lyt
     {
         if (const auto defect = get_sidb_defect(source); defect.type != sidb_defect_type::NONE)
         {
-            strg->defective_coordinates.insert({target, defect});
-
             // delete defect at the old coordinate
             strg->defective_coordinates.erase(source);
+
+            assign_sidb_defect(target, defect);
         }
     }
     /**
-- 
2.43.0


From 722b4574a9b70fe6bc471bd37a7762243370c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 15/25] fix: normalizing a cell-level layout keeps the layers
 of its cells

---
 include/fiction/utils/layout_utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fiction/utils/layout_utils.hpp b/include/fiction/utils/layout_utils.hpp
index 9cb0bb9..b32656a 100644
--- a/include/fiction/utils/layout_utils.hpp
+++ b/include/fiction/utils/layout_utils.hpp
@@ -291,9 +291,9 @@ Lyt normalize_layout_coordinates(const Lyt& lyt) noexcept
     lyt.foreach_cell(
         [&lyt_new, &lyt, &x_offset, &y_offset](const auto& c)
         {
-            lyt_new.assign_cell_type({c.x - x_offset, c.y - y_offset}, lyt.get_cell_type(c));
-            lyt_new.assign_cell_mode({c.x - x_offset, c.y - y_offset}, lyt.get_cell_mode(c));
-            lyt_new.assign_cell_name({c.x - x_offset, c.y - y_offset}, lyt.get_cell_name(c));
+            lyt_new.assign_cell_type({c.x - x_offset, c.y - y_offset, c.z}, lyt.get_cell_type(c));
+            lyt_new.assign_cell_mode({c.x - x_offset, c.y - y_offset, c.z}, lyt.get_cell_mode(c));
+            lyt_new.assign_cell_name({c.x - x_offset, c.y - y_offset, c.z}, lyt.get_cell_name(c));
         });
 
     return lyt_new;
-- 
2.43.0


From 445f0edfac966e1b39ee54b445361b5757a8912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 16/25] fix: the bounding box of a SiQAD layout with defects is
 the smallest one that encloses all of them

---
 include/fiction/layouts/bounding_box.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/layouts/bounding_box.hpp b/include/fiction/layouts/bounding_box.hpp
index ae0d22b..75cbe67 100644
--- a/include/fiction/layouts/bounding_box.hpp
+++ b/include/fiction/layouts/bounding_box.hpp
@@ -116,8 +116,8 @@ class bounding_box_2d
                                            { update_min_max(min_defect, max_defect, defect.first); });
 
                 // Adjust min and max based on defects
-                min = {std::min(min.x, min_defect.x), std::min(min.y, min_defect.y), std::min(min.z, min_defect.z)};
-                max = {std::max(max.x, max_defect.x), std::max(max.y, max_defect.y), std::max(max.z, max_defect.z)};
+                min = min_defect;
+                max = max_defect;
             }
         }
         else
-- 
2.43.0


From c3ef2cf9cac3c466a2d6871ef0d1f3e906faa5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 17/25] fix: assigning a charge distribution surface also
 assigns the layout it is based on

---
 include/fiction/technology/charge_distribution_surface.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 0b537d6..fdc74a5 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -403,6 +403,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
     {
         if (this != &other)
         {
+            Lyt::operator=(other);
             strg = std::make_shared<charge_distribution_storage>(*other.strg);
         }
 
-- 
2.43.0


From 722a58d9159f4a30ee1d3218d27b6f2bf9e5da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:32 +0000
Subject: [PATCH 18/25] fix: the energy change of a hop between SiDBs weighs
 internal and external potentials as the energy does

---
 include/fiction/technology/charge_distribution_surface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index fdc74a5..1e70587 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -1274,7 +1274,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
             [this](const uint64_t c1, const uint64_t c2)  // energy change when charge hops between two SiDBs.
         {
             return strg->local_ext_pot[c1] - strg->local_ext_pot[c2] +
-                   (0.5 * (strg->local_int_pot[c1] - strg->local_int_pot[c2] - strg->pot_mat[c1][c2]));
+                   (strg->local_int_pot[c1] - strg->local_int_pot[c2] - strg->pot_mat[c1][c2]);
         };
 
         for (uint64_t i = 0u; i < strg->sidb_order.size(); ++i)
-- 
2.43.0


From 8e7b4aadd584f1ad8da68989f54d552ea7c2cf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:28 +0000
Subject: [PATCH 19/25] fix: local external potentials at positions without an
 SiDB are not written out of bounds

---
 include/fiction/technology/charge_distribution_surface.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 1e70587..1d7d4e5 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -988,8 +988,11 @@ class charge_distribution_surface<Lyt, false> : public Lyt
         {
             if (strg->defects.find(c) == strg->defects.cend())
             {
-                // c is an SiDB
-                strg->local_ext_pot[static_cast<uint64_t>(cell_to_index(c))] = external_pot;
+                // c is an SiDB; a potential at a position without an SiDB has no effect
+                if (const auto index = cell_to_index(c); index >= 0)
+                {
+                    strg->local_ext_pot[static_cast<uint64_t>(index)] = external_pot;
+                }
             }
             else
             {
-- 
2.43.0


From 25991eb4a5a40efc7bcecba770a2ef3fdb6f5509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:44 +0000
Subject: [PATCH 20/25] fix: QuickExact's energies and validity reflect
 external potentials also where no charge state is changed

---
 include/fiction/algorithms/simulation/sidb/quickexact.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/algorithms/simulation/sidb/quickexact.hpp b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
index 5b6f562..fa98abb 100644
--- a/include/fiction/algorithms/simulation/sidb/quickexact.hpp
+++ b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
@@ -491,6 +491,8 @@ class quickexact_impl
 
         charge_lyt.assign_local_external_potential(params.local_external_potential);
         charge_lyt.assign_global_external_potential(params.global_potential);
+        // energy and validity have to reflect the external potentials
+        charge_lyt.update_after_charge_change();
 
         preassigned_negative_sidb_indices = charge_lyt.negative_sidb_detection();
         preassigned_negative_sidbs.reserve(preassigned_negative_sidb_indices.size());
-- 
2.43.0


From 2fde619226eba14e888eda7b1f6523540e55043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:57 +0000
Subject: [PATCH 21/25] fix: threads of QuickSim do not share one random number
 generator without synchronization

---
 include/fiction/technology/charge_distribution_surface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 1d7d4e5..7b731e3 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -1601,7 +1601,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
             return;
         }
 
-        static std::mt19937_64                  generator(std::random_device{}());
+        static thread_local std::mt19937_64     generator(std::random_device{}());
         std::uniform_int_distribution<uint64_t> dist(0, candidates.size() - 1);
         const auto                              random_element = index_vector[candidates[dist(generator)]];
         strg->cell_charge[random_element]                      = sidb_charge_state::NEGATIVE;
-- 
2.43.0


From bb2d373f2c32aab3adbe83e29d7f047ea83d9835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:46 +0000
Subject: [PATCH 22/25] fix: A* restores the heap after lowering the f-value of
 a coordinate in the open list

---
 include/fiction/algorithms/path_finding/a_star.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fiction/algorithms/path_finding/a_star.hpp b/include/fiction/algorithms/path_finding/a_star.hpp
index 8080766..ce9a601 100644
--- a/include/fiction/algorithms/path_finding/a_star.hpp
+++ b/include/fiction/algorithms/path_finding/a_star.hpp
@@ -18,6 +18,7 @@
 #include <concepts>
 #include <cstdint>
 #include <functional>
+#include <iterator>
 #include <limits>
 #include <type_traits>
 #include <vector>
@@ -262,6 +263,8 @@ class a_star_impl
             {
                 // update its f-value
                 it->f = f;
+                // the f-value has decreased, move the element up to restore the heap property
+                std::push_heap(open_list.begin(), std::next(it), std::greater<coordinate_f>{});
             }
             else
             {
-- 
2.43.0


From db6ac3768545961463dd27f183d84e622d2003aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:46 +0000
Subject: [PATCH 23/25] fix: clear_routing keeps fan-outs whose successors come
 first

---
 include/fiction/utils/routing_utils.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/fiction/utils/routing_utils.hpp b/include/fiction/utils/routing_utils.hpp
index 598269d..b19dbdd 100644
--- a/include/fiction/utils/routing_utils.hpp
+++ b/include/fiction/utils/routing_utils.hpp
@@ -288,8 +288,15 @@ void clear_routing(Lyt& lyt) noexcept
     static_assert(has_is_fanout_v<Lyt>, "Lyt does not implement the is_fanout function");
     static_assert(mockturtle::has_foreach_node_v<Lyt>, "Lyt does not implement the foreach_node function");
 
+    // determine all wires that are not fan-outs or primary I/Os beforehand because fan-outs lose their successors, and
+    // thereby cannot be identified as such anymore, while the routing is being removed
+    std::vector<bool> is_routing_wire(lyt.size(), false);
+
+    lyt.foreach_node([&lyt, &is_routing_wire](const auto& g)
+                     { is_routing_wire[g] = lyt.is_buf(g) && !lyt.is_fanout(g) && !lyt.is_pi(g) && !lyt.is_po(g); });
+
     lyt.foreach_node(
-        [&lyt](const auto& g)
+        [&lyt, &is_routing_wire](const auto& g)
         {
             // skip constants
             if (lyt.is_constant(g))
@@ -299,8 +306,7 @@ void clear_routing(Lyt& lyt) noexcept
 
             const auto t = lyt.get_tile(g);
 
-            if (lyt.is_buf(g) && !lyt.is_fanout(g) && !lyt.is_pi(g) &&
-                !lyt.is_po(g))  // remove all wires that are not fan-outs or primary I/Os
+            if (is_routing_wire[g])  // remove all wires that are not fan-outs or primary I/Os
             {
                 lyt.clear_tile(t);
             }
-- 
2.43.0


From 268305369b9f3582c58e8e2d910717d086998a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:46 +0000
Subject: [PATCH 24/25] fix: k shortest paths compare root paths including the
 spur

---
 include/fiction/algorithms/path_finding/k_shortest_paths.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
index c1385ea..17215e8 100644
--- a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
+++ b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
@@ -90,10 +90,11 @@ class yen_k_shortest_paths_impl
                 // for all previous paths
                 for (const auto& p : k_shortest_paths)
                 {
-                    // if the root path is equal to a previous partial path
+                    // if the root path including the spur is equal to a previous partial path
                     // p[i] and p[i + 1] are accessed below, so p must hold at least i + 2 coordinates
                     if (p.size() > static_cast<std::size_t>(i) + 1 &&
-                        std::ranges::equal(root_path.cbegin(), root_path.cend(), p.cbegin(), p.cbegin() + i))
+                        std::ranges::equal(root_path.cbegin(), root_path.cend(), p.cbegin(), p.cbegin() + i) &&
+                        p[i] == spur)
                     {
                         // block the connection that was already used in the previous shortest path
                         layout.obstruct_connection(p[i], p[i + 1]);
-- 
2.43.0


From 8c807d6972b2e6ff0fc4fa706d059590b7b4fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:46 +0000
Subject: [PATCH 25/25] fix: k shortest paths leave obstructions of the given
 layout in place

---
 include/fiction/algorithms/path_finding/k_shortest_paths.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
index 17215e8..831a547 100644
--- a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
+++ b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
@@ -106,8 +106,8 @@ class yen_k_shortest_paths_impl
                 // for all coordinates in the root path...
                 for (const auto& root : root_path)
                 {
-                    // ... that are not the spur
-                    if (root != spur)
+                    // ... that are neither the spur nor obstructed already
+                    if (root != spur && !layout.is_obstructed_coordinate(root))
                     {
                         // block them from further exploration
                         layout.obstruct_coordinate(root);
-- 
2.43.0

