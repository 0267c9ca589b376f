From 0f1f09400bfefcdc99ca604e28b391c6a6691b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:54 +0000
Subject: [PATCH 01/15] fix: rect::inflated grows all four sides

---
 src/include/rmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/rmath.h b/src/include/rmath.h
index d90cf17..13cb908 100644
--- a/src/include/rmath.h
+++ b/src/include/rmath.h
@@ -74,7 +74,7 @@ namespace rmath
     num height() const { return max.y - min.y; }
     point_type center() const { return (max + min) / 2; }
 
-    rect inflated(const num& n) const { return rect(min - n, min + n); }
+    rect inflated(const num& n) const { return rect(min - n, max + n); }
 
     static rect from(std::initializer_list<point_type> _Ilist)
     {
-- 
2.43.0


From c05765421b056b9da218672dbf5ffdc5897ea850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:54 +0000
Subject: [PATCH 02/15] fix: do not report the output of earlier runs again

---
 src/src/vatti.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 79188aa..805f076 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -352,6 +352,7 @@ namespace vatti
     cur_locmin_it = local_minima_list.begin();
     ael_first = nullptr;
     obl_first = nullptr;
+    output_list.clear();
   }
 
   void clipper::add_path(const paths& paths, path_type polytype, bool is_open)
-- 
2.43.0


From 90b7d50284ee21d2ff086f5117170ba387c201d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:54 +0000
Subject: [PATCH 03/15] fix: collinear segment intersection never overruns its
 result array

---
 src/src/rmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 3d2ce07..2f46ad2 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -130,7 +130,7 @@ namespace rmath
           res.count++;
         }
 
-        if (p2 != p0 && p2 != p1 && point_between_two_point(p2, p0, p1)) {
+        if (res.count < 2 && p2 != p0 && p2 != p1 && point_between_two_point(p2, p0, p1)) {
           // p2 在 l 内
           auto& data = res.data[res.count];
           data.p = p2;
@@ -139,7 +139,7 @@ namespace rmath
           else data.t0 = (p2 - p0).y / a.y;
           res.count++;
         }
-        if (p3 != p0 && p3 != p1 && point_between_two_point(p3, p0, p1)) {
+        if (res.count < 2 && p3 != p0 && p3 != p1 && point_between_two_point(p3, p0, p1)) {
           // p3 在 l 内
           auto& data = res.data[res.count];
           data.p = p3;
-- 
2.43.0


From d9d13593554d6e469884f30521c90cf698c66ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:54 +0000
Subject: [PATCH 04/15] fix: dist2_point_line measures the distance to the
 infinite line

---
 src/src/rmath.cpp | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 2f46ad2..5c99b48 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -54,23 +54,13 @@ namespace rmath
 
   vec2 operator*(double sc, const vec2& v) { return v * sc; }
   double dist2_point_line(const vec2& p, const vec2& l0, const vec2& l1) {
-    vec2 AC, D;
-    AC = p - l0;
-    vec2 AB = l1 - l0;
-    double f = 0, d = AB.dist2(), res;
-    f = AB.dot(AC);
-    if (f < 0)
-      res = AC.dist2();
-    else if (f > d)
-      res = (p - l1).dist2();
-    else
-    {
-      f = f / d;
-      D = l0 + AB * f;
-      res = (p - D).dist2();
-    }
+    const vec2 AC = p - l0;
+    const vec2 AB = l1 - l0;
+    const double d = AB.dist2();
+    if (d == 0) return AC.dist2();
 
-    return res;
+    const double c = AB.cross(AC);
+    return c * c / d;
   }
 
   // 计算点投影到（有限长）线段的点是否位于线段内
-- 
2.43.0


From ce209683c4b4cf8ffe26b623c95c376dabbcacc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:54 +0000
Subject: [PATCH 05/15] fix: split_y returns its parameters in increasing order

---
 src/src/rmath.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 5c99b48..f6286e4 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -418,6 +418,7 @@ namespace rmath
       k = std::sqrt(k);
       auto r1 = (-b + k) / (2 * a);
       auto r2 = (-b - k) / (2 * a);
+      if (r1 > r2) std::swap(r1, r2);
 
       std::vector<double> res;
       if (0 < r1 && r1 < 1) {
-- 
2.43.0


From 1e6f05d19f95f77c8b559e8db7fb5da0759906f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:54 +0000
Subject: [PATCH 06/15] fix: scan_line releases its segments and scan points

---
 src/src/scan_line.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/src/scan_line.h b/src/src/scan_line.h
index 113b16c..f3be4ab 100644
--- a/src/src/scan_line.h
+++ b/src/src/scan_line.h
@@ -72,6 +72,14 @@ namespace scan_line
       };
     };
 
+    scan_line() = default;
+    scan_line(const scan_line&) = delete;
+    scan_line& operator=(const scan_line&) = delete;
+    ~scan_line() {
+      for (auto p : scan_points) delete p;
+      for (auto s : segments) delete s;
+    }
+
     void add_segment(const segment& in);
     void process(void* user);
 
-- 
2.43.0


From b9fb0397c8e5bc534d278ab6d993ad51f2c6bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:54 +0000
Subject: [PATCH 07/15] fix: processor can not be copied into a second owner of
 its internals

---
 src/include/river.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/river.h b/src/include/river.h
index 35e6efb..bbd9da8 100644
--- a/src/include/river.h
+++ b/src/include/river.h
@@ -77,6 +77,8 @@ namespace river {
     typedef double num;
 
     processor();
+    processor(const processor&) = delete;
+    processor& operator=(const processor&) = delete;
     ~processor();
 
     void add_path(const paths& in, path_type pt);
-- 
2.43.0


From 5e6bdb27094acd2afc085053717efab51aeef5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:54 +0000
Subject: [PATCH 08/15] fix: make_path ignores drawing commands before the
 first move

---
 src/src/river.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/src/river.cpp b/src/src/river.cpp
index b71edd9..d2f8648 100644
--- a/src/src/river.cpp
+++ b/src/src/river.cpp
@@ -34,12 +34,13 @@ namespace river
       path& back() const { return _path->back(); }
 
       void moveto(point const& p) const { _path->push_back(path()); back().moveto(p); }
-      void lineto(const point& p) const { back().lineto(p); }
+      void lineto(const point& p) const { if (!_path->empty()) back().lineto(p); }
       void arcto(arc_pack const& pack) const {
         //back().arcto(fusion::at_c<1>(pack), fusion::at_c<2>(pack));
       }
       void cubicto(cubic_pack const& pack) const {
-        back().cubicto(fusion::at_c<1>(pack), fusion::at_c<2>(pack), fusion::at_c<3>(pack));
+        if (!_path->empty())
+          back().cubicto(fusion::at_c<1>(pack), fusion::at_c<2>(pack), fusion::at_c<3>(pack));
       }
     };
 
-- 
2.43.0


From e777a0507e27c8ab47bec6479aea50c950f142bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:54 +0000
Subject: [PATCH 09/15] fix: a path without a leading move starts at the
 reported start point

---
 src/src/vatti.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 805f076..1826493 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -231,6 +231,7 @@ namespace vatti
 
   void read_lineto(path_lineto_func_para) {
     auto data = (process_path_data*)(user);
+    if (!data->prev) read_moveto(from, from, user);
 
     if (from != to) {
       data->new_cur_vertex();
@@ -250,6 +251,7 @@ namespace vatti
     auto& prev = data->prev;
     auto& cur = data->cur;
     auto& clipper = data->clipper;
+    if (!prev) read_moveto(from, from, user);
 
     bezier_cubic b{from, ctrl1, ctrl2, to};
 
-- 
2.43.0


From 7c93c8a7a99712d7125a377af63b4a0ccb8984a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:17 +0000
Subject: [PATCH 10/15] fix: cubic solver does not divide by a cancelled cube
 root

For y^3 + q = 0 with q > 0 the value -q/2 + sqrt(k) is zero and the single
real root came out as NaN (for example x^3 + 1 = 0).
---
 src/src/rmath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index f6286e4..98fb242 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -781,7 +781,8 @@ namespace rmath
       //此时v1, w1均为实数
       //只有一个实数解则只能是y1 = v1 + w1
       double sqrtk = std::sqrt(k);
-      double v1 = std::cbrt(-q / 2 + sqrtk);
+      // 平方根与 -q/2 取同号，两者不会相互抵消成 0
+      double v1 = std::cbrt(q > 0 ? -q / 2 - sqrtk : -q / 2 + sqrtk);
       double w1 = -p / (3 * v1);
 
       res.count = 1;
-- 
2.43.0


From b1f2fd9afcc8fc97a544aefeb38c6c6e0bf6e972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:07 +0000
Subject: [PATCH 11/15] fix: the second edge of a local minimum is placed by
 its own position

---
 src/src/vatti.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 1826493..c1a2095 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -761,7 +761,8 @@ namespace vatti
       b->curr_x = b->bot.x;
 
       insert_into_ael(a);
-      insert_into_ael(a->prev_in_ael, b);
+      // 底部水平时 b 可能位于 a 左侧很远处，不能从 a 的前一条边开始查找
+      insert_into_ael(b);
       insert_scanline(a->top.y);
       insert_scanline(b->top.y);
     }
-- 
2.43.0


From 9a623a63cd453604fbfaee2315609c3935445641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:13 +0000
Subject: [PATCH 12/15] fix: edges meeting at a point are compared inside their
 common vertical range

---
 src/src/vatti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index c1a2095..56609ed 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1123,7 +1123,7 @@ namespace vatti
     // 同一点排序，以点为原点，9点钟方向，顺时针排序
     // subject 在 clip 前面
 
-    auto min = (std::min)(resident->bot.y, newcomer->bot.y);
+    auto min = (std::max)(resident->bot.y, newcomer->bot.y);
     auto max = (std::min)(resident->top.y, newcomer->top.y);
     auto mid = (min + max) / 2;
 
-- 
2.43.0


From 5a46f98a318d992d80fb3a8bc07565ccb94225d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:11 +0000
Subject: [PATCH 13/15] fix: re-sorting looks up every active edge, whatever
 order they are in

---
 src/src/vatti.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 56609ed..5f41172 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1225,23 +1225,20 @@ namespace vatti
     std::sort(list.begin(), list.end());
     list.erase(std::unique(list.begin(), list.end()), list.end());
 
-    auto it = list.begin();
     auto e = ael_first;
 
     std::vector<edge*> reinsert_list;
-    while (it != list.end() && e) {
-      if (e->curr_x == *it) {
+    while (e) {
+      auto next = e->next_in_ael;
+      // 经过水平线后 ael 中的 curr_x 不一定递增，每条边都要单独查找
+      if (std::binary_search(list.begin(), list.end(), e->curr_x)) {
         reinsert_list.push_back(e);
-        auto next = e->next_in_ael;
         // 重新排列也意味着原来的bound有可能失效
         if (e->bound) e->bound->curr_edge = nullptr;
         e->bound = nullptr;
         take_from_ael(e);
-        e = next;
       }
-      else if (*it < e->curr_x)
-        ++it;
-      else e = e->next_in_ael;
+      e = next;
     }
 
     for (auto e : reinsert_list) insert_into_ael(e);
-- 
2.43.0


From c408a367444e64fefb0e7715b7864510658abaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:39 +0000
Subject: [PATCH 14/15] fix: a new output boundary takes its direction from the
 side of the region it bounds

---
 src/src/vatti.cpp | 17 ++++++++++-------
 src/src/vatti.h   |  2 +-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 5f41172..a56f7a6 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -899,7 +899,7 @@ namespace vatti
         bound_edge[i - 1].is_done = true;
         bound_edge[i - 0].is_done = true;
 
-        new_output(bound_edge[i - 1].edge, bound_edge[i].edge);
+        new_output(bound_edge[i - 1].edge, bound_edge[i].edge, true);
       }
     }
 
@@ -908,18 +908,21 @@ namespace vatti
       out_bound* bound;
       num curr_x;
       size_t obl_index;
+      bool is_left;
     };
 
     // bound_edge 和 obl 剩下的依次按 curr_x, is_up, obl_index, ael, obl原来的顺序排序
 
     std::list<bound_data> sbl;
+    bool is_left = true;
     for (auto& new_b : bound_edge) {
       if (new_b.is_done == false) sbl.push_back({
-          new_b.edge, nullptr, new_b.edge->curr_x, sbl.size() });
+          new_b.edge, nullptr, new_b.edge->curr_x, sbl.size(), is_left });
+      is_left = !is_left;
     }
     auto curr_b = obl_first;
     while (curr_b) {
-      sbl.push_back({ nullptr, curr_b, curr_b->stop_x, sbl.size() });
+      sbl.push_back({ nullptr, curr_b, curr_b->stop_x, sbl.size(), false });
       curr_b = curr_b->next_in_obl;
     }
     sbl.sort(
@@ -953,7 +956,7 @@ namespace vatti
 
         // 只剩下可以按顺序两两相连即可
         next = std::next(it);
-        if (it->edge && next->edge) new_output(it->edge, next->edge);
+        if (it->edge && next->edge) new_output(it->edge, next->edge, it->is_left);
         else if (it->bound && next->bound) join_output(it->bound, next->bound, y);
         else if (it->edge) update_bound(next->bound, it->edge);
         else update_bound(it->bound, next->edge);
@@ -1356,7 +1359,7 @@ namespace vatti
   }
 
   // a、b 的wind_dx必定相反
-  void clipper::new_output(edge* a, edge* b)
+  void clipper::new_output(edge* a, edge* b, bool a_is_left)
   {
     auto output = new_out_polygon();
     output->idx = output_list.size();
@@ -1367,14 +1370,14 @@ namespace vatti
     up->owner = output;
     up->curr_edge = a;
     a->bound = up;
-    up->wind_dx = a->wind_dx;
+    up->wind_dx = a_is_left ? 1 : -1;
     up->stop_x = a->curr_x;
 
     auto down = new_bound();
     down->owner = output;
     down->curr_edge = b;
     b->bound = down;
-    down->wind_dx = b->wind_dx;
+    down->wind_dx = -up->wind_dx;
     down->stop_x = b->curr_x;
 
     if (!up->is_up()) {
diff --git a/src/src/vatti.h b/src/src/vatti.h
index 0d123f5..7475f61 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -188,7 +188,7 @@ namespace vatti
     void resort_ael(num y);
     void build_output(path_traverse_funcs write_func, void* output);
     void join_output(out_bound* a, out_bound* b, num y);
-    void new_output(edge* a, edge* b);
+    void new_output(edge* a, edge* b, bool a_is_left);
     void update_bound(out_bound* bound, edge* new_edge);
     void delete_obl_bound(out_bound*);
     edge* do_maxima(edge* e);
-- 
2.43.0


From 5cfcc250dc7b6259bbcf006a45199cb4cfc383b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:42 +0000
Subject: [PATCH 15/15] fix: a crossing with a level or upright segment lies
 exactly on it

---
 src/src/rmath.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 98fb242..64d190e 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -153,6 +153,9 @@ namespace rmath
     if (in_l && in_r) {
       res.count = 1;
       res.data[0].p = (p0 + a * na);
+      // 交点必须精确落在水平（竖直）线段上
+      if (b.y == 0) res.data[0].p.y = p2.y;
+      if (b.x == 0) res.data[0].p.x = p2.x;
       res.data[0].t0 = na;
       res.data[0].t1 = nb;
     }
@@ -194,6 +197,9 @@ namespace rmath
       if (0 <= t && t <= 1) {
         // ToDo 由于计算精度的问题，这里应该很难算出同一个点，特别实在交点靠近任意一方的端点时
         auto p = curve.point_at(t);
+        // 交点必须精确落在水平（竖直）线段上
+        if (l.y == 0) p.y = segment.p0.y;
+        else if (l.x == 0) p.x = segment.p0.x;
         if (point_between_two_point(p, segment.p0, segment.p1)) {
           auto& data = res.data[res.count];
           data.p = p;
-- 
2.43.0

