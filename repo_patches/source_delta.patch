From e378e9097a3f9882240c594dff98b1c797d4d66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 01/54] fix: flat_segment_tree: make the free swap() function
 compile

Its exception specification asked whether the type is swappable, which
resolves to the very function being declared.
---
 include/mdds/flat_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index 88c8910..d4635d8 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -799,7 +799,7 @@ private:
 
 template<typename Key, typename Value>
 void swap(flat_segment_tree<Key, Value>& left, flat_segment_tree<Key, Value>& right) noexcept(
-    std::is_nothrow_swappable_v<flat_segment_tree<Key, Value>>)
+    noexcept(left.swap(right)))
 {
     left.swap(right);
 }
-- 
2.43.0


From 8388c64c734dd1e519ccb3757da3f289a6ea6056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 02/54] fix: flat_segment_tree: ignore a segment that ends at
 the minimum key

Such a segment does not overlap the tree; inserting it destroyed the
leaf nodes or dereferenced a null pointer.
---
 include/mdds/flat_segment_tree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 9c63927..c3df0f3 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -841,7 +841,7 @@ bool flat_segment_tree<Key, Value>::adjust_segment_range(key_type& start_key, ke
         // Invalid order of segment range.
         return false;
 
-    if (end_key < m_left_leaf->key || m_right_leaf->key <= start_key)
+    if (end_key <= m_left_leaf->key || m_right_leaf->key <= start_key)
         // The new segment does not overlap the current interval.
         return false;
 
-- 
2.43.0


From 233946d7816d4bc004ca8e922208370d112570cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 03/54] fix: flat_segment_tree: search(pos, key) must fall back
 on invalid position

The documented fall-back to a search from the first position was
missing from the overload that returns an iterator.
---
 include/mdds/flat_segment_tree_def.inl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index c3df0f3..86f9a55 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -599,7 +599,12 @@ template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_iterator flat_segment_tree<Key, Value>::search(
     const_iterator pos, key_type key) const
 {
-    return search_by_key_impl(pos.get_pos(), key);
+    const node* p = pos.get_pos();
+    if (!p || this != pos.get_parent() || key < p->key)
+        // The position is not usable.  Search from the first position.
+        p = m_left_leaf.get();
+
+    return search_by_key_impl(p, key);
 }
 
 template<typename Key, typename Value>
-- 
2.43.0


From ab1bc1c78ff600569e06295cc33107ce08380f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 04/54] fix: flat_segment_tree: combine equal segments at the
 end after shift_left

Removing a segment that reaches the end of the tree could leave two
consecutive segments with the initial value.
---
 include/mdds/flat_segment_tree.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index d4635d8..94f99cf 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -687,7 +687,17 @@ private:
     {
         if (m_right_leaf->prev->key == start_key)
         {
-            m_right_leaf->prev->value_leaf.value = m_init_val;
+            node_ptr last_node = m_right_leaf->prev;
+            last_node->value_leaf.value = m_init_val;
+
+            if (last_node->prev && last_node->prev->value_leaf.value == m_init_val)
+            {
+                // The preceding segment has the same value. Combine them.
+                last_node->prev->next = m_right_leaf;
+                m_right_leaf->prev = last_node->prev;
+                disconnect_all_nodes(last_node.get());
+                m_valid_tree = false;
+            }
             return;
         }
 
-- 
2.43.0


From 91b91d95518e78ffe2abd0fc78b371655a4f6934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 05/54] fix: flat_segment_tree: shift_right must not overflow
 the key type

A node that gets shifted past the end of the tree had its key
incremented before the comparison.  When the key wrapped around, the
node stayed in the tree out of order.
---
 include/mdds/flat_segment_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index 94f99cf..575ad9a 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -761,9 +761,9 @@ private:
         key_type end_node_key = end_node->key;
         while (cur_node.get() != end_node.get())
         {
-            cur_node->key += shift_value;
-            if (cur_node->key < end_node_key)
+            if (shift_value < end_node_key - cur_node->key)
             {
+                cur_node->key += shift_value;
                 // The node is still in-bound.  Keep shifting.
                 cur_node = cur_node->next;
                 continue;
-- 
2.43.0


From b79e0110eb40e38f42507276ee6adb08c907ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 06/54] fix: segment_tree: operator== must count duplicate
 segments

Two trees that store the same distinct segments with different
multiplicities compared equal as long as the totals matched.
---
 include/mdds/segment_tree_def.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index f3f24da..efc26fe 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -294,23 +294,23 @@ bool segment_tree<KeyT, ValueT>::operator==(const segment_tree& r) const
         rhs.insert(&seg);
     }
 
-    std::size_t n_lhs = 0;
-
     for (const segment_type& seg : m_segment_store)
     {
         if (seg == segment_type{})
             continue;
 
-        ++n_lhs;
         const auto* src = &seg;
 
         auto it = std::find_if(rhs.begin(), rhs.end(), [src](const segment_type* p) { return *src == *p; });
 
         if (it == rhs.end())
             return false;
+
+        // Each segment can only be matched once.
+        rhs.erase(it);
     }
 
-    return n_lhs == rhs.size();
+    return rhs.empty();
 }
 
 template<typename KeyT, typename ValueT>
-- 
2.43.0


From 272bb6170d41253507470708f1edb1da60dcd76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 07/54] fix: point_quad_tree: remove() must not lose or
 misplace other points

Removing a non-leaf node overwrote the parent of the removed node, left
the replacement node linked from its old position, dropped a whole
sub-tree when the replacement was not an immediate child, and did not
relocate the points that share a coordinate with the replacement.
Re-insert the sub-trees of the removed node instead.
---
 include/mdds/point_quad_tree.hpp | 408 +++----------------------------
 1 file changed, 34 insertions(+), 374 deletions(-)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 83e8443..47d9791 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -122,7 +122,6 @@ private:
         }
     };
 
-    typedef ::std::vector<node_ptr> reinsert_tree_array_type;
     typedef ::std::pair<key_type, key_type> key_range_type;
 
 public:
@@ -564,38 +563,10 @@ private:
         point_quad_tree& m_db;
     };
 
-    struct node_distance
-    {
-        node_quadrant_t quad;
-        key_type dist;
-        node_ptr node;
-
-        node_distance() : quad(quad_unspecified), dist(0), node(nullptr)
-        {}
-        node_distance(node_quadrant_t _quad, key_type _dist, const node_ptr& _node)
-            : quad(_quad), dist(_dist), node(_node)
-        {}
-    };
-
     node_ptr find_node(key_type x, key_type y) const;
     const node* find_node_ptr(key_type x, key_type y) const;
-    node_ptr find_replacement_node(key_type x, key_type y, const node_ptr& delete_node) const;
-
-    void find_candidate_in_quad(
-        key_type x, key_type y, node_distance& dx_node, node_distance& dy_node, node_distance& min_city_block_node,
-        const node_ptr& delete_node, node_quadrant_t quad) const;
-
-    void adjust_quad(
-        const key_range_type& hatched_xrange, const key_range_type& hatched_yrange, node_ptr quad_root, direction_t dir,
-        reinsert_tree_array_type& insert_list);
-
-    void set_new_root(
-        const key_range_type& hatched_xrange, const key_range_type& hatched_yrange, node_ptr& quad_root,
-        node_quadrant_t dir, reinsert_tree_array_type& insert_list);
-
     void insert_node(node_ptr& dest, node_ptr& node);
     void reinsert_tree(node_ptr& dest, node_ptr& root);
-    void reinsert_tree(node_ptr& dest, node_quadrant_t quad, node_ptr& root);
     void clear_all_nodes();
     void dump_node_svg(const node* p, ::std::ofstream& file) const;
     void count_all_nodes(const node* p, size_t& node_count) const;
@@ -760,116 +731,45 @@ void point_quad_tree<Key, Value>::remove(key_type x, key_type y)
         return;
     }
 
-    node_ptr repl_node = find_replacement_node(x, y, delete_node);
-    if (!repl_node)
-        // Non-leaf node should have at least one replacement candidate.
-        throw general_error("failed to find a replacement candidate node.");
-
-    node_quadrant_t repl_quad = delete_node->get_quadrant(repl_node->x, repl_node->y);
-
-    key_range_type xrange(delete_node->x, repl_node->x);
-    key_range_type yrange(delete_node->y, repl_node->y);
-    ensure_order(xrange);
-    ensure_order(yrange);
-    reinsert_tree_array_type insert_list;
-
-    // Call the quadrant where the replacement node is quadrant I.  Adjust the
-    // quadrants adjacent to quadrant I first, then adjust quadrant I
-    // afterwards.
-    switch (repl_quad)
+    // Take the sub-trees of the node to be removed.
+    node_ptr subtrees[] = {
+        delete_node->northeast, delete_node->northwest, delete_node->southeast, delete_node->southwest};
+    delete_node->northeast.reset();
+    delete_node->northwest.reset();
+    delete_node->southeast.reset();
+    delete_node->southwest.reset();
+
+    // Let the root of one of the sub-trees replace the removed node, and
+    // re-insert the nodes of the other sub-trees into it.  All of them are in
+    // the same quadrant of the parent of the removed node.
+    node_ptr repl_node;
+    for (node_ptr& subtree : subtrees)
     {
-        case quad_northeast:
-            adjust_quad(xrange, yrange, delete_node->northwest, dir_south, insert_list);
-            adjust_quad(xrange, yrange, delete_node->southeast, dir_west, insert_list);
-            set_new_root(xrange, yrange, delete_node->northeast, quad_southwest, insert_list);
-            break;
-        case quad_northwest:
-            adjust_quad(xrange, yrange, delete_node->northeast, dir_south, insert_list);
-            adjust_quad(xrange, yrange, delete_node->southwest, dir_east, insert_list);
-            set_new_root(xrange, yrange, delete_node->northwest, quad_southeast, insert_list);
-            break;
-        case quad_southeast:
-            adjust_quad(xrange, yrange, delete_node->northeast, dir_west, insert_list);
-            adjust_quad(xrange, yrange, delete_node->southwest, dir_north, insert_list);
-            set_new_root(xrange, yrange, delete_node->southeast, quad_northwest, insert_list);
-            break;
-        case quad_southwest:
-            adjust_quad(xrange, yrange, delete_node->northwest, dir_east, insert_list);
-            adjust_quad(xrange, yrange, delete_node->southeast, dir_north, insert_list);
-            set_new_root(xrange, yrange, delete_node->southwest, quad_northeast, insert_list);
-            break;
-        default:
-            throw general_error("quadrant for the replacement node is unspecified.");
-    }
+        if (!subtree)
+            continue;
 
-    // Reinsert all child nodes from the replacement node into the node to be
-    // "deleted".
-    switch (repl_quad)
-    {
-        case quad_northeast:
-        case quad_southwest:
-        {
-            node_ptr root = repl_node->northwest;
-            repl_node->northwest.reset();
-            reinsert_tree(delete_node, quad_northwest, root);
+        subtree->parent.reset();
 
-            root = repl_node->southeast;
-            repl_node->southeast.reset();
-            reinsert_tree(delete_node, quad_southeast, root);
-        }
-        break;
-        case quad_northwest:
-        case quad_southeast:
-        {
-            node_ptr root = repl_node->northeast;
-            repl_node->northeast.reset();
-            reinsert_tree(delete_node, quad_northeast, root);
-
-            root = repl_node->southwest;
-            repl_node->southwest.reset();
-            reinsert_tree(delete_node, quad_southwest, root);
-        }
-        break;
-        default:
-            throw general_error("quadrant for the replacement node is unspecified.");
-    }
-
-    // Finally, replace the node to be removed with the replacement node.
-    delete_node->x = repl_node->x;
-    delete_node->y = repl_node->y;
-    delete_node->data = repl_node->data;
-
-    // Reset the parent node.
-    delete_node->parent = repl_node->parent;
-    repl_node->parent.reset();
-
-    switch (repl_quad)
-    {
-        case quad_northeast:
-            delete_node->northeast = repl_node->northeast;
-            repl_node->northeast.reset();
-            break;
-        case quad_northwest:
-            delete_node->northwest = repl_node->northwest;
-            repl_node->northwest.reset();
-            break;
-        case quad_southeast:
-            delete_node->southeast = repl_node->southeast;
-            repl_node->southeast.reset();
-            break;
-        case quad_southwest:
-            delete_node->southwest = repl_node->southwest;
-            repl_node->southwest.reset();
-            break;
-        default:
-            throw general_error("quadrant for the replacement node is unspecified.");
+        if (repl_node)
+            reinsert_tree(repl_node, subtree);
+        else
+            repl_node = subtree;
     }
 
-    // Lastly, re-insert all those trees that have been cut during the quad
-    // adjustment into the new root.
-    typename reinsert_tree_array_type::iterator itr = insert_list.begin(), itr_end = insert_list.end();
-    for (; itr != itr_end; ++itr)
-        reinsert_tree(delete_node, *itr);
+    node_ptr parent = delete_node->parent;
+    delete_node->parent.reset();
+    repl_node->parent = parent;
+
+    if (!parent)
+        m_root = repl_node;
+    else if (parent->northeast == delete_node)
+        parent->northeast = repl_node;
+    else if (parent->northwest == delete_node)
+        parent->northwest = repl_node;
+    else if (parent->southeast == delete_node)
+        parent->southeast = repl_node;
+    else
+        parent->southwest = repl_node;
 }
 
 template<typename Key, typename Value>
@@ -1187,196 +1087,6 @@ const typename point_quad_tree<Key, Value>::node* point_quad_tree<Key, Value>::f
     return nullptr;
 }
 
-template<typename Key, typename Value>
-typename point_quad_tree<Key, Value>::node_ptr point_quad_tree<Key, Value>::find_replacement_node(
-    key_type x, key_type y, const node_ptr& delete_node) const
-{
-    using namespace std;
-
-    // Try to get a replacement candidate in each quadrant.
-    node_distance dx_node, dy_node, min_city_block_node;
-
-#if DEBUG_POINT_QUAD_TREE
-    cout << "northeast" << endl;
-#endif
-    find_candidate_in_quad(x, y, dx_node, dy_node, min_city_block_node, delete_node, quad_northeast);
-
-#if DEBUG_POINT_QUAD_TREE
-    cout << "northwest" << endl;
-#endif
-    find_candidate_in_quad(x, y, dx_node, dy_node, min_city_block_node, delete_node, quad_northwest);
-
-#if DEBUG_POINT_QUAD_TREE
-    cout << "southwest" << endl;
-#endif
-    find_candidate_in_quad(x, y, dx_node, dy_node, min_city_block_node, delete_node, quad_southwest);
-
-#if DEBUG_POINT_QUAD_TREE
-    cout << "southeast" << endl;
-#endif
-    find_candidate_in_quad(x, y, dx_node, dy_node, min_city_block_node, delete_node, quad_southeast);
-
-    // Check Criterion 1.
-
-#if DEBUG_POINT_QUAD_TREE
-    if (dx_node.node)
-        cout << "node closest to x axis: " << *dx_node.node->data << " (dx=" << dx_node.dist << ")" << endl;
-
-    if (dy_node.node)
-        cout << "node closest to y axis: " << *dy_node.node->data << " (dy=" << dy_node.dist << ")" << endl;
-#endif
-
-    if (dx_node.node == dy_node.node && ((dx_node.quad == quad_northwest) || (dx_node.quad == quad_southeast)))
-    {
-#if DEBUG_POINT_QUAD_TREE
-        cout << "node that satisfies Criterion 1: " << *dx_node.node->data << endl;
-#endif
-        return dx_node.node;
-    }
-    else
-    {
-#if DEBUG_POINT_QUAD_TREE
-        cout << "unable to find node that satisfies Criterion 1." << endl;
-#endif
-    }
-
-    // Move on to Criterion 2.
-
-    if (min_city_block_node.node)
-    {
-#if DEBUG_POINT_QUAD_TREE
-        cout << "node that satisfies Criterion 2: " << *min_city_block_node.node->data
-             << " (dist=" << min_city_block_node.dist << ")" << endl;
-#endif
-        return min_city_block_node.node;
-    }
-
-    return node_ptr();
-}
-
-template<typename Key, typename Value>
-void point_quad_tree<Key, Value>::find_candidate_in_quad(
-    key_type x, key_type y, node_distance& dx_node, node_distance& dy_node, node_distance& min_city_block_node,
-    const node_ptr& delete_node, node_quadrant_t quad) const
-{
-    using namespace std;
-
-    node_ptr repl_node = delete_node->get_quadrant_node(quad);
-    if (!repl_node)
-    {
-        // No candidate in this quadrant.
-#if DEBUG_POINT_QUAD_TREE
-        cout << "  no candidate in this quadrant" << endl;
-#endif
-        return;
-    }
-
-    node_quadrant_t oppo_quad = opposite(quad);
-    while (repl_node->has_quadrant_node(oppo_quad))
-        repl_node = repl_node->get_quadrant_node(oppo_quad);
-
-#if DEBUG_POINT_QUAD_TREE
-    cout << "  candidate: " << repl_node->x << "," << repl_node->y << " (" << *repl_node->data << ")" << endl;
-#endif
-
-    // Calculate its distance to each of the borders.
-    key_type dx = repl_node->x > x ? repl_node->x - x : x - repl_node->x;
-    key_type dy = repl_node->y > y ? repl_node->y - y : y - repl_node->y;
-#if DEBUG_POINT_QUAD_TREE
-    cout << "  dx = " << dx << ", dy = " << dy << endl;
-#endif
-
-    if (!dx_node.node || dx_node.dist > dx)
-        dx_node = node_distance(quad, dx, repl_node);
-    if (!dy_node.node || dy_node.dist > dy)
-        dy_node = node_distance(quad, dy, repl_node);
-
-    if (!min_city_block_node.node || min_city_block_node.dist > (dx + dy))
-        min_city_block_node = node_distance(quad_unspecified, dx + dy, repl_node);
-}
-
-template<typename Key, typename Value>
-void point_quad_tree<Key, Value>::adjust_quad(
-    const key_range_type& hatched_xrange, const key_range_type& hatched_yrange, node_ptr quad_root, direction_t dir,
-    reinsert_tree_array_type& insert_list)
-{
-    using namespace std;
-
-    if (!quad_root)
-        return;
-
-#if DEBUG_POINT_QUAD_TREE
-    cout << "adjust_quad: checking " << *quad_root->data << " (" << quad_root->x << "," << quad_root->y << ")" << endl;
-#endif
-
-    if ((hatched_xrange.first <= quad_root->x && quad_root->x <= hatched_xrange.second) ||
-        (hatched_yrange.first <= quad_root->y && quad_root->y <= hatched_yrange.second))
-    {
-#if DEBUG_POINT_QUAD_TREE
-        cout << "  " << *quad_root->data << " is in the hatched region" << endl;
-#endif
-        // Insert the whole tree, including the root, into the insert list.
-        disconnect_node_from_parent(quad_root);
-        quad_root->parent.reset();
-        insert_list.push_back(quad_root);
-        return;
-    }
-
-    switch (dir)
-    {
-        case dir_east:
-            adjust_quad(hatched_xrange, hatched_yrange, quad_root->northeast, dir_east, insert_list);
-            adjust_quad(hatched_xrange, hatched_yrange, quad_root->southeast, dir_east, insert_list);
-            break;
-        case dir_north:
-            adjust_quad(hatched_xrange, hatched_yrange, quad_root->northeast, dir_north, insert_list);
-            adjust_quad(hatched_xrange, hatched_yrange, quad_root->northwest, dir_north, insert_list);
-            break;
-        case dir_south:
-            adjust_quad(hatched_xrange, hatched_yrange, quad_root->southeast, dir_south, insert_list);
-            adjust_quad(hatched_xrange, hatched_yrange, quad_root->southwest, dir_south, insert_list);
-            break;
-        case dir_west:
-            adjust_quad(hatched_xrange, hatched_yrange, quad_root->northwest, dir_west, insert_list);
-            adjust_quad(hatched_xrange, hatched_yrange, quad_root->southwest, dir_west, insert_list);
-            break;
-        default:;
-    }
-}
-
-template<typename Key, typename Value>
-void point_quad_tree<Key, Value>::set_new_root(
-    const key_range_type& hatched_xrange, const key_range_type& hatched_yrange, node_ptr& quad_root,
-    node_quadrant_t dir, reinsert_tree_array_type& insert_list)
-{
-    node_ptr cur_node = quad_root;
-    while (cur_node)
-    {
-        switch (dir)
-        {
-            case quad_northeast:
-                adjust_quad(hatched_xrange, hatched_yrange, cur_node->southeast, dir_east, insert_list);
-                adjust_quad(hatched_xrange, hatched_yrange, cur_node->northwest, dir_north, insert_list);
-                break;
-            case quad_northwest:
-                adjust_quad(hatched_xrange, hatched_yrange, cur_node->northeast, dir_north, insert_list);
-                adjust_quad(hatched_xrange, hatched_yrange, cur_node->southwest, dir_west, insert_list);
-                break;
-            case quad_southeast:
-                adjust_quad(hatched_xrange, hatched_yrange, cur_node->northeast, dir_east, insert_list);
-                adjust_quad(hatched_xrange, hatched_yrange, cur_node->southwest, dir_south, insert_list);
-                break;
-            case quad_southwest:
-                adjust_quad(hatched_xrange, hatched_yrange, cur_node->northwest, dir_west, insert_list);
-                adjust_quad(hatched_xrange, hatched_yrange, cur_node->southeast, dir_south, insert_list);
-                break;
-            default:
-                throw general_error("unspecified quadrant");
-        }
-        cur_node = cur_node->get_quadrant_node(dir);
-    }
-}
-
 template<typename Key, typename Value>
 void point_quad_tree<Key, Value>::insert_node(node_ptr& dest, node_ptr& this_node)
 {
@@ -1475,56 +1185,6 @@ void point_quad_tree<Key, Value>::reinsert_tree(node_ptr& dest, node_ptr& root)
     insert_node(dest, root);
 }
 
-template<typename Key, typename Value>
-void point_quad_tree<Key, Value>::reinsert_tree(node_ptr& dest, node_quadrant_t quad, node_ptr& root)
-{
-    if (!root)
-        // Nothing to re-insert.  Bail out.
-        return;
-
-    switch (quad)
-    {
-        case quad_northeast:
-            if (dest->northeast)
-                reinsert_tree(dest->northeast, root);
-            else
-            {
-                dest->northeast = root;
-                root->parent = dest;
-            }
-            break;
-        case quad_northwest:
-            if (dest->northwest)
-                reinsert_tree(dest->northwest, root);
-            else
-            {
-                dest->northwest = root;
-                root->parent = dest;
-            }
-            break;
-        case quad_southeast:
-            if (dest->southeast)
-                reinsert_tree(dest->southeast, root);
-            else
-            {
-                dest->southeast = root;
-                root->parent = dest;
-            }
-            break;
-        case quad_southwest:
-            if (dest->southwest)
-                reinsert_tree(dest->southwest, root);
-            else
-            {
-                dest->southwest = root;
-                root->parent = dest;
-            }
-            break;
-        default:
-            throw general_error("reinsert_tree: quadrant unspecified");
-    }
-}
-
 template<typename Key, typename Value>
 void point_quad_tree<Key, Value>::clear_all_nodes()
 {
-- 
2.43.0


From c2ed78094e267ef9d1e5160422152fc985735c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 08/54] fix: point_quad_tree: decrementing the end iterator
 must update its value

The value of the last result was not loaded when the iterator was
obtained from end().
---
 include/mdds/point_quad_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 47d9791..51a4723 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -284,6 +284,7 @@ public:
                 if (m_end_pos)
                 {
                     m_end_pos = false;
+                    update_current_value();
                     return get_current_value();
                 }
                 --m_cur_pos;
-- 
2.43.0


From a921696bf02bfb2a6e1b247cbd0fde346008a9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 09/54] fix: point_quad_tree: assignment to self must not erase
 the content

---
 include/mdds/point_quad_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 51a4723..c75d8e1 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -810,6 +810,10 @@ typename point_quad_tree<Key, Value>::node_access point_quad_tree<Key, Value>::g
 template<typename Key, typename Value>
 point_quad_tree<Key, Value>& point_quad_tree<Key, Value>::operator=(const point_quad_tree& r)
 {
+    if (this == &r)
+        // assignment to self.
+        return *this;
+
     m_xrange = key_range_type(0, 0);
     m_yrange = key_range_type(0, 0);
     clear_all_nodes();
-- 
2.43.0


From 2901f61de8615cf63cf76bba569ceb44131bcc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 10/54] fix: rtree: initialize all coordinates of a point

---
 include/mdds/rtree_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index b642e63..7c042b1 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -394,6 +394,9 @@ rtree<KeyT, ValueT, Traits>::point_type::point_type(std::initializer_list<key_ty
         *dst = v;
         ++dst;
     }
+
+    for (; dst != dst_end; ++dst)
+        *dst = key_type{};
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-- 
2.43.0


From 50ebe2d2b9bb54dd7945f572d459f519101eeb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 11/54] fix: rtree: update parent pointers after dissolving a
 non-leaf directory

---
 include/mdds/rtree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 7c042b1..d33e819 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1637,7 +1637,7 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         --depth;
         erased = dir_ns->erase_child(dir_ns_child);
         assert(erased);
-        dir_ns->reset_parent_pointers_of_children();
+        dir_ns->reset_parent_pointers();
         dir_ns->pack();
     }
 
-- 
2.43.0


From dbe6c458e783123dce7d487b9ac46907ddf29112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 12/54] fix: rtree: update parent pointers when the root node
 gets split

---
 include/mdds/rtree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index d33e819..1903250 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -2244,7 +2244,7 @@ void rtree<KeyT, ValueT, Traits>::split_node(node_store* ns)
         m_root.pack();
 
         for (node_store& ns_child : dir_root->children)
-            ns_child.reset_parent_pointers_of_children();
+            ns_child.reset_parent_pointers();
     }
     else
     {
-- 
2.43.0


From 2efdd1b1b99f965357c73f6b52cfc6493f2ff7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 13/54] fix: rtree: split a non-leaf directory that overflows
 during reinsertion

---
 include/mdds/rtree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 1903250..33707ff 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -686,7 +686,7 @@ bool rtree<KeyT, ValueT, Traits>::node_store::is_root() const
 template<typename KeyT, typename ValueT, typename Traits>
 bool rtree<KeyT, ValueT, Traits>::node_store::exceeds_capacity() const
 {
-    if (type != node_type::directory_leaf)
+    if (!is_directory())
         return false;
 
     return count > traits_type::max_node_size;
-- 
2.43.0


From 64cec78915da63539321fe23835860cf1d30fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 14/54] fix: rtree: shrink the extents of all ancestors after
 dissolving a directory

---
 include/mdds/rtree_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 33707ff..94ecb4d 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1641,6 +1641,9 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         dir_ns->pack();
     }
 
+    // The extents of the ancestors may also need to shrink.
+    dir_ns->pack_upward();
+
     while (!orphan_dir_nodes.empty())
     {
         orphan_node_entry& entry = orphan_dir_nodes.back();
-- 
2.43.0


From f45391ea1d9c7a1d2cb4af07d634c863039e2de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 15/54] fix: rtree: reinsert orphaned directories at their
 original level

---
 include/mdds/rtree_def.inl | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 94ecb4d..647b4d0 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1627,7 +1627,7 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         {
             orphan_dir_nodes.emplace_back();
             orphan_dir_nodes.back().ns.swap(dir->children.back());
-            orphan_dir_nodes.back().depth = depth + 1; // depth of the children.
+            orphan_dir_nodes.back().depth = depth; // depth of the directory to insert the child into.
             dir->children.pop_back();
         }
 
@@ -1644,11 +1644,18 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
     // The extents of the ancestors may also need to shrink.
     dir_ns->pack_upward();
 
+    size_t levels_added = 0;
+
     while (!orphan_dir_nodes.empty())
     {
         orphan_node_entry& entry = orphan_dir_nodes.back();
-        insert_dir(std::move(entry.ns), entry.depth);
+        const node* root_dir = m_root.node_ptr;
+        insert_dir(std::move(entry.ns), entry.depth + levels_added);
         orphan_dir_nodes.pop_back();
+
+        if (m_root.node_ptr != root_dir)
+            // The root has been split, which has made the tree one level deeper.
+            ++levels_added;
     }
 
     while (!orphan_value_nodes.empty())
@@ -1657,7 +1664,7 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         orphan_value_nodes.pop_back();
     }
 
-    if (m_root.count == 1)
+    while (m_root.count == 1 && m_root.type == node_type::directory_nonleaf)
     {
         // If the root node only has one child, make that child the new root.
         // Be careful not to leak memory here...
-- 
2.43.0


From f4746f7ad3be30cf560f61bcc435932be33035d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 16/54] fix: rtree: bulk loader must make progress on each
 level

---
 include/mdds/rtree_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 647b4d0..a15ed2e 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1172,6 +1172,9 @@ void rtree<KeyT, ValueT, Traits>::bulk_loader::pack_level(dir_store_type& store,
                 std::ceil(seg.size / n_splits_per_dim), traits_type::min_node_size, traits_type::max_node_size,
                 seg.size);
 
+            // Segments of one node each would never reduce the number of nodes.
+            segment_size = std::max<size_t>(segment_size, 2);
+
             size_t n_cur_segment = 0;
             auto begin = seg.begin;
             for (auto it = begin; it != seg.end; ++it, ++n_cur_segment)
-- 
2.43.0


From a22396400412bfe947b0a53137b22ce1d1261ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 17/54] fix: trie_map: iteration must include the empty key

---
 include/mdds/trie_map_def.inl | 44 ++++++-----------------------------
 1 file changed, 7 insertions(+), 37 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 7d8c93a..5329c97 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -666,19 +666,15 @@ trie_map<KeyT, ValueT, TraitsT>::trie_map(trie_map&& other) : m_root(std::move(o
 template<typename KeyT, typename ValueT, typename TraitsT>
 typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT, TraitsT>::begin() const
 {
-    if (m_root.children.empty())
+    if (empty())
         // empty container
         return end();
 
-    // Push the root node.
+    // Push the root node, which stores the value of an empty key if any.
     key_type buf;
     const_node_stack_type node_stack;
     node_stack.emplace_back(&m_root, m_root.children.begin());
 
-    // Push root's first child node.
-    auto it = node_stack.back().child_pos;
-    const_iterator::push_child_node_to_stack(node_stack, buf, it);
-
     // In theory there should always be at least one value node along the
     // left-most branch.
 
@@ -694,19 +690,15 @@ typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT,
 template<typename KeyT, typename ValueT, typename TraitsT>
 typename trie_map<KeyT, ValueT, TraitsT>::iterator trie_map<KeyT, ValueT, TraitsT>::begin()
 {
-    if (m_root.children.empty())
+    if (empty())
         // empty container
         return end();
 
-    // Push the root node.
+    // Push the root node, which stores the value of an empty key if any.
     key_type buf;
     node_stack_type node_stack;
     node_stack.emplace_back(&m_root, m_root.children.begin());
 
-    // Push root's first child node.
-    auto it = node_stack.back().child_pos;
-    iterator::push_child_node_to_stack(node_stack, buf, it);
-
     // In theory there should always be at least one value node along the
     // left-most branch.
 
@@ -1441,35 +1433,13 @@ typename packed_trie_map<KeyT, ValueT, TraitsT>::const_iterator packed_trie_map<
 {
     node_stack_type node_stack = get_root_stack();
 
-    const stack_item* si = &node_stack.back();
-    if (si->child_pos == si->child_end)
+    if (m_value_store.empty())
         // empty container.
         return const_iterator(&m_value_store, std::move(node_stack), key_type());
 
-    const auto* node_pos = si->node_pos;
-    const auto* child_pos = si->child_pos;
-    const auto* child_end = si->child_end;
-    const auto* p = child_pos;
-
-    // Follow the root node's left-most child.
+    // Start from the root node, which stores the value of an empty key if any.
     key_type buf;
-    key_unit_type c = *p;
-    buf.push_back(c);
-    ++p;
-    size_type offset = *p;
-
-    node_pos -= offset; // jump to the child node.
-    p = node_pos;
-    ++p;
-    size_type index_size = *p;
-    ++p;
-    child_pos = p;
-    child_end = child_pos + index_size;
-
-    // Push this child node onto the stack.
-    node_stack.emplace_back(&m_value_store, node_pos, child_pos, child_end);
-
-    pack_value_type pos = *node_pos;
+    pack_value_type pos = *node_stack.back().node_pos;
     while (pos == null_value)
     {
         // Keep following the left child node until we reach a node with value.
-- 
2.43.0


From e14af38a05b2c3e8d50d0a19d99a5aa03b017543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 18/54] fix: trie_map: find() and erase() must not act on a
 prefix of an absent key

---
 include/mdds/trie_map_def.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 5329c97..54485f5 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -860,7 +860,11 @@ void trie_map<KeyT, ValueT, TraitsT>::find_prefix_node_with_stack(
 
     auto it = node.children.find(*prefix);
     if (it == node.children.end())
+    {
+        // No such node. Don't leave a partial path behind.
+        node_stack.clear();
         return;
+    }
 
     node_stack.emplace_back(&node, it);
 
-- 
2.43.0


From 1aafcdd5324134a013a25100e832130566346877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 19/54] fix: trie_map: decrementing an iterator must visit
 every preceding entry

---
 include/mdds/trie_map_itr.hpp | 110 ++++++++--------------------------
 1 file changed, 25 insertions(+), 85 deletions(-)

diff --git a/include/mdds/trie_map_itr.hpp b/include/mdds/trie_map_itr.hpp
index b87bc4f..61bba7a 100644
--- a/include/mdds/trie_map_itr.hpp
+++ b/include/mdds/trie_map_itr.hpp
@@ -227,25 +227,21 @@ public:
     {
         trie_node_type* cur_node = m_node_stack.back().node;
 
-        if (m_type == iterator_type::end && cur_node->has_value)
-        {
-            assert(m_node_stack.size() == 1);
-            m_type = iterator_type::normal;
-        }
-        else if (m_node_stack.size() == 1)
+        if (m_type == iterator_type::end)
         {
             // This is the end position aka root node.  Move down to the
-            // right-most leaf node.
-            auto& si = m_node_stack.back();
-            assert(si.child_pos == cur_node->children.end());
-            cur_node = descend_to_previus_leaf_node(m_node_stack, m_buffer);
+            // right-most leaf node if there is one.
             m_type = iterator_type::normal;
+
+            if (!cur_node->children.empty())
+                cur_node = descend_to_previus_leaf_node(m_node_stack, m_buffer);
         }
-        else if (cur_node->children.empty())
+        else
         {
-            // This is a leaf node.  Keep going up until it finds a parent
-            // node with unvisited child nodes on the left side, then descend
-            // on that path all the way to its leaf.
+            // Keep going up until either a parent node with unvisited child
+            // nodes on the left side is reached, in which case descend on that
+            // path all the way to its leaf, or a parent node with value is
+            // reached.
 
             do
             {
@@ -264,30 +260,6 @@ public:
                 }
             } while (!cur_node->has_value);
         }
-        else
-        {
-            // Non-leaf node with value.  Keep going up until either the root
-            // node or another node with value is reached.
-
-            assert(cur_node->has_value);
-            assert(m_node_stack.back().child_pos == cur_node->children.begin());
-
-            do
-            {
-                // Go up.
-                m_buffer.pop_back();
-                m_node_stack.pop_back();
-                auto& si = m_node_stack.back();
-                cur_node = si.node;
-
-                if (m_node_stack.size() == 1)
-                {
-                    // Root node reached.  Left and down.
-                    cur_node = descend_to_previus_leaf_node(m_node_stack, m_buffer);
-                    assert(cur_node->has_value);
-                }
-            } while (!cur_node->has_value);
-        }
 
         assert(cur_node->has_value);
         m_current_key = m_buffer;
@@ -648,71 +620,39 @@ public:
         pack_value_type v = *si->node_pos;
         size_t index_size = *(si->node_pos + 1); // index size for child nodes.
 
-        if (m_type == iterator_type::end && v != trie_type::null_value)
-        {
-            assert(m_node_stack.size() == 1);
-            m_type = iterator_type::normal;
-        }
-        else if (m_node_stack.size() == 1)
+        if (m_type == iterator_type::end)
         {
             // This is the end position aka root node.  Move down to the
-            // right-most leaf node.
-            assert(si->child_pos == si->child_end);
-            descend_to_previous_leaf_node(m_node_stack, m_buffer);
-            si = &m_node_stack.back();
-            v = *si->node_pos;
+            // right-most leaf node if there is one.
             m_type = iterator_type::normal;
-        }
-        else if (!index_size)
-        {
-            // This is a leaf node.  Keep going up until it finds a parent
-            // node with unvisited child nodes on the left side, then descend
-            // on that path all the way to its leaf.
 
-            do
+            if (index_size)
             {
-                // Go up one node.
-
-                m_buffer.pop_back();
-                m_node_stack.pop_back();
+                descend_to_previous_leaf_node(m_node_stack, m_buffer);
                 si = &m_node_stack.back();
-                const auto* p = si->node_pos;
-                v = *p;
-                ++p;
-                index_size = *p;
-                ++p;
-                const auto* first_child = p;
-
-                if (si->child_pos != first_child)
-                {
-                    // Left and down.
-                    descend_to_previous_leaf_node(m_node_stack, m_buffer);
-                    si = &m_node_stack.back();
-                    p = si->node_pos;
-                    v = *p;
-                    assert(v != trie_type::null_value);
-                }
-            } while (v == trie_type::null_value);
+                v = *si->node_pos;
+            }
         }
         else
         {
-            // Non-leaf node with value.  Keep going up until either the root
-            // node or another node with value is reached.
-
-            assert(*si->node_pos); // this node should have a value.
-            assert(si->child_pos == (si->node_pos + 2));
+            // Keep going up until either a parent node with unvisited child
+            // nodes on the left side is reached, in which case descend on that
+            // path all the way to its leaf, or a parent node with value is
+            // reached.
 
             do
             {
-                // Go up.
+                // Go up one node.
+
                 m_buffer.pop_back();
                 m_node_stack.pop_back();
                 si = &m_node_stack.back();
                 v = *si->node_pos;
+                const auto* first_child = si->node_pos + 2;
 
-                if (m_node_stack.size() == 1)
+                if (si->child_pos != first_child)
                 {
-                    // Root node reached.
+                    // Left and down.
                     descend_to_previous_leaf_node(m_node_stack, m_buffer);
                     si = &m_node_stack.back();
                     v = *si->node_pos;
-- 
2.43.0


From d49d31fc4ae5c6dc63089b5b9871aa63560f60ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 20/54] fix: packed_trie_map: the root of an empty container
 must have no value

---
 include/mdds/trie_map_def.inl | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 54485f5..2904270 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1288,13 +1288,12 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map() : m_packed(3, 0u)
+packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map() : m_packed{1u, null_value, 0u}
 {
     static_assert(!std::is_signed_v<pack_value_type>);
     static_assert(std::is_integral_v<pack_value_type>);
 
     // root offset (0), root value (1), and root child count (2).
-    m_packed[0] = 1;
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
@@ -1389,8 +1388,8 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(packed_trie_map&& other)
     : m_value_store(std::move(other.m_value_store)), m_packed(std::move(other.m_packed))
 {
     // Even the empty structure needs to have the root offset and the empty root record.
-    other.m_packed.resize(3, 0u); // root offset (0), root value (1), and root child count (2).
-    other.m_packed[0] = 1;
+    other.m_value_store.clear();
+    other.m_packed = {1u, null_value, 0u}; // root offset (0), root value (1), and root child count (2).
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-- 
2.43.0


From 6e6d7be6af4eea7cfc22fbf8836e435ac5bb40f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 21/54] fix: packed_trie_map: entries may have keys with null
 units

---
 include/mdds/trie_map_def.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 2904270..1546787 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1038,7 +1038,7 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
         ++range_count;
         key_unit_type c = p->key[pos];
 
-        if (!range_char)
+        if (range_count == 1)
             range_char = c;
         else if (range_char != c)
         {
@@ -1057,7 +1057,6 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
 
     if (range_count)
     {
-        assert(range_char);
         node_pool.emplace_back(range_char);
         root.children.push_back(&node_pool.back());
         traverse_range(*root.children.back(), node_pool, range_start, end, pos + 1);
-- 
2.43.0


From 5f946a8253eae534d0b7513864384d8022a1664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 22/54] fix: packed_trie_map: find entries sorted by unsigned
 character values

---
 include/mdds/trie_map_def.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 1546787..e7aa646 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1061,6 +1061,12 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
         root.children.push_back(&node_pool.back());
         traverse_range(*root.children.back(), node_pool, range_start, end, pos + 1);
     }
+
+    // The order of the entries may differ from that of the key units, e.g. when
+    // the entries are sorted as strings and the key unit is a signed type.
+    std::sort(root.children.begin(), root.children.end(), [](const trie_node* left, const trie_node* right) {
+        return left->key < right->key;
+    });
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-- 
2.43.0


From 98e2caf85bd326bf0fab1295228e215b61c9e9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 23/54] fix: packed_trie_map: copied search results must refer
 to the values

---
 include/mdds/trie_map_itr.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_itr.hpp b/include/mdds/trie_map_itr.hpp
index 61bba7a..95a7829 100644
--- a/include/mdds/trie_map_itr.hpp
+++ b/include/mdds/trie_map_itr.hpp
@@ -714,6 +714,7 @@ class packed_search_results
 
     void swap(packed_search_results& other)
     {
+        std::swap(m_value_store, other.m_value_store);
         std::swap(m_node, other.m_node);
         std::swap(m_buffer, other.m_buffer);
     }
@@ -724,10 +725,12 @@ public:
     packed_search_results() : m_node(nullptr)
     {}
 
-    packed_search_results(const packed_search_results& other) : m_node(other.m_node), m_buffer(other.m_buffer)
+    packed_search_results(const packed_search_results& other)
+        : m_value_store(other.m_value_store), m_node(other.m_node), m_buffer(other.m_buffer)
     {}
 
-    packed_search_results(packed_search_results&& other) : m_node(other.m_node), m_buffer(std::move(other.m_buffer))
+    packed_search_results(packed_search_results&& other)
+        : m_value_store(other.m_value_store), m_node(other.m_node), m_buffer(std::move(other.m_buffer))
     {
         other.m_node = nullptr;
     }
-- 
2.43.0


From 48113e3d55cc111b24bb76476f8b2f079b4839c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 24/54] fix: trie_map: prefix search on an empty container

---
 include/mdds/trie_map_itr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mdds/trie_map_itr.hpp b/include/mdds/trie_map_itr.hpp
index 95a7829..0ed22df 100644
--- a/include/mdds/trie_map_itr.hpp
+++ b/include/mdds/trie_map_itr.hpp
@@ -383,6 +383,10 @@ public:
             // empty results.
             return const_iterator(empty_iterator);
 
+        if (!m_node->has_value && m_node->children.empty())
+            // root node of an empty container.
+            return end();
+
         // Push the root node.
         key_type buf(m_buffer);
         node_stack_type node_stack;
-- 
2.43.0


From 1034d9d3ef5f52f6118668ec23decc75a44cf6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 25/54] fix: packed_trie_map: refuse a truncated stream in
 load_state

---
 include/mdds/trie_map_def.inl | 52 ++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index e7aa646..6d919f3 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -325,6 +325,17 @@ union bin_value
     uint64_t ui64;
 };
 
+/**
+ * Read exactly n bytes from the input stream.
+ */
+inline void read_bytes(std::istream& is, char* buf, size_t n)
+{
+    is.read(buf, n);
+
+    if (static_cast<size_t>(is.gcount()) != n)
+        throw std::invalid_argument("unexpected end of the input stream.");
+}
+
 using value_addrs_type = std::map<const void*, size_t>;
 
 template<typename FuncT, typename ValueT>
@@ -413,7 +424,7 @@ struct read_fixed_size_values_from_istream
         bin_value bv;
 
         // read the size of the value.
-        is.read(bv.buffer, 4);
+        trie::detail::read_bytes(is, bv.buffer, 4);
         size_t size = bv.ui32;
 
         if (size != FuncT::value_size)
@@ -445,7 +456,7 @@ struct read_variable_size_values_from_istream
 
         for (uint32_t i = 0; i < value_count; ++i)
         {
-            is.read(bv.buffer, 4);
+            trie::detail::read_bytes(is, bv.buffer, 4);
             size_t size = bv.ui32;
 
             ValueT v;
@@ -500,15 +511,7 @@ void numeric_value_serializer<T>::read(std::istream& is, size_t n, T& v)
 
     } buf;
 
-    char* p = buf.buffer;
-
-    while (n)
-    {
-        is.read(p, s);
-        auto size_read = is.gcount();
-        n -= size_read;
-        p += size_read;
-    }
+    detail::read_bytes(is, buf.buffer, n);
 
     v = buf.v;
 }
@@ -553,15 +556,7 @@ template<>
 inline void variable_value_serializer<std::string>::read(std::istream& is, size_t n, std::string& v)
 {
     v.resize(n);
-    char* p = const_cast<char*>(v.data());
-
-    while (n)
-    {
-        is.read(p, n);
-        auto size_read = is.gcount();
-        n -= size_read;
-        p += size_read;
-    }
+    detail::read_bytes(is, v.data(), n);
 }
 
 } // namespace trie
@@ -1681,7 +1676,7 @@ template<typename FuncT>
 void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
 {
     trie::detail::bin_value bv;
-    is.read(bv.buffer, 2);
+    trie::detail::read_bytes(is, bv.buffer, 2);
 
     uint16_t flags = bv.ui16;
     bool variable_size = (flags & 0x0001) != 0;
@@ -1695,27 +1690,27 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
     }
 
     // read the number of values
-    is.read(bv.buffer, 4);
+    trie::detail::read_bytes(is, bv.buffer, 4);
     uint32_t value_count = bv.ui32;
 
     using value_size_type = std::bool_constant<FuncT::variable_size>;
     trie::detail::read_values_from_istream<FuncT, value_type, value_size_type> func;
-    m_value_store = func(is, value_count);
+    auto value_store = func(is, value_count);
 
     // There should be a check byte of 0xFF.
-    is.read(bv.buffer, 1);
+    trie::detail::read_bytes(is, bv.buffer, 1);
     if (bv.ui8 != 0xFF)
         throw std::invalid_argument("failed to find the check byte at the end of the value section.");
 
     // Size of pack_value_type
-    is.read(bv.buffer, 1);
+    trie::detail::read_bytes(is, bv.buffer, 1);
     size_type pvt_size = bv.ui8;
 
     if (pvt_size != sizeof(pack_value_type))
         throw std::invalid_argument("size of pack_value_type is different.");
 
     // Size of the packed blob.
-    is.read(bv.buffer, 8);
+    trie::detail::read_bytes(is, bv.buffer, 8);
 
     size_t n = bv.ui64;
     packed_type packed;
@@ -1723,16 +1718,17 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
 
     for (size_t i = 0; i < n; ++i)
     {
-        is.read(bv.buffer, pvt_size);
+        trie::detail::read_bytes(is, bv.buffer, pvt_size);
         const auto* p = reinterpret_cast<const pack_value_type*>(bv.buffer);
         packed.push_back(*p);
     }
 
     // the last byte must be 0xFF.
-    is.read(bv.buffer, 1);
+    trie::detail::read_bytes(is, bv.buffer, 1);
     if (bv.ui8 != 0xFF)
         throw std::invalid_argument("failed to find the check byte at the end of the packed blob section.");
 
+    m_value_store.swap(value_store);
     m_packed.swap(packed);
 
     struct _handler
-- 
2.43.0


From 021af5bac2d686c605f47b6356cdb21a082e5196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 26/54] fix: delayed_delete_vector: swap and move must include
 the front offset

---
 .../delayed_delete_vector.hpp                 | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/mdds/multi_type_vector/delayed_delete_vector.hpp b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
index 128397a..08fd865 100644
--- a/include/mdds/multi_type_vector/delayed_delete_vector.hpp
+++ b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
@@ -9,6 +9,7 @@
 #include <vector>
 #include <algorithm>
 #include <type_traits>
+#include <utility>
 
 namespace mdds { namespace mtv {
 
@@ -49,6 +50,24 @@ public:
     delayed_delete_vector(InputIt first, InputIt last) : m_vec(first, last)
     {}
 
+    delayed_delete_vector(const delayed_delete_vector&) = default;
+
+    delayed_delete_vector(delayed_delete_vector&& other) noexcept(std::is_nothrow_move_constructible_v<store_type>)
+        : m_vec(std::move(other.m_vec)), m_front_offset(std::exchange(other.m_front_offset, 0))
+    {
+        other.m_vec.clear();
+    }
+
+    delayed_delete_vector& operator=(const delayed_delete_vector&) = default;
+
+    delayed_delete_vector& operator=(delayed_delete_vector&& other) noexcept(
+        std::is_nothrow_move_constructible_v<store_type> && std::is_nothrow_swappable_v<store_type>)
+    {
+        delayed_delete_vector tmp(std::move(other));
+        swap(tmp);
+        return *this;
+    }
+
     iterator begin() noexcept
     {
         return m_vec.begin() + m_front_offset;
@@ -122,6 +141,7 @@ public:
     void swap(delayed_delete_vector& other) noexcept(std::is_nothrow_swappable_v<store_type>)
     {
         m_vec.swap(other.m_vec);
+        std::swap(m_front_offset, other.m_front_offset);
     }
 
     template<typename... Args>
-- 
2.43.0


From 631a820dc49e70c65731e634ab1359af16091f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 27/54] fix: multi_type_vector: a position hint on an empty
 container must not be dereferenced

---
 include/mdds/multi_type_vector/aos/main_def.inl | 4 ++++
 include/mdds/multi_type_vector/soa/main_def.inl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index e3744c5..2f71d26 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -919,6 +919,10 @@ template<typename Traits>
 typename multi_type_vector<Traits>::size_type multi_type_vector<Traits>::get_block_position(
     const typename value_type::private_data& pos_data, size_type row) const
 {
+    if (m_blocks.empty())
+        // There is no block to search.
+        return 0;
+
     size_type block_index = 0;
     if (pos_data.parent == this && pos_data.block_index < m_blocks.size())
         block_index = pos_data.block_index;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index e10fd73..84f218a 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -4231,6 +4231,10 @@ template<typename Traits>
 typename multi_type_vector<Traits>::size_type multi_type_vector<Traits>::get_block_position(
     const typename value_type::private_data& pos_data, size_type row) const
 {
+    if (m_block_store.positions.empty())
+        // There is no block to search.
+        return 0;
+
     size_type block_index = 0;
     if (pos_data.parent == this && pos_data.block_index < m_block_store.positions.size())
         block_index = pos_data.block_index;
-- 
2.43.0


From d83349f9f80592dcb6056ea51a2525dc7229354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 28/54] fix: multi_type_vector: resize() must delete the
 managed elements it strips off

---
 include/mdds/multi_type_vector/aos/main_def.inl | 2 +-
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 2f71d26..dd4e244 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4364,7 +4364,7 @@ void multi_type_vector<Traits>::resize_impl(size_type new_size)
         size_type new_block_size = new_end_row - start_row_in_block + 1;
         if (blk->data)
         {
-            block_funcs::overwrite_values(*blk->data, new_end_row + 1, end_row_in_block - new_end_row);
+            block_funcs::overwrite_values(*blk->data, new_block_size, end_row_in_block - new_end_row);
             block_funcs::resize_block(*blk->data, new_block_size);
         }
         blk->size = new_block_size;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 84f218a..e7467cc 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -5129,7 +5129,7 @@ void multi_type_vector<Traits>::resize_impl(size_type new_size)
         size_type new_block_size = new_end_row - start_row_in_block + 1;
         if (data)
         {
-            block_funcs::overwrite_values(*data, new_end_row + 1, end_row_in_block - new_end_row);
+            block_funcs::overwrite_values(*data, new_block_size, end_row_in_block - new_end_row);
             block_funcs::resize_block(*data, new_block_size);
         }
         m_block_store.sizes[block_index] = new_block_size;
-- 
2.43.0


From 17aff2f7ee721e3c6ecf621a2dc3fe974a0584ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 29/54] fix: multi_type_vector: swap() must not delete the
 managed elements it moves between blocks

---
 include/mdds/multi_type_vector/aos/main_def.inl | 1 +
 include/mdds/multi_type_vector/soa/main_def.inl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index dd4e244..6e853c7 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -3509,6 +3509,7 @@ base_element_block* multi_type_vector<Traits>::exchange_elements(
                 {
                     // Apend elements from the next block too.
                     block_funcs::append_block(*blk_prev->data, *blk_next->data);
+                    block_funcs::resize_block(*blk_next->data, 0); // prevent double-delete.
                     blk_prev->size += blk_next->size;
                     ++it_end;
                     delete_element_block(*blk_next);
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index e7467cc..871c84d 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -4851,6 +4851,7 @@ base_element_block* multi_type_vector<Traits>::exchange_elements(
                     // Apend elements from the next block too.
                     base_element_block* dst_next_data = m_block_store.element_blocks[dst_index + 1];
                     block_funcs::append_block(*dst_prev_data, *dst_next_data);
+                    block_funcs::resize_block(*dst_next_data, 0); // prevent double-delete.
                     m_block_store.sizes[dst_index - 1] += m_block_store.sizes[dst_index + 1];
                     ++dst_erase_size;
                     delete_element_block(dst_index + 1);
-- 
2.43.0


From dded75918c83bdd8e8a9eed84fa97a67efede6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 30/54] fix: multi_type_vector: set() must delete the managed
 elements it overwrites at the start of the last block

---
 include/mdds/multi_type_vector/aos/main_def.inl | 1 +
 include/mdds/multi_type_vector/soa/main_def.inl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 6e853c7..e49148d 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4095,6 +4095,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Erase the upper part of block 2.
                 size_type size_to_erase = end_row - start_row_in_block2 + 1;
+                block_funcs::overwrite_values(*blk2->data, 0, size_to_erase);
                 block_funcs::erase(*blk2->data, 0, size_to_erase);
                 blk2->size -= size_to_erase;
                 blk2->position += size_to_erase;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 871c84d..fcaa59b 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -3252,6 +3252,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Erase the upper part of block 2.
                 size_type size_to_erase = end_row - start_row_in_block2 + 1;
+                block_funcs::overwrite_values(*blk2_data, 0, size_to_erase);
                 block_funcs::erase(*blk2_data, 0, size_to_erase);
                 m_block_store.sizes[block_index2] -= size_to_erase;
                 m_block_store.positions[block_index2] += size_to_erase;
-- 
2.43.0


From f333c25918b037e86126a1ef99b76ccfff416b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 31/54] fix: multi_type_vector: set() must merge with the next
 block of the same type

---
 include/mdds/multi_type_vector/aos/main_def.inl | 3 +++
 include/mdds/multi_type_vector/soa/main_def.inl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index e49148d..97334e5 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4112,6 +4112,9 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         delete_element_blocks(it_erase_begin, it_erase_end);
         m_blocks.erase(it_erase_begin, it_erase_end);
 
+        // The block that follows may be of the same type.
+        merge_with_next_block(block_index1);
+
         return get_iterator(block_index1);
     }
 
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index fcaa59b..e1b4709 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -3269,6 +3269,9 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         delete_element_blocks(index_erase_begin, index_erase_end);
         m_block_store.erase(index_erase_begin, index_erase_end - index_erase_begin);
 
+        // The block that follows may be of the same type.
+        merge_with_next_block(block_index1);
+
         return get_iterator(block_index1);
     }
 
-- 
2.43.0


From 83e815dc6fa9ec8d9858d8144e8af4dfb99afe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:52 +0000
Subject: [PATCH 32/54] fix: multi_type_vector: insert() must report the new
 block, not the block that follows, to the event handler

---
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index e1b4709..f7ab32d 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -2123,8 +2123,8 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::insert_c
         // Just insert a new block before the current block.
         m_block_store.insert(block_index, m_block_store.positions[block_index], length, nullptr);
         m_block_store.element_blocks[block_index] = block_funcs::create_new_block(cat, 0);
-        m_hdl_event.element_block_acquired(blk_data);
         blk_data = m_block_store.element_blocks[block_index];
+        m_hdl_event.element_block_acquired(blk_data);
         mdds_mtv_assign_values(*blk_data, *it_begin, it_begin, it_end);
         m_block_store.sizes[block_index] = length;
         m_cur_size += length;
-- 
2.43.0


From 8e2c8a28b71194abe3fe946d19ccf45fc2dd62ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 33/54] fix: multi_type_vector: a failed copy of the aos
 variant must not leak the blocks copied so far

---
 .../mdds/multi_type_vector/aos/main_def.inl   | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 97334e5..6979ad6 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -308,13 +308,31 @@ template<typename Traits>
 multi_type_vector<Traits>::multi_type_vector(const multi_type_vector& other)
     : m_hdl_event(other.m_hdl_event), m_blocks(other.m_blocks), m_cur_size(other.m_cur_size)
 {
-    // Copy all element blocks.
-    for (auto& blk : m_blocks)
+    // Copy all element blocks into a temporary store, committing them only
+    // once every copy succeeds, so that a copy throwing mid-way doesn't leak
+    // the blocks copied so far.
+    std::vector<base_element_block*> owned(m_blocks.size(), nullptr);
+
+    try
     {
-        if (blk.data)
+        for (std::size_t i = 0; i < m_blocks.size(); ++i)
+            if (m_blocks[i].data)
+                owned[i] = block_funcs::copy_block(*m_blocks[i].data);
+    }
+    catch (...)
+    {
+        for (const base_element_block* p : owned)
+            if (p)
+                block_funcs::delete_block(p);
+        throw;
+    }
+
+    for (std::size_t i = 0; i < m_blocks.size(); ++i)
+    {
+        if (owned[i])
         {
-            blk.data = block_funcs::copy_block(*blk.data);
-            m_hdl_event.element_block_acquired(blk.data);
+            m_blocks[i].data = owned[i];
+            m_hdl_event.element_block_acquired(owned[i]);
         }
     }
 
-- 
2.43.0


From e02a011dba4d0122005907880d14dd57caac029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 34/54] fix: multi_type_vector: a failed copy of a managed
 block must not leak the elements copied so far

---
 include/mdds/multi_type_vector/types.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mdds/multi_type_vector/types.hpp b/include/mdds/multi_type_vector/types.hpp
index 21b4489..1efb4f7 100644
--- a/include/mdds/multi_type_vector/types.hpp
+++ b/include/mdds/multi_type_vector/types.hpp
@@ -827,8 +827,10 @@ struct managed_element_block
     {}
     managed_element_block(size_t n) : base_type(n)
     {}
-    managed_element_block(const managed_element_block& r) : base_type()
+    managed_element_block(const managed_element_block& r) : managed_element_block()
     {
+        // Since the delegated constructor has completed, the destructor deletes
+        // the elements copied so far when copying of an element throws.
         detail::reserve(m_array, r.m_array.size());
         for (const auto& v : r.m_array)
             m_array.push_back(new ValueT(*v));
-- 
2.43.0


From 5237a7f7357ae42a1ce380a5ec3ef450b131df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 35/54] fix: multi_type_matrix: transpose() must support
 integer elements

---
 include/mdds/multi_type_matrix_def.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 75cedb3..555d405 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -409,6 +409,13 @@ multi_type_matrix<Traits>& multi_type_matrix<Traits>::transpose()
                     tmp.set(old_col_new_row, old_row_new_col, val);
                 }
                 break;
+                case mtm::element_integer:
+                {
+                    integer_type val;
+                    m_store.get(get_pos(old_row_new_col, old_col_new_row), val);
+                    tmp.set(old_col_new_row, old_row_new_col, val);
+                }
+                break;
                 case mtm::element_empty:
                     break;
                 default:
-- 
2.43.0


From 66669c8e67d5ad1b0f3808078245b94e05a2cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 36/54] fix: multi_type_matrix: copy() and resize() must
 support integer elements

---
 include/mdds/multi_type_matrix_def.inl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 555d405..422caae 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -489,6 +489,14 @@ void multi_type_matrix<Traits>::copy(const multi_type_matrix& src)
                     blk_pos = m_store.set(pos_dest.first, logical_pos_dest, it, ite);
                 }
                 break;
+                case mtm::element_integer:
+                {
+                    auto it = src_node.template begin<integer_block_type>();
+                    auto ite = src_node.template end<integer_block_type>();
+
+                    blk_pos = m_store.set(pos_dest.first, logical_pos_dest, it, ite);
+                }
+                break;
                 case mtm::element_empty:
                 {
                     size_type end = logical_pos_dest + section_size - 1;
-- 
2.43.0


From 73b51a642685e3fdfcb6e69262418ed28c5083d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 37/54] fix: multi_type_matrix: walk() must refuse an end
 position just past the last row or column

---
 include/mdds/multi_type_matrix_def.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 422caae..be40ae8 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -659,7 +659,7 @@ FuncT multi_type_matrix<Traits>::walk(FuncT func, const size_pair_type& start, c
         throw size_error(os.str());
     }
 
-    if (end.row > m_size.row || end.column > m_size.column)
+    if (end.row >= m_size.row || end.column >= m_size.column)
         throw size_error("multi_type_matrix: end position is out-of-bound.");
 
     size_t rows = end.row - start.row + 1;
@@ -743,8 +743,8 @@ FuncT multi_type_matrix<Traits>::walk(
         throw size_error(os.str());
     }
 
-    if (end.row > m_size.row || end.column > m_size.column || end.row > right.size().row ||
-        end.column > right.size().column)
+    if (end.row >= m_size.row || end.column >= m_size.column || end.row >= right.size().row ||
+        end.column >= right.size().column)
         throw size_error("multi_type_matrix: end position is out-of-bound.");
 
     size_t rows = end.row - start.row + 1;
-- 
2.43.0


From ae15c0fd037cb9f94728ed71eacfdeb02b136e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 38/54] fix: multi_type_matrix: get_integer() must return
 integer elements exactly

---
 include/mdds/multi_type_matrix_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index be40ae8..4ac597e 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -198,6 +198,9 @@ template<typename Traits>
 typename multi_type_matrix<Traits>::integer_type multi_type_matrix<Traits>::get_integer(
     const const_position_type& pos) const
 {
+    if (pos.first->type == integer_block_type::block_type)
+        return integer_block_type::at(*pos.first->data, pos.second);
+
     return static_cast<integer_type>(get_numeric(pos));
 }
 
-- 
2.43.0


From 6b157b7f51ab540923ee754f71838e7a4d39c7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 39/54] fix: multi_type_vector: collection must refuse range
 sizes that overflow

---
 include/mdds/multi_type_vector/collection_def.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/collection_def.inl b/include/mdds/multi_type_vector/collection_def.inl
index be9876d..e12b907 100644
--- a/include/mdds/multi_type_vector/collection_def.inl
+++ b/include/mdds/multi_type_vector/collection_def.inl
@@ -194,7 +194,7 @@ void collection<MtvT>::check_collection_range(size_type start, size_type size) c
     if (!size)
         throw invalid_arg_error("size of 0 is not allowed.");
 
-    if ((start + size) > m_vectors.size())
+    if (size > m_vectors.size() - start)
         throw invalid_arg_error("size is too large.");
 }
 
@@ -211,7 +211,7 @@ void collection<MtvT>::check_element_range(size_type start, size_type size) cons
     if (!size)
         throw invalid_arg_error("size of 0 is not allowed.");
 
-    if ((start + size) > m_mtv_size)
+    if (size > m_mtv_size - start)
         throw invalid_arg_error("size is too large.");
 }
 
-- 
2.43.0


From 0b85a17aa6e7426767bfaf02063472fa28e9b950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 40/54] fix: flat_segment_tree: segment_range() must not touch
 the reference counts of shared nodes

---
 include/mdds/flat_segment_tree.hpp     | 6 +++---
 include/mdds/flat_segment_tree_def.inl | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index 575ad9a..101e53e 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -126,11 +126,11 @@ public:
 
     class const_segment_range_type
     {
-        node_ptr m_left_leaf;
-        node_ptr m_right_leaf;
+        const node* m_left_leaf;
+        const node* m_right_leaf;
 
     public:
-        const_segment_range_type(node_ptr left_leaf, node_ptr right_leaf);
+        const_segment_range_type(const node* left_leaf, const node* right_leaf);
 
         const_segment_iterator begin() const;
         const_segment_iterator end() const;
diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 86f9a55..5b4e400 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -18,7 +18,7 @@ typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree
 
 template<typename Key, typename Value>
 flat_segment_tree<Key, Value>::const_segment_range_type::const_segment_range_type(
-    node_ptr left_leaf, node_ptr right_leaf)
+    const node* left_leaf, const node* right_leaf)
     : m_left_leaf(left_leaf), m_right_leaf(right_leaf)
 {}
 
@@ -26,14 +26,14 @@ template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree<
     Key, Value>::const_segment_range_type::begin() const
 {
-    return const_segment_iterator(m_left_leaf.get(), m_left_leaf->next.get());
+    return const_segment_iterator(m_left_leaf, m_left_leaf->next.get());
 }
 
 template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree<
     Key, Value>::const_segment_range_type::end() const
 {
-    return const_segment_iterator(m_right_leaf.get(), nullptr);
+    return const_segment_iterator(m_right_leaf, nullptr);
 }
 
 template<typename Key, typename Value>
@@ -51,7 +51,7 @@ typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree
 template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_segment_range_type flat_segment_tree<Key, Value>::segment_range() const
 {
-    return const_segment_range_type(m_left_leaf, m_right_leaf);
+    return const_segment_range_type(m_left_leaf.get(), m_right_leaf.get());
 }
 
 template<typename Key, typename Value>
-- 
2.43.0


From a96a61f8e15d86ccad76db15514734f626e5915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 41/54] fix: report emplace_back to the trace method like every
 other public method

---
 include/mdds/multi_type_vector/soa/main_def.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index f7ab32d..cd83465 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -1130,6 +1130,8 @@ template<typename Traits>
 template<typename T, typename... Args>
 typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::emplace_back(Args&&... args)
 {
+    MDDS_MTV_TRACE_ARGS(mutator, "args=? (length=" << sizeof...(Args) << ")");
+
     detach_impl();
 
 #ifdef MDDS_MULTI_TYPE_VECTOR_DEBUG
-- 
2.43.0


From d0e9ac88fa76592341529cc0a408aba97107027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 42/54] fix: separate the arguments of insert() in the trace
 output

---
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index cd83465..c5387e5 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -1167,7 +1167,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::insert(
     size_type pos, const T& it_begin, const T& it_end)
 {
     MDDS_MTV_TRACE_ARGS(
-        mutator, "pos=" << pos << "it_begin=?; it_end=? (length=" << std::distance(it_begin, it_end) << ")");
+        mutator, "pos=" << pos << "; it_begin=?; it_end=? (length=" << std::distance(it_begin, it_end) << ")");
 
     detach_impl();
 
-- 
2.43.0


From 112c35bdcff28c6ba245f2bc6d175873f844b48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:43 +0000
Subject: [PATCH 43/54] fix: rtree: a non-leaf root with two or more children
 is not underfilled

---
 include/mdds/rtree_def.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index a15ed2e..602a3c4 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1864,8 +1864,9 @@ void rtree<KeyT, ValueT, Traits>::check_integrity(const integrity_check_properti
                 }
 
                 bool node_underfill_allowed = false;
-                if (ns->is_root() && ns->type == node_type::directory_leaf)
-                    // If the root directory is a leaf, it's allowed to be underfilled.
+                if (ns->is_root() && (ns->type == node_type::directory_leaf || ns->count > 1))
+                    // The root directory is allowed to be underfilled; a
+                    // non-leaf root only needs two children or more.
                     node_underfill_allowed = true;
 
                 if (!node_underfill_allowed && ns->count < traits_type::min_node_size)
-- 
2.43.0


From 53b45b0c4664a6c43b22056c765439a5e697fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:09 +0000
Subject: [PATCH 44/54] fix: multi_type_vector: transfer() with a position hint
 must refuse the same container

The aos variant only checked the overload without a hint; with a hint the
container was corrupted.
---
 include/mdds/multi_type_vector/aos/main_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 6979ad6..ce73891 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -1836,6 +1836,9 @@ template<typename Traits>
 typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::transfer(
     const iterator& pos_hint, size_type start_pos, size_type end_pos, multi_type_vector& dest, size_type dest_pos)
 {
+    if (&dest == this)
+        throw invalid_arg_error("You cannot transfer between the same container.");
+
     size_type block_index1 = get_block_position(pos_hint->__private_data, start_pos);
     if (block_index1 == m_blocks.size())
         mdds::mtv::detail::throw_block_position_not_found(
-- 
2.43.0


From d073bb2924ee2848235f91d541c6f3f00914eff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 45/54] fix: rtree: drawing a tree without an extent as SVG
 must not divide by zero

---
 include/mdds/rtree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 602a3c4..b55eec0 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -2119,7 +2119,7 @@ std::string rtree<KeyT, ValueT, Traits>::export_tree_extent_as_svg() const
     float root_avg = (root_w + root_h) / 2.0f;
     if (root_avg >= max_avg_root_length)
         zoom_ratio = max_avg_root_length / root_avg;
-    if (root_avg <= min_avg_root_length)
+    else if (root_avg > 0.0f && root_avg <= min_avg_root_length)
         zoom_ratio = min_avg_root_length / root_avg;
 
     root_w *= zoom_ratio;
-- 
2.43.0


From 290b02ac730bb9cbd19f055d4c3f5c8e731558ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:41 +0000
Subject: [PATCH 46/54] fix: multi_type_vector: don't leak an element copied or
 cloned when its block fails to grow

---
 include/mdds/multi_type_vector/types.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/types.hpp b/include/mdds/multi_type_vector/types.hpp
index 1efb4f7..2579dca 100644
--- a/include/mdds/multi_type_vector/types.hpp
+++ b/include/mdds/multi_type_vector/types.hpp
@@ -13,6 +13,7 @@
 #include <algorithm>
 #include <cassert>
 #include <concepts>
+#include <iterator>
 #include <memory>
 #include <cstdint>
 #include <vector>
@@ -269,7 +270,17 @@ struct clone_block<BlockT, std::void_t<decltype(clone_value<typename BlockT::val
             // carry state across the elements of the block.
             CV cloner;
             for (const auto& v : src.store())
-                dest_store.push_back(cloner(v));
+            {
+                if constexpr (std::is_pointer_v<value_type>)
+                {
+                    // The block takes the clone over without allocating, which
+                    // would leak it in case of an exception.
+                    dest_store.push_back(nullptr);
+                    *std::prev(dest_store.end()) = cloner(v);
+                }
+                else
+                    dest_store.push_back(cloner(v));
+            }
 
             return dest_blk.release();
         }
@@ -833,7 +844,11 @@ struct managed_element_block
         // the elements copied so far when copying of an element throws.
         detail::reserve(m_array, r.m_array.size());
         for (const auto& v : r.m_array)
-            m_array.push_back(new ValueT(*v));
+        {
+            // The block takes the copy over without allocating.
+            m_array.push_back(nullptr);
+            *std::prev(m_array.end()) = new ValueT(*v);
+        }
     }
 
     template<typename Iter>
-- 
2.43.0


From d03dc1c81bd6e13756c657836b30599708c542bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:41 +0000
Subject: [PATCH 47/54] fix: point_quad_tree: leak nothing and keep the target
 when a copy fails mid-way

---
 include/mdds/point_quad_tree.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index c75d8e1..2a86c91 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -586,8 +586,10 @@ point_quad_tree<Key, Value>::point_quad_tree() : m_root(nullptr), m_xrange(0, 0)
 {}
 
 template<typename Key, typename Value>
-point_quad_tree<Key, Value>::point_quad_tree(const point_quad_tree& r) : m_root(nullptr), m_xrange(0, 0), m_yrange(0, 0)
+point_quad_tree<Key, Value>::point_quad_tree(const point_quad_tree& r) : point_quad_tree()
 {
+    // The default constructor has completed, so that the destructor cleans up
+    // if an insertion throws.
     insert_data_from(r);
 }
 
@@ -814,10 +816,8 @@ point_quad_tree<Key, Value>& point_quad_tree<Key, Value>::operator=(const point_
         // assignment to self.
         return *this;
 
-    m_xrange = key_range_type(0, 0);
-    m_yrange = key_range_type(0, 0);
-    clear_all_nodes();
-    insert_data_from(r);
+    point_quad_tree tmp(r);
+    swap(tmp);
     return *this;
 }
 
-- 
2.43.0


From 4b674afc696152146feaf5ea941118d439ce6bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:41 +0000
Subject: [PATCH 48/54] fix: segment_tree: leak or lose nothing when copying or
 building the tree fails mid-way

---
 include/mdds/segment_tree_def.inl | 67 ++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index efc26fe..72c2783 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -84,16 +84,9 @@ void erase_deleted_segments(SegStoreT& segments)
 {
     using segment_type = typename SegStoreT::value_type;
 
-    SegStoreT compacted;
-    for (auto&& v : segments)
-    {
-        if (v == segment_type{})
-            continue;
-
-        compacted.push_back(std::move(v));
-    }
-
-    segments.swap(compacted);
+    segments.erase(
+        std::remove_if(segments.begin(), segments.end(), [](const auto& v) { return v == segment_type{}; }),
+        segments.end());
 }
 
 }} // namespace st::detail
@@ -249,10 +242,12 @@ segment_tree<KeyT, ValueT>::segment_tree() noexcept(nothrow_default_constructibl
 {}
 
 template<typename KeyT, typename ValueT>
-segment_tree<KeyT, ValueT>::segment_tree(const segment_tree& r)
-    : m_segment_store(r.m_segment_store), m_root_node(nullptr), m_valid_tree(r.m_valid_tree)
+segment_tree<KeyT, ValueT>::segment_tree(const segment_tree& r) : segment_tree()
 {
-    if (m_valid_tree)
+    // The default constructor has completed, so that the destructor cleans up
+    // if anything below throws.
+    m_segment_store = r.m_segment_store;
+    if (r.m_valid_tree)
         build_tree();
 }
 
@@ -409,6 +404,8 @@ void segment_tree<KeyT, ValueT>::build_leaf_nodes()
     // NB: m_segment_store must not contain deleted segments!
 
     disconnect_leaf_nodes(m_left_leaf.get(), m_right_leaf.get());
+    m_left_leaf.reset();
+    m_right_leaf.reset();
 
     // Collect all boundary keys.
     std::vector<key_type> keys;
@@ -438,26 +435,38 @@ void segment_tree<KeyT, ValueT>::create_leaf_node_instances(std::vector<key_type
     keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
 
     auto it = keys.cbegin();
+    node_ptr prev_node;
+    node_ptr cur_node;
 
-    // left-most node
-    left.reset(new node);
-    left->key = *it;
+    try
+    {
+        // left-most node
+        left.reset(new node);
+        left->key = *it;
+
+        // move on to next.
+        left->next.reset(new node);
+        prev_node = left;
+        cur_node = left->next;
+        cur_node->prev = prev_node;
 
-    // move on to next.
-    left->next.reset(new node);
-    node_ptr prev_node = left;
-    node_ptr cur_node = left->next;
-    cur_node->prev = prev_node;
+        for (++it; it != keys.cend(); ++it)
+        {
+            cur_node->key = *it;
 
-    for (++it; it != keys.cend(); ++it)
+            // move on to next
+            cur_node->next.reset(new node);
+            prev_node = cur_node;
+            cur_node = cur_node->next;
+            cur_node->prev = prev_node;
+        }
+    }
+    catch (...)
     {
-        cur_node->key = *it;
-
-        // move on to next
-        cur_node->next.reset(new node);
-        prev_node = cur_node;
-        cur_node = cur_node->next;
-        cur_node->prev = prev_node;
+        // The nodes created so far hold on to each other.
+        disconnect_leaf_nodes(left.get(), cur_node.get());
+        left.reset();
+        throw;
     }
 
     // Remove the excess node.
-- 
2.43.0


From 0ccd5ae92037f36656a4245e14eb0a20bcfc0f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:41 +0000
Subject: [PATCH 49/54] fix: flat_segment_tree: release the nodes copied so far
 when a copy fails mid-way

---
 include/mdds/flat_segment_tree_def.inl | 46 +++++++++++++++++---------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 5b4e400..cbc315d 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -78,28 +78,42 @@ flat_segment_tree<Key, Value>::flat_segment_tree(const flat_segment_tree& r)
     : m_root_node(nullptr), m_left_leaf(new node(*r.m_left_leaf)), m_right_leaf(), m_init_val(r.m_init_val),
       m_valid_tree(false) // tree is invalid because we only copy the leaf nodes.
 {
-    // Copy all the leaf nodes from the original instance.
-    node* src_node = r.m_left_leaf.get();
-    node_ptr dest_node = m_left_leaf;
-    while (true)
+    try
     {
-        dest_node->next.reset(new node(*src_node->next));
+        // Copy all the leaf nodes from the original instance.
+        node* src_node = r.m_left_leaf.get();
+        node_ptr dest_node = m_left_leaf;
+        while (true)
+        {
+            dest_node->next.reset(new node(*src_node->next));
 
-        // Move on to the next source node.
-        src_node = src_node->next.get();
+            // Move on to the next source node.
+            src_node = src_node->next.get();
 
-        // Move on to the next destination node, and have the next node point
-        // back to the previous node.
-        node_ptr old_node = dest_node;
-        dest_node = dest_node->next;
-        dest_node->prev = std::move(old_node);
+            // Move on to the next destination node, and have the next node point
+            // back to the previous node.
+            node_ptr old_node = dest_node;
+            dest_node = dest_node->next;
+            dest_node->prev = std::move(old_node);
 
-        if (src_node == r.m_right_leaf.get())
+            if (src_node == r.m_right_leaf.get())
+            {
+                // Reached the right most leaf node.  We can stop here.
+                m_right_leaf = dest_node;
+                break;
+            }
+        }
+    }
+    catch (...)
+    {
+        // The nodes copied so far hold on to each other.
+        for (node_ptr cur_node = m_left_leaf; cur_node;)
         {
-            // Reached the right most leaf node.  We can stop here.
-            m_right_leaf = dest_node;
-            break;
+            node_ptr next_node = cur_node->next;
+            disconnect_all_nodes(cur_node.get());
+            cur_node = std::move(next_node);
         }
+        throw;
     }
 }
 
-- 
2.43.0


From 7de71720f3fd5b72c34c7ad17b179de491e793fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:41 +0000
Subject: [PATCH 50/54] fix: flat_segment_tree: don't leave a tree marked valid
 when building it fails mid-way

---
 include/mdds/flat_segment_tree_def.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index cbc315d..e5d2934 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -762,6 +762,8 @@ void flat_segment_tree<Key, Value>::build_tree()
     if (!m_left_leaf)
         return;
 
+    m_valid_tree = false;
+    m_root_node = nullptr;
     m_nonleaf_node_pool.clear();
 
     // Count the number of leaf nodes.
-- 
2.43.0


From 48b3c4d28805dbaf9c344bb692da70b32a346fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:41 +0000
Subject: [PATCH 51/54] fix: multi_type_vector: lose no blocks when sharing
 them for the first time runs out of memory

---
 include/mdds/multi_type_vector/soa/main_def.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index c5387e5..15b7669 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -559,8 +559,9 @@ void multi_type_vector<Traits>::share() const
 
         // Transfer ownership of the blocks from the parent store to a shared
         // COW store.
-        m_cow_store = std::make_shared<shared_element_blocks>();
-        m_cow_store->blocks = m_block_store.element_blocks;
+        auto store = std::make_shared<shared_element_blocks>();
+        store->blocks = m_block_store.element_blocks;
+        m_cow_store = std::move(store);
     }
 }
 
-- 
2.43.0


From 4200296ec5d20165baaa1c8916d288dfc18ec593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:45 +0000
Subject: [PATCH 52/54] fix: rtree: a move that runs out of memory must not
 lose the content

---
 include/mdds/rtree_def.inl | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index b55eec0..5818c51 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1253,14 +1253,11 @@ rtree<KeyT, ValueT, Traits>::rtree() : m_root(node_store::create_leaf_directory_
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-rtree<KeyT, ValueT, Traits>::rtree(rtree&& other) : m_root(std::move(other.m_root))
+rtree<KeyT, ValueT, Traits>::rtree(rtree&& other) : rtree()
 {
-    // The root node must be a valid directory at all times.
-    other.m_root = node_store::create_leaf_directory_node();
-
-    // Since the moved root has its memory location changed, we need to update
-    // the parent pointers in its child nodes.
-    m_root.reset_parent_pointers();
+    // The root node must be a valid directory at all times, even when creating
+    // the new root node throws.
+    swap(other);
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-- 
2.43.0


From 0dc880d558e4bb19ac8b9075e0a78deca491f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:45 +0000
Subject: [PATCH 53/54] fix: packed_trie_map: a move that runs out of memory
 must not lose the content

---
 include/mdds/trie_map_def.inl | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 6d919f3..653ede2 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1384,19 +1384,16 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(const packed_trie_map& o
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(packed_trie_map&& other)
-    : m_value_store(std::move(other.m_value_store)), m_packed(std::move(other.m_packed))
+packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(packed_trie_map&& other) : packed_trie_map()
 {
     // Even the empty structure needs to have the root offset and the empty root record.
-    other.m_value_store.clear();
-    other.m_packed = {1u, null_value, 0u}; // root offset (0), root value (1), and root child count (2).
+    swap(other);
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
 packed_trie_map<KeyT, ValueT, TraitsT>& packed_trie_map<KeyT, ValueT, TraitsT>::operator=(packed_trie_map other)
 {
-    packed_trie_map tmp(std::move(other));
-    tmp.swap(*this);
+    swap(other);
     return *this;
 }
 
-- 
2.43.0


From 6f90411cb84a619e538dded86aace0551a3a0685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:45 +0000
Subject: [PATCH 54/54] fix: segment_tree: a move that runs out of memory must
 leave its source usable

---
 include/mdds/segment_tree.hpp     | 2 +-
 include/mdds/segment_tree_def.inl | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/mdds/segment_tree.hpp b/include/mdds/segment_tree.hpp
index d768d6f..09db86c 100644
--- a/include/mdds/segment_tree.hpp
+++ b/include/mdds/segment_tree.hpp
@@ -334,7 +334,7 @@ public:
 
     segment_tree() noexcept(nothrow_default_constructible_v);
     segment_tree(const segment_tree& r);
-    segment_tree(segment_tree&& r) = default;
+    segment_tree(segment_tree&& r) noexcept(nothrow_default_constructible_v && nothrow_swappable_v);
     ~segment_tree();
 
     segment_tree& operator=(const segment_tree& r);
diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index 72c2783..2816f25 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -251,6 +251,15 @@ segment_tree<KeyT, ValueT>::segment_tree(const segment_tree& r) : segment_tree()
         build_tree();
 }
 
+template<typename KeyT, typename ValueT>
+segment_tree<KeyT, ValueT>::segment_tree(segment_tree&& r) noexcept(
+    nothrow_default_constructible_v && nothrow_swappable_v)
+    : segment_tree()
+{
+    // Leave the source valid even when constructing a member throws.
+    swap(r);
+}
+
 template<typename KeyT, typename ValueT>
 segment_tree<KeyT, ValueT>::~segment_tree()
 {
-- 
2.43.0

