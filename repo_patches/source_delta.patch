From 7fc993956c0986f654fb9ad9f7bcae74dfbe4ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:12 +0000
Subject: [PATCH 1/6] fix: default constructed closed_interval is empty for
 descending domain orders

---
 include/boost/icl/closed_interval.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/closed_interval.hpp b/include/boost/icl/closed_interval.hpp
index d7a3e6f..d306f8c 100644
--- a/include/boost/icl/closed_interval.hpp
+++ b/include/boost/icl/closed_interval.hpp
@@ -9,6 +9,7 @@ Copyright (c) 2010-2010: Joachim Faulhaber
 #define BOOST_ICL_CLOSED_INTERVAL_HPP_JOFA_100324
 
 #include <functional>
+#include <utility>
 #include <boost/static_assert.hpp>
 #include <boost/concept/assert.hpp>
 #include <boost/icl/detail/concept_check.hpp>
@@ -33,10 +34,14 @@ public:
     //==========================================================================
     //= Construct, copy, destruct
     //==========================================================================
-    /** Default constructor; yields an empty interval <tt>[0,0)</tt>. */
+    /** Default constructor; yields an empty interval <tt>[1,0]</tt>
+        (<tt>[0,1]</tt> if the domain order is descending). */
     closed_interval()
         : _lwb(unit_element<DomainT>::value()), _upb(identity_element<DomainT>::value())
     {
+        if(domain_compare()(_lwb, _upb))
+            std::swap(_lwb, _upb);
+
         BOOST_CONCEPT_ASSERT((DefaultConstructibleConcept<DomainT>));
         BOOST_CONCEPT_ASSERT((LessThanComparableConcept<DomainT>));
         BOOST_STATIC_ASSERT((icl::is_discrete<DomainT>::value));
-- 
2.43.0


From c20213140b9aea7a5d081907dbe285d2f1a887c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:12 +0000
Subject: [PATCH 2/6] fix: open_interval(val) contains val for descending
 domain orders

---
 include/boost/icl/open_interval.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/open_interval.hpp b/include/boost/icl/open_interval.hpp
index b94f231..db051e0 100644
--- a/include/boost/icl/open_interval.hpp
+++ b/include/boost/icl/open_interval.hpp
@@ -45,7 +45,8 @@ public:
 
     /** Constructor for an open singleton interval <tt>(val-1,val+1)</tt> */
     explicit open_interval(const DomainT& val)
-        : _lwb(pred(val)), _upb(succ(val))
+        : _lwb(predecessor<DomainT,domain_compare>::apply(val))
+        , _upb(  successor<DomainT,domain_compare>::apply(val))
     {
         BOOST_CONCEPT_ASSERT((DefaultConstructibleConcept<DomainT>));
         BOOST_CONCEPT_ASSERT((LessThanComparableConcept<DomainT>));
-- 
2.43.0


From 71c28376d20e5d193c19a536e96f00a6e84671e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:12 +0000
Subject: [PATCH 3/6] fix: size, length and distance of intervals over
 descending domain orders

---
 include/boost/icl/concept/interval.hpp | 56 +++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index fab7dd9..2b80185 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -19,6 +19,7 @@ Copyright (c) 2010-2010: Joachim Faulhaber
 #include <boost/icl/type_traits/identity_element.hpp>
 #include <boost/icl/type_traits/infinity.hpp>
 #include <boost/icl/type_traits/succ_pred.hpp>
+#include <boost/icl/type_traits/is_increasing.hpp>
 #include <boost/icl/type_traits/is_numeric.hpp>
 #include <boost/icl/type_traits/is_discrete.hpp>
 #include <boost/icl/type_traits/is_continuous.hpp>
@@ -988,6 +989,16 @@ touches(const Type& left, const Type& right)
 }
 
 
+namespace detail
+{
+    /** Do the values of the interval's domain ascend along the domain order? */
+    template<class Type>
+    struct has_ascending_domain
+        : is_increasing< typename interval_traits<Type>::domain_type
+                       , typename interval_traits<Type>::domain_compare >
+    {};
+}
+
 //==============================================================================
 //= Size
 //==============================================================================
@@ -1015,7 +1026,10 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+                                 : static_cast<SizeT>(
+                                       detail::has_ascending_domain<Type>::value
+                                           ? last_next(object) - first(object)
+                                           : first(object) - last_next(object));
 }
 
 template<class Type>
@@ -1037,7 +1051,10 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+                                 : static_cast<SizeT>(
+                                       detail::has_ascending_domain<Type>::value
+                                           ? last_next(object) - first(object)
+                                           : first(object) - last_next(object));
 }
 
 template<class Type>
@@ -1047,7 +1064,10 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+                                 : static_cast<SizeT>(
+                                       detail::has_ascending_domain<Type>::value
+                                           ? last_next(object) - first(object)
+                                           : first(object) - last_next(object));
 }
 
 
@@ -1069,7 +1089,9 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : upper(object) - lower(object);
+                                 : detail::has_ascending_domain<Type>::value
+                                       ? upper(object) - lower(object)
+                                       : lower(object) - upper(object);
 }
 
 template<class Type>
@@ -1079,7 +1101,9 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : last_next(object) - first(object);
+                                 : detail::has_ascending_domain<Type>::value
+                                       ? last_next(object) - first(object)
+                                       : first(object) - last_next(object);
 }
 
 template<class Type>
@@ -1089,7 +1113,9 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : upper(object) - lower(object);
+                                 : detail::has_ascending_domain<Type>::value
+                                       ? upper(object) - lower(object)
+                                       : lower(object) - upper(object);
 }
 
 template<class Type>
@@ -1099,7 +1125,9 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : last_next(object) - first(object);
+                                 : detail::has_ascending_domain<Type>::value
+                                       ? last_next(object) - first(object)
+                                       : first(object) - last_next(object);
 }
 
 //- iterative_size -------------------------------------------------------------
@@ -1418,9 +1446,13 @@ distance(const Type& x1, const Type& x2)
     if(icl::is_empty(x1) || icl::is_empty(x2))
         return icl::identity_element<difference_type>::value();
     else if(domain_less<Type>(last(x1), first(x2)))
-        return static_cast<difference_type>(icl::pred(first(x2) - last(x1)));
+        return static_cast<difference_type>(icl::pred(
+                   detail::has_ascending_domain<Type>::value ? first(x2) - last(x1)
+                                                             : last(x1) - first(x2)));
     else if(domain_less<Type>(last(x2), first(x1)))
-        return static_cast<difference_type>(icl::pred(first(x1) - last(x2)));
+        return static_cast<difference_type>(icl::pred(
+                   detail::has_ascending_domain<Type>::value ? first(x1) - last(x2)
+                                                             : last(x2) - first(x1)));
     else
         return icl::identity_element<difference_type>::value();
 }
@@ -1439,9 +1471,11 @@ distance(const Type& x1, const Type& x2)
     if(icl::is_empty(x1) || icl::is_empty(x2))
         return icl::identity_element<DiffT>::value();
     else if(domain_less<Type>(upper(x1), lower(x2)))
-        return lower(x2) - upper(x1);
+        return detail::has_ascending_domain<Type>::value ? lower(x2) - upper(x1)
+                                                         : upper(x1) - lower(x2);
     else if(domain_less<Type>(upper(x2), lower(x1)))
-        return lower(x1) - upper(x2);
+        return detail::has_ascending_domain<Type>::value ? lower(x1) - upper(x2)
+                                                         : upper(x2) - lower(x1);
     else
         return icl::identity_element<DiffT>::value();
 }
-- 
2.43.0


From 7771b47be739cc9e4d0cad271be5c68cbe4a8ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:26 +0000
Subject: [PATCH 4/6] fix: flipping an interval_set by an empty segment leaves
 it unchanged

flip() passed the empty interval on to equal_range, which requires a
non-empty key (it asserts, and searches with an inconsistent key otherwise).
---
 include/boost/icl/concept/interval_set.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/icl/concept/interval_set.hpp b/include/boost/icl/concept/interval_set.hpp
index 63aad41..8e334c5 100644
--- a/include/boost/icl/concept/interval_set.hpp
+++ b/include/boost/icl/concept/interval_set.hpp
@@ -232,6 +232,9 @@ flip(Type& object, const typename Type::segment_type& segment)
     // That which is not shall be added
     // So x has to be 'complementary added' or flipped
     interval_type span = segment;
+    if(icl::is_empty(span))
+        return object;
+
     std::pair<const_iterator, const_iterator> exterior 
         = object.equal_range(span);
 
-- 
2.43.0


From 5980d5d8d1a74ce01fe55ebf671444b994ed3501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:26 +0000
Subject: [PATCH 5/6] fix: flipping an interval_map by a segment with empty
 interval leaves it unchanged

flip() passed the empty interval on to equal_range, which requires a
non-empty key.
---
 include/boost/icl/interval_base_map.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index f464a6a..ba2fb10 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -755,6 +755,9 @@ private:
             // That which is not shall be added
             // So interval_value_pair has to be 'complementary added' or flipped
             interval_type span = interval_value_pair.first;
+            if(icl::is_empty(span))
+                return;
+
             std::pair<const_iterator, const_iterator> exterior 
                 = object.equal_range(span);
 
-- 
2.43.0


From 309f0872aa5b56cf33a43ec17d3525f460d1e337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:09 +0000
Subject: [PATCH 6/6] fix: intersecting a set valued absorbing map with an
 empty set value leaves nothing

---
 include/boost/icl/interval_base_map.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index ba2fb10..152c2df 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -526,6 +526,11 @@ private:
         if(icl::is_empty(inter_val)) 
             return;
 
+        // An absorbed set value is an empty set: There is nothing in common.
+        if(   has_set_semantics<codomain_type>::value
+           && on_codomain_absorbtion::is_absorbable(operand.second))
+            return;
+
         std::pair<const_iterator, const_iterator> exterior = equal_range(inter_val);
         if(exterior.first == exterior.second)
             return;
-- 
2.43.0

