From 268d302b713cb0fc7fc5f344682e64e0cd042afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:29 +0000
Subject: [PATCH 01/29] fix: default constructed closed_interval is empty for
 decreasing domain orders

---
 include/boost/icl/closed_interval.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/icl/closed_interval.hpp b/include/boost/icl/closed_interval.hpp
index d7a3e6f..38b3e73 100644
--- a/include/boost/icl/closed_interval.hpp
+++ b/include/boost/icl/closed_interval.hpp
@@ -11,6 +11,7 @@ Copyright (c) 2010-2010: Joachim Faulhaber
 #include <functional>
 #include <boost/static_assert.hpp>
 #include <boost/concept/assert.hpp>
+#include <utility>
 #include <boost/icl/detail/concept_check.hpp>
 #include <boost/icl/concept/interval.hpp>
 #include <boost/icl/type_traits/succ_pred.hpp>
@@ -40,6 +41,9 @@ public:
         BOOST_CONCEPT_ASSERT((DefaultConstructibleConcept<DomainT>));
         BOOST_CONCEPT_ASSERT((LessThanComparableConcept<DomainT>));
         BOOST_STATIC_ASSERT((icl::is_discrete<DomainT>::value));
+        // For decreasing orders [1,0] is not empty but [0,1] is.
+        if(domain_compare()(_lwb, _upb))
+            std::swap(_lwb, _upb);
     }
 
     //NOTE: Compiler generated copy constructor is used
-- 
2.43.0


From 0aff87906fbfd433ca482b0edb6a9f5c44c9f108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:29 +0000
Subject: [PATCH 02/29] fix: flipping an empty interval leaves an interval set
 unchanged

---
 include/boost/icl/concept/interval_set.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/icl/concept/interval_set.hpp b/include/boost/icl/concept/interval_set.hpp
index 63aad41..bea81f5 100644
--- a/include/boost/icl/concept/interval_set.hpp
+++ b/include/boost/icl/concept/interval_set.hpp
@@ -231,6 +231,9 @@ flip(Type& object, const typename Type::segment_type& segment)
     // That which is common shall be subtracted
     // That which is not shall be added
     // So x has to be 'complementary added' or flipped
+    if(icl::is_empty(segment))
+        return object;
+
     interval_type span = segment;
     std::pair<const_iterator, const_iterator> exterior 
         = object.equal_range(span);
-- 
2.43.0


From 9831833833c550934446f3df5995a7a0d406253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:55 +0000
Subject: [PATCH 03/29] fix: open_interval singleton constructor follows the
 domain order

---
 include/boost/icl/open_interval.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/open_interval.hpp b/include/boost/icl/open_interval.hpp
index b94f231..68f53e2 100644
--- a/include/boost/icl/open_interval.hpp
+++ b/include/boost/icl/open_interval.hpp
@@ -45,7 +45,8 @@ public:
 
     /** Constructor for an open singleton interval <tt>(val-1,val+1)</tt> */
     explicit open_interval(const DomainT& val)
-        : _lwb(pred(val)), _upb(succ(val))
+        : _lwb(icl::predecessor<DomainT,domain_compare>::apply(val))
+        , _upb(icl::successor<DomainT,domain_compare>::apply(val))
     {
         BOOST_CONCEPT_ASSERT((DefaultConstructibleConcept<DomainT>));
         BOOST_CONCEPT_ASSERT((LessThanComparableConcept<DomainT>));
-- 
2.43.0


From ac83092955b0889b3533528194b89667d8cdb639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:55 +0000
Subject: [PATCH 04/29] fix: statically bounded interval construction shifts
 bounds along the domain order

---
 include/boost/icl/interval.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/interval.hpp b/include/boost/icl/interval.hpp
index df50dfd..0af575b 100644
--- a/include/boost/icl/interval.hpp
+++ b/include/boost/icl/interval.hpp
@@ -103,9 +103,12 @@ namespace boost{ namespace icl
 
         static inline IntervalT construct(const domain_type& low, const domain_type& up)
         {
+            const interval_bounds decl(PretendedBounds), repr(RepresentedBounds);
             return icl::construct<IntervalT>(
-                  shift_lower(interval_bounds(PretendedBounds), interval_bounds(RepresentedBounds), low)
-                , shift_upper(interval_bounds(PretendedBounds), interval_bounds(RepresentedBounds), up )
+                  is_left_closed(decl)  == is_left_closed(repr)  ? low
+                : is_left_closed(repr)  ? domain_next<IntervalT>(low) : domain_prior<IntervalT>(low)
+                , is_right_closed(decl) == is_right_closed(repr) ? up
+                : is_right_closed(repr) ? domain_prior<IntervalT>(up) : domain_next<IntervalT>(up)
                 ); 
         }
     };
-- 
2.43.0


From bdccca9ee2704c09dab0debc2643e5fa44432cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:39 +0000
Subject: [PATCH 05/29] fix: sizes and distances of intervals over decreasing
 domain orders

---
 include/boost/icl/concept/interval.hpp | 44 +++++++++++++++++++-------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index fab7dd9..a8fc304 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -83,6 +83,12 @@ domain_prior(const typename interval_traits<Type>::domain_type value)
     return icl::predecessor<domain_type,domain_compare>::apply(value);
 }
 
+/** Do increasing values of the domain follow each other in the domain order? */
+template<class Type>
+struct has_increasing_domain
+    : is_increasing< typename interval_traits<Type>::domain_type
+                   , typename interval_traits<Type>::domain_compare >{};
+
 //==============================================================================
 //= Construct<Interval> singleton
 //==============================================================================
@@ -1015,7 +1021,9 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+                                 : static_cast<SizeT>(has_increasing_domain<Type>::value
+                                       ? last_next(object) - first(object)
+                                       : first(object) - last_next(object));
 }
 
 template<class Type>
@@ -1037,7 +1045,9 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+                                 : static_cast<SizeT>(has_increasing_domain<Type>::value
+                                       ? last_next(object) - first(object)
+                                       : first(object) - last_next(object));
 }
 
 template<class Type>
@@ -1047,7 +1057,9 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+                                 : static_cast<SizeT>(has_increasing_domain<Type>::value
+                                       ? last_next(object) - first(object)
+                                       : first(object) - last_next(object));
 }
 
 
@@ -1069,7 +1081,9 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : upper(object) - lower(object);
+                                 : has_increasing_domain<Type>::value
+                                 ? upper(object) - lower(object)
+                                 : lower(object) - upper(object);
 }
 
 template<class Type>
@@ -1079,7 +1093,9 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : last_next(object) - first(object);
+                                 : has_increasing_domain<Type>::value
+                                 ? last_next(object) - first(object)
+                                 : first(object) - last_next(object);
 }
 
 template<class Type>
@@ -1089,7 +1105,9 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : upper(object) - lower(object);
+                                 : has_increasing_domain<Type>::value
+                                 ? upper(object) - lower(object)
+                                 : lower(object) - upper(object);
 }
 
 template<class Type>
@@ -1099,7 +1117,9 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : last_next(object) - first(object);
+                                 : has_increasing_domain<Type>::value
+                                 ? last_next(object) - first(object)
+                                 : first(object) - last_next(object);
 }
 
 //- iterative_size -------------------------------------------------------------
@@ -1418,9 +1438,11 @@ distance(const Type& x1, const Type& x2)
     if(icl::is_empty(x1) || icl::is_empty(x2))
         return icl::identity_element<difference_type>::value();
     else if(domain_less<Type>(last(x1), first(x2)))
-        return static_cast<difference_type>(icl::pred(first(x2) - last(x1)));
+        return static_cast<difference_type>(icl::pred(has_increasing_domain<Type>::value
+                                                   ? first(x2) - last(x1) : last(x1) - first(x2)));
     else if(domain_less<Type>(last(x2), first(x1)))
-        return static_cast<difference_type>(icl::pred(first(x1) - last(x2)));
+        return static_cast<difference_type>(icl::pred(has_increasing_domain<Type>::value
+                                                   ? first(x1) - last(x2) : last(x2) - first(x1)));
     else
         return icl::identity_element<difference_type>::value();
 }
@@ -1439,9 +1461,9 @@ distance(const Type& x1, const Type& x2)
     if(icl::is_empty(x1) || icl::is_empty(x2))
         return icl::identity_element<DiffT>::value();
     else if(domain_less<Type>(upper(x1), lower(x2)))
-        return lower(x2) - upper(x1);
+        return has_increasing_domain<Type>::value ? lower(x2) - upper(x1) : upper(x1) - lower(x2);
     else if(domain_less<Type>(upper(x2), lower(x1)))
-        return lower(x1) - upper(x2);
+        return has_increasing_domain<Type>::value ? lower(x1) - upper(x2) : upper(x2) - lower(x1);
     else
         return icl::identity_element<DiffT>::value();
 }
-- 
2.43.0


From 45c2b8e0726d30bcc5e9c3eed25d8ced8f2b9291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:50 +0000
Subject: [PATCH 06/29] fix: interval_map flip with an empty interval

flip looked up the collision sequence of an empty interval, which violates
the precondition of exclusive_less. Flipping nothing is now a no-op.
---
 include/boost/icl/interval_base_map.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index f464a6a..ba2fb10 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -755,6 +755,9 @@ private:
             // That which is not shall be added
             // So interval_value_pair has to be 'complementary added' or flipped
             interval_type span = interval_value_pair.first;
+            if(icl::is_empty(span))
+                return;
+
             std::pair<const_iterator, const_iterator> exterior 
                 = object.equal_range(span);
 
-- 
2.43.0


From 807a575d0bd0a1b5f4f222ef3db4bf45a3c9a5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:05 +0000
Subject: [PATCH 07/29] fix: intersection of a partial interval_map with a
 segment of empty set value

For codomains with set semantics the empty set is the annihilator of the
intersection, but _add<codomain_intersect> skipped it as an absorbable
identity element, leaving the old value in the section.
---
 include/boost/icl/interval_base_map.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index ba2fb10..11cd1a7 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -535,8 +535,9 @@ private:
             interval_type common_interval = (*it_).first & inter_val; 
             if(!icl::is_empty(common_interval))
             {
-                section.template _add<codomain_combine>  (value_type(common_interval, (*it_).second) );
-                section.template _add<codomain_intersect>(value_type(common_interval, operand.second));
+                codomain_type common_value = (*it_).second;
+                codomain_intersect()(common_value, operand.second);
+                section.template _add<codomain_combine>(value_type(common_interval, common_value));
             }
         }
     }
-- 
2.43.0


From c906375ddb087ed538641cf19985c8b8495e4ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:26 +0000
Subject: [PATCH 08/29] fix: is_element_less and is_element_greater do not
 compile

---
 include/boost/icl/detail/element_comparer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/icl/detail/element_comparer.hpp b/include/boost/icl/detail/element_comparer.hpp
index 56ae8c5..9e6447a 100644
--- a/include/boost/icl/detail/element_comparer.hpp
+++ b/include/boost/icl/detail/element_comparer.hpp
@@ -102,7 +102,7 @@ public:
             return stop;
         }
 
-        if(lower_less(key_value<LeftT>(right), key_value<RightT>(left)))
+        if(lower_less(key_value<RightT>(right), key_value<LeftT>(left)))
         {   // left: same  B.. = sameB...
             // right:same A... = sameA...
             _result = greater;
@@ -124,7 +124,7 @@ public:
             return stop;
         }
 
-        if(!key_value<LeftT>(_prior_left).touches(key_value<LeftT>(left)))
+        if(!touches(key_value<LeftT>(_prior_left), key_value<LeftT>(left)))
         {   // left: same B = sameB...
             // right:sameA  = sameA...
             _result = greater;
@@ -146,7 +146,7 @@ public:
             return stop;
         }
 
-        if(!key_value<RightT>(_prior_right).touches(key_value<RightT>(right)))
+        if(!touches(key_value<RightT>(_prior_right), key_value<RightT>(right)))
         {
             // left: sameA... = sameA...
             // right:same B.. = sameB...
-- 
2.43.0


From ba69070469d3708d4cd7bc9060ac2338f74f2c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:26 +0000
Subject: [PATCH 09/29] fix: is_distinct_equal depends on the segmentation of
 interval maps

---
 include/boost/icl/concept/interval_associator.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/interval_associator.hpp b/include/boost/icl/concept/interval_associator.hpp
index 37c92b1..ac6cfc1 100644
--- a/include/boost/icl/concept/interval_associator.hpp
+++ b/include/boost/icl/concept/interval_associator.hpp
@@ -100,7 +100,10 @@ typename enable_if< is_concept_compatible<is_interval_map, LeftT, RightT>,
                     bool >::type
 is_distinct_equal(const LeftT& left, const RightT& right)
 {
-    return Map::lexicographical_distinct_equal(left, right);
+    LeftT  left_distinct(left);
+    RightT right_distinct(right);
+    return Interval_Set::is_element_equal(absorb_identities(left_distinct), 
+                                          absorb_identities(right_distinct));
 }
 
 //==============================================================================
-- 
2.43.0


From 36dc903c4dd34d6e92b6e1512e79cf9a2efe6440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:05 +0000
Subject: [PATCH 10/29] fix: find on left open floating point intervals asserts
 for keys <= 0

---
 include/boost/icl/type_traits/is_numeric.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/type_traits/is_numeric.hpp b/include/boost/icl/type_traits/is_numeric.hpp
index 9ecc3a1..72d4eec 100644
--- a/include/boost/icl/type_traits/is_numeric.hpp
+++ b/include/boost/icl/type_traits/is_numeric.hpp
@@ -64,8 +64,13 @@ struct numeric_minimum
 template<class Type> 
 struct numeric_minimum<Type, std::less<Type>, true>
 {
+    // NOTE: numeric_limits<T>::min() is the smallest *positive* value for floating point types.
     static bool is_less_than(Type value)
-    { return std::less<Type>()((std::numeric_limits<Type>::min)(), value); }
+    { 
+        return std::less<Type>()(std::numeric_limits<Type>::is_integer 
+                                     ?  (std::numeric_limits<Type>::min)()
+                                     : -(std::numeric_limits<Type>::max)(), value); 
+    }
 
     static bool is_less_than_or(Type value, bool cond)
     { return cond || is_less_than(value); }
-- 
2.43.0


From 3efcb3bc6fea049457b487d4c9a14af59c7f5aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:26 +0000
Subject: [PATCH 11/29] fix: element iteration over containers ordered by
 std::greater

---
 include/boost/icl/detail/element_iterator.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/boost/icl/detail/element_iterator.hpp b/include/boost/icl/detail/element_iterator.hpp
index b3a2db9..e9067db 100644
--- a/include/boost/icl/detail/element_iterator.hpp
+++ b/include/boost/icl/detail/element_iterator.hpp
@@ -10,6 +10,7 @@ Copyright (c) 2009-2009: Joachim Faulhaber
 
 #include <boost/mpl/if.hpp>
 #include <boost/iterator/iterator_facade.hpp>
+#include <boost/icl/type_traits/is_increasing.hpp>
 #include <boost/icl/type_traits/succ_pred.hpp>
 #include <boost/icl/detail/mapped_reference.hpp>
 
@@ -199,6 +200,11 @@ struct segment_adapter
     typedef typename difference_type_of<interval_traits<interval_type> >::type 
                                                      domain_difference_type;
 
+    // Elements proceed downwards, if iteration is reverse or the domain is ordered by std::greater (but not both).
+    BOOST_STATIC_CONSTANT(bool, is_ascending = 
+        (is_reverse<SegmentIteratorT>::value != 
+         is_increasing<domain_type, typename interval_traits<interval_type>::domain_compare>::value));
+
     static domain_type     first (const SegmentIteratorT& leaper){ return leaper->first(); } 
     static domain_type     last  (const SegmentIteratorT& leaper){ return leaper->last();  } 
     static domain_difference_type length(const SegmentIteratorT& leaper){ return icl::length(*leaper);}
@@ -206,8 +212,8 @@ struct segment_adapter
     static transit_type transient_element(domain_type& inter_pos, const SegmentIteratorT& leaper, 
                                           const domain_difference_type& sneaker)
     { 
-        inter_pos = is_reverse<SegmentIteratorT>::value ? icl::last(*leaper)  - sneaker
-                                                        : icl::first(*leaper) + sneaker;
+        domain_type start = is_reverse<SegmentIteratorT>::value ? icl::last(*leaper) : icl::first(*leaper);
+        inter_pos = is_ascending ? start + sneaker : start - sneaker;
         return inter_pos; 
     }
 };
@@ -224,6 +230,11 @@ struct segment_adapter<SegmentIteratorT, std::pair<ICL_INTERVAL_TYPE(Interval,Do
     typedef typename difference_type_of<interval_traits<interval_type> >::type 
                                                            domain_difference_type;
 
+    // Elements proceed downwards, if iteration is reverse or the domain is ordered by std::greater (but not both).
+    BOOST_STATIC_CONSTANT(bool, is_ascending = 
+        (is_reverse<SegmentIteratorT>::value != 
+         is_increasing<domain_type, typename interval_traits<interval_type>::domain_compare>::value));
+
     static domain_type     first (const SegmentIteratorT& leaper){ return leaper->first.first(); } 
     static domain_type     last  (const SegmentIteratorT& leaper){ return leaper->first.last();  } 
     static domain_difference_type length(const SegmentIteratorT& leaper){ return icl::length(leaper->first);}
@@ -231,8 +242,8 @@ struct segment_adapter<SegmentIteratorT, std::pair<ICL_INTERVAL_TYPE(Interval,Do
     static transit_type transient_element(domain_type& inter_pos, const SegmentIteratorT& leaper,
                                           const domain_difference_type& sneaker)
     {
-        inter_pos = is_reverse<SegmentIteratorT>::value ? icl::last(leaper->first)  - sneaker
-                                                        : icl::first(leaper->first) + sneaker;
+        domain_type start = is_reverse<SegmentIteratorT>::value ? icl::last(leaper->first) : icl::first(leaper->first);
+        inter_pos = is_ascending ? start + sneaker : start - sneaker;
         return transit_type(inter_pos, leaper->second); 
     }
 };
-- 
2.43.0


From e0380c886f019a3844e4005ca3477e2688ac50c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:30 +0000
Subject: [PATCH 12/29] fix: hinted addition combines new values with the
 identity element

---
 include/boost/icl/interval_base_map.hpp | 13 +++++--------
 include/boost/icl/map.hpp               |  6 +++++-
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index 11cd1a7..e3cb55a 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -568,16 +568,13 @@ protected:
         // Never try to insert an identity element into an identity element absorber here:
         BOOST_ASSERT((!(on_absorbtion<type,Combiner,Traits::absorbs_identities>::is_absorbable(co_val))));
 
+        // The value is the same that is inserted by an addition without hint. It must not be combined
+        // with the identity element, that need not be neutral for the Combiner (e.g. inplace_max).
+        typename ImplMapT::size_type prior_size = this->_map.size();
         iterator inserted_ 
-            = this->_map.insert(prior_, value_type(inter_val, Combiner::identity_element()));
+            = this->_map.insert(prior_, value_type(inter_val, version<Combiner>()(co_val)));
 
-        if((*inserted_).first == inter_val && (*inserted_).second == Combiner::identity_element())
-        {
-            Combiner()((*inserted_).second, co_val);
-            return std::pair<iterator,bool>(inserted_, true);
-        }
-        else
-            return std::pair<iterator,bool>(inserted_, false);
+        return std::pair<iterator,bool>(inserted_, this->_map.size() != prior_size);
     }
 
     std::pair<iterator, bool>
diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index 3877745..d0c8ce8 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -616,9 +616,13 @@ typename map<DomainT,CodomainT,Traits,Compare,Combine,Section,Alloc>::iterator
     if(on_absorbtion_::is_absorbable(co_val))
         return end();
 
+    size_type prior_size = base_type::size();
     iterator inserted_
         = base_type::insert(prior_,
-                            value_type(addend.first, Combiner::identity_element()));
+                            value_type(addend.first, version<Combiner>()(co_val)));
+    if(base_type::size() != prior_size)
+        return inserted_;
+
     Combiner()((*inserted_).second, addend.second);
 
     if(on_absorbtion_::is_absorbable((*inserted_).second))
-- 
2.43.0


From 625a8fc34bf23c9e6b0a470815548e9b2a5985ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:35 +0000
Subject: [PATCH 13/29] fix: add_if loops forever on rejected segments and
 assign_if does not compile

---
 include/boost/icl/concept/element_associator.hpp | 7 +++++--
 include/boost/icl/concept/interval_map.hpp       | 9 ++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index 4d37e25..5e5da5d 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -483,8 +483,11 @@ add_if(const Predicate& pred, Type& object, const Type& src)
 {
     typename Type::const_iterator it_ = src.begin();
     while(it_ != src.end())
+    {
         if(pred(*it_))
-            icl::add(object, *it_++);
+            icl::add(object, *it_);
+        ++it_;
+    }
 
     return object;
 }
@@ -494,7 +497,7 @@ inline typename enable_if<is_associative_element_container<Type>, Type>::type&
 assign_if(const Predicate& pred, Type& object, const Type& src)
 {
     icl::clear(object);
-    return add_if(object, src, pred);
+    return icl::add_if(pred, object, src);
 }
 
 
diff --git a/include/boost/icl/concept/interval_map.hpp b/include/boost/icl/concept/interval_map.hpp
index 58298d8..d421f0d 100644
--- a/include/boost/icl/concept/interval_map.hpp
+++ b/include/boost/icl/concept/interval_map.hpp
@@ -619,8 +619,11 @@ add_if(const Predicate& pred, MapT& object, const MapT& src)
 {
     typename MapT::const_iterator it_ = src.begin();
     while(it_ != src.end())
-        if(pred(*it_)) 
-            icl::add(object, *it_++); 
+    {
+        if(pred(*it_))
+            icl::add(object, *it_);
+        ++it_;
+    }
     
     return object;
 }
@@ -630,7 +633,7 @@ inline typename enable_if<is_interval_map<MapT>, MapT>::type&
 assign_if(const Predicate& pred, MapT& object, const MapT& src)
 {
     icl::clear(object);
-    return add_if(object, src, pred);
+    return icl::add_if(pred, object, src);
 }
 
 
-- 
2.43.0


From 47bbacc07ad12058926b6f693d7fe05fd9f9a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:36 +0000
Subject: [PATCH 14/29] fix: erase_if on element containers does not compile

---
 include/boost/icl/concept/element_associator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index 5e5da5d..87fad3f 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -472,7 +472,7 @@ erase_if(const Predicate& pred, Type& object)
     typename Type::iterator it_ = object.begin();
     while(it_ != object.end())
         if(pred(*it_))
-            icl::erase(object, it_++);
+            object.erase(it_++);
         else ++it_;
     return object;
 }
-- 
2.43.0


From 95858c85367aad7a03d5a865a8ad2738c23da5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:12 +0000
Subject: [PATCH 15/29] fix: set_at on element maps does not compile and
 ignores identity elements

---
 include/boost/icl/concept/element_map.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index b2d78ab..a96f0ea 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -199,11 +199,13 @@ set_at(Type& object, const typename Type::element_type& operand)
     typedef on_absorbtion<Type,codomain_combine,absorbs_identities<Type>::value>
                                             on_identity_absorbtion;
 
-    if(!on_identity_absorbtion::is_absorbable(operand.second))
+    if(on_identity_absorbtion::is_absorbable(operand.second))
+        object.erase(operand.first);
+    else
     {
         std::pair<iterator,bool> insertion = object.insert(operand);
         if(!insertion.second)
-            insertion->second = operand.second;
+            (*insertion.first).second = operand.second;
     }
     return object;
 }
-- 
2.43.0


From 9556c63b98f077abbc364c41d08fa366304c2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:12 +0000
Subject: [PATCH 16/29] fix: intersects and disjoint on element containers do
 not compile

---
 include/boost/icl/concept/element_associator.hpp | 2 +-
 include/boost/icl/concept/element_map.hpp        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index 87fad3f..f13025c 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -432,7 +432,7 @@ operator & (Type object, const Type& operand)
 
 template<class Type, class CoType>
 inline typename enable_if<is_associative_element_container<Type>, bool>::type
-disjoint(const Type& left, const Type& right)
+disjoint(const Type& left, const CoType& right)
 {
     return !intersects(left, right);
 }
diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index a96f0ea..b5ab63d 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -317,7 +317,7 @@ inline typename enable_if< mpl::and_< is_element_map<Type>
                          , bool>::type
 intersects(const Type& object, const typename Type::domain_type& operand)
 {
-    return icl::contains(object, operand);
+    return !(object.find(operand) == object.end());
 }
 
 template<class Type>
@@ -326,7 +326,7 @@ inline typename enable_if< mpl::and_< is_element_map<Type>
                          , bool>::type
 intersects(const Type& object, const typename Type::set_type& operand)
 {
-    if(object.iterative_size() < operand.iterative_size())
+    if(object.iterative_size() < operand.size())
         return Map::intersects(object, operand);
     else
         return Map::intersects(operand, object);
-- 
2.43.0


From 93ccdff3fedb44bc613d9eba1511d37e6ace0890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:12 +0000
Subject: [PATCH 17/29] fix: erasing and subtracting keys from element maps
 does not compile

---
 include/boost/icl/concept/element_map.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index b5ab63d..ae93ec7 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -125,7 +125,7 @@ erase(Type& object, const typename Type::set_type& erasure)
 {
     typedef typename Type::set_type set_type;
     ICL_const_FORALL(typename set_type, elem_, erasure) 
-        icl::erase(object, *elem_); 
+        object.erase(*elem_); 
 
     return object; 
 }
@@ -150,7 +150,8 @@ template <class Type>
 typename enable_if<is_element_map<Type>, Type>::type&
 subtract(Type& object, const typename Type::domain_type& key_value)
 {
-    return icl::erase(object, key_value);
+    object.erase(key_value);
+    return object;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 8f113bd28a49256409f9323cb580b1c807f43466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:12 +0000
Subject: [PATCH 18/29] fix: absorb_identities on element maps that keep
 identities

---
 include/boost/icl/concept/element_map.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index ae93ec7..4e86ed2 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -452,15 +452,18 @@ inline typename enable_if<mpl::and_< is_element_map<Type>
                                    , absorbs_identities<Type> >, Type>::type&
 absorb_identities(Type& object)
 {
-    typedef typename Type::element_type element_type;
-    return icl::erase_if(content_is_identity_element<element_type>(), object);
+    return object;
 }
 
 template<class Type>
 inline typename enable_if<mpl::and_< is_element_map<Type>
                                    , mpl::not_<absorbs_identities<Type> > >
                          , Type>::type&
-absorb_identities(Type&){}
+absorb_identities(Type& object)
+{
+    typedef typename Type::element_type element_type;
+    return icl::erase_if(content_is_identity_element<element_type>(), object);
+}
 
 //==============================================================================
 //= Streaming<ElementMap>
-- 
2.43.0


From ef239c034a914f57f09074b1aa9bf50fe2714257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:12 +0000
Subject: [PATCH 19/29] fix: icl::map range insert returns nothing

---
 include/boost/icl/map.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index d0c8ce8..04743a3 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -339,9 +339,10 @@ public:
     template<class Iterator>
     iterator insert(Iterator first, Iterator last)
     {
-        iterator prior = end(), it = first;
-        while(it != last)
-            prior = this->insert(prior, *it++);
+        iterator prior = end();
+        while(first != last)
+            prior = this->insert(prior, *first++);
+        return prior;
     }
 
     /** With <tt>key_value_pair = (k,v)</tt> set value \c v for key \c k */
-- 
2.43.0


From ee1b2a5795b25b06623cd4fcd9bda6e6abf65259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:12 +0000
Subject: [PATCH 20/29] fix: element containers lack the declaration of
 co_equal

---
 include/boost/icl/concept/element_associator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index f13025c..cd01098 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -12,6 +12,7 @@ Copyright (c) 2010-2010: Joachim Faulhaber
 #include <boost/icl/type_traits/is_associative_element_container.hpp>
 #include <boost/icl/type_traits/is_key_container_of.hpp>
 #include <boost/icl/type_traits/is_combinable.hpp>
+#include <boost/icl/detail/associated_value.hpp>
 #include <boost/icl/detail/subset_comparer.hpp>
 #include <boost/icl/concept/element_set.hpp>
 #include <boost/icl/concept/element_map.hpp>
-- 
2.43.0


From dff39ae2df1b3b34cb5900fdbee70b0a65a204af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:39 +0000
Subject: [PATCH 21/29] fix: intersects and ^= on element sets do not compile

---
 include/boost/icl/concept/element_set.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/concept/element_set.hpp b/include/boost/icl/concept/element_set.hpp
index 8db130e..aabfa9f 100644
--- a/include/boost/icl/concept/element_set.hpp
+++ b/include/boost/icl/concept/element_set.hpp
@@ -70,7 +70,7 @@ template<class Type>
 inline typename enable_if<is_element_set<Type>, bool>::type
 intersects(const Type& object, const Type& operand)
 {
-    if(iterative_size(object) < iterative_size(operand))
+    if(object.size() < operand.size())
         return Set::intersects(object, operand);
     else
         return Set::intersects(operand, object);
@@ -93,7 +93,7 @@ flip(Type& object, const typename Type::value_type& operand)
 
 template<class Type>
 inline typename enable_if<is_element_set<Type>, Type>::type&
-operator ^= (Type& object, const typename Type::element_type& operand)
+operator ^= (Type& object, const typename Type::value_type& operand)
 {
     return icl::flip(object, operand); 
 }
-- 
2.43.0


From e52d87c8591157faeb99c7ac232017e49eed7110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:28 +0000
Subject: [PATCH 22/29] fix: intersection of a partial icl::map with an element
 of empty set value

---
 include/boost/icl/map.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index 04743a3..cfd74b8 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -400,8 +400,9 @@ private:
         const_iterator it_ = find(operand.first);
         if(it_ != end())
         {
-            section.template _add<codomain_combine  >(*it_);
-            section.template _add<codomain_intersect>(operand);
+            codomain_type common_value = (*it_).second;
+            codomain_intersect()(common_value, operand.second);
+            section.template _add<codomain_combine>(element_type(operand.first, common_value));
         }
     }
 
-- 
2.43.0


From 592432c5674b000c0bfea1e108a1f9676d0d6909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:28 +0000
Subject: [PATCH 23/29] fix: subtracting identity elements from icl::map erases
 values of max and min maps

---
 include/boost/icl/map.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index cfd74b8..7c4a7b6 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -648,6 +648,9 @@ map<DomainT,CodomainT,Traits,Compare,Combine,Section,Alloc>&
     typedef typename on_absorbtion
         <type,Combiner,absorbs_identities<type>::value>::type on_absorbtion_;
 
+    if(on_absorbtion_::is_absorbable(minuend.second))
+        return *this;
+
     iterator it_ = find(minuend.first);
     if(it_ != end())
     {
-- 
2.43.0


From 9cad34e3529d9675653ffc8a018c67c67df2015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:28 +0000
Subject: [PATCH 24/29] fix: icl::map range constructors store identity
 elements in absorbing maps

---
 include/boost/icl/map.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index 7c4a7b6..b78f534 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -170,12 +170,16 @@ public:
 
     template <class InputIterator>
     map(InputIterator first, InputIterator past)
-        : base_type(first,past){}
+    {
+        insert(first, past);
+    }
 
     template <class InputIterator>
     map(InputIterator first, InputIterator past, const key_compare& comp)
-        : base_type(first,past,comp)
-    {}
+        : base_type(comp)
+    {
+        insert(first, past);
+    }
 
     map(const map& src)
         : base_type(src)
-- 
2.43.0


From b4cf3f2d034a68a9ac73d96a107d294bae051aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:28 +0000
Subject: [PATCH 25/29] fix: domain of an element map keeps the old content of
 the target

---
 include/boost/icl/concept/element_map.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index 4e86ed2..26b0b83 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -436,6 +436,7 @@ inline typename enable_if<is_element_map<Type>,
                           typename Type::set_type>::type&
 domain(typename Type::set_type& domain_set, const Type& object)
 {
+    domain_set.clear();
     typename Type::set_type::iterator prior_ = domain_set.end();
     typename Type::const_iterator it_ = object.begin();
     while(it_ != object.end())
-- 
2.43.0


From d8b3140a224daf1cc331447ec069f81922bbc8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:59 +0000
Subject: [PATCH 26/29] fix: intersects on element maps disagrees with their
 intersection

intersects(x,y) was true for maps sharing a key even if x & y is empty, which
differs from interval maps and from intersects(map, element).
---
 include/boost/icl/concept/element_map.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index 26b0b83..3b7d4a4 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -350,10 +350,9 @@ inline typename enable_if< mpl::and_< is_element_map<Type>
                          , bool>::type
 intersects(const Type& object, const Type& operand)
 {
-    if(object.iterative_size() < operand.iterative_size())
-        return Map::intersects(object, operand);
-    else
-        return Map::intersects(operand, object);
+    Type intersection;
+    icl::add_intersection(intersection, object, operand);
+    return !intersection.empty();
 }
 
 //==============================================================================
-- 
2.43.0


From b1fa96c754e47618ec055bc38685e4c4e97765ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:13 +0000
Subject: [PATCH 27/29] fix: interval containers as their own operand of +=, -=
 and ^=

---
 include/boost/icl/concept/interval_associator.hpp | 8 ++++++++
 include/boost/icl/concept/interval_map.hpp        | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/include/boost/icl/concept/interval_associator.hpp b/include/boost/icl/concept/interval_associator.hpp
index ac6cfc1..5c3167f 100644
--- a/include/boost/icl/concept/interval_associator.hpp
+++ b/include/boost/icl/concept/interval_associator.hpp
@@ -321,6 +321,10 @@ template<class Type, class OperandT>
 typename enable_if<is_intra_combinable<Type, OperandT>, Type>::type&
 operator += (Type& object, const OperandT& operand)
 {
+    // The addition of segments must not change the operand
+    if(static_cast<const void*>(&object) == static_cast<const void*>(&operand))
+        return object += OperandT(operand);
+
     typename Type::iterator prior_ = object.end();
     ICL_const_FORALL(typename OperandT, elem_, operand) 
         prior_ = icl::add(object, prior_, *elem_); 
@@ -674,6 +678,10 @@ typename enable_if<is_concept_compatible<is_interval_map, Type, OperandT>,
                    Type>::type& 
 operator -=(Type& object, const OperandT& operand)
 {
+    // The subtraction of segments must not change the operand
+    if(static_cast<const void*>(&object) == static_cast<const void*>(&operand))
+        return object -= OperandT(operand);
+
     ICL_const_FORALL(typename OperandT, elem_, operand) 
         icl::subtract(object, *elem_);
 
diff --git a/include/boost/icl/concept/interval_map.hpp b/include/boost/icl/concept/interval_map.hpp
index d421f0d..1e215d3 100644
--- a/include/boost/icl/concept/interval_map.hpp
+++ b/include/boost/icl/concept/interval_map.hpp
@@ -540,6 +540,10 @@ flip(Type& object, const OperandT& operand)
     typedef typename OperandT::const_iterator const_iterator;
     //CL typedef typename Type::codomain_type  codomain_type;
 
+    // Flipping segments must not change the operand
+    if(static_cast<const void*>(&object) == static_cast<const void*>(&operand))
+        return icl::flip(object, OperandT(operand));
+
     const_iterator common_lwb, common_upb;
 
     if(!Set::common_range(common_lwb, common_upb, operand, object))
-- 
2.43.0


From 4c46a856cedb31fb42525992d0eba3bddd60e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:13 +0000
Subject: [PATCH 28/29] fix: element containers as their own operand of +=, -=,
 erase and ^=

---
 include/boost/icl/concept/element_associator.hpp | 11 ++++++++++-
 include/boost/icl/concept/element_map.hpp        |  9 +++++++++
 include/boost/icl/concept/element_set.hpp        |  5 +++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index cd01098..6e3d5e5 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -192,8 +192,9 @@ template <class Type>
 inline typename enable_if<is_associative_element_container<Type>, Type>::type&
 operator += (Type& object, const Type& operand)
 {
+    // The addition of elements must not change the operand
     if(&object == &operand)
-        return object;
+        return object += Type(operand);
 
     typename Type::iterator prior_ = object.end();
     ICL_const_FORALL(typename Type, it_, operand)
@@ -307,6 +308,10 @@ template<class Type>
 typename enable_if<is_associative_element_container<Type>, Type>::type&
 erase(Type& object, const Type& erasure)
 {
+    // The erasure of elements must not change the operand
+    if(&object == &erasure)
+        return icl::erase(object, Type(erasure));
+
     ICL_const_FORALL(typename Type, elem_, erasure)
         icl::erase(object, *elem_);
 
@@ -336,6 +341,10 @@ template <class Type>
 inline typename enable_if<is_associative_element_container<Type>, Type>::type&
 operator -= (Type& object, const Type& subtrahend)
 {
+    // The subtraction of elements must not change the operand
+    if(&object == &subtrahend)
+        return object -= Type(subtrahend);
+
     ICL_const_FORALL(typename Type, it_, subtrahend)
         icl::subtract(object, *it_);
 
diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index 3b7d4a4..754ec03 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -393,6 +393,10 @@ inline typename enable_if< mpl::and_< is_element_map<Type>
                          , Type>::type&
 operator ^= (Type& object, const Type& operand)
 {
+    // Flipping elements must not change the operand
+    if(&object == &operand)
+        return object ^= Type(operand);
+
     ICL_const_FORALL(typename Type, it_, operand)
         icl::flip(object, *it_);
 
@@ -419,6 +423,11 @@ inline typename enable_if< mpl::and_< is_element_map<Type>
 operator ^= (Type& object, const Type& operand)
 {
     typedef typename Type::const_iterator const_iterator;
+
+    // Flipping elements must not change the operand
+    if(&object == &operand)
+        return object ^= Type(operand);
+
     const_iterator it_ = operand.begin();
     while(it_ != operand.end())
         icl::flip(object, *it_++);
diff --git a/include/boost/icl/concept/element_set.hpp b/include/boost/icl/concept/element_set.hpp
index aabfa9f..ca3d173 100644
--- a/include/boost/icl/concept/element_set.hpp
+++ b/include/boost/icl/concept/element_set.hpp
@@ -105,6 +105,11 @@ inline typename enable_if<is_element_set<Type>, Type>::type&
 operator ^= (Type& object, const Type& operand)
 {
     typedef typename Type::const_iterator const_iterator;
+
+    // Flipping elements must not change the operand
+    if(&object == &operand)
+        return object ^= Type(operand);
+
     const_iterator it_ = operand.begin();
     while(it_ != operand.end())
         icl::flip(object, *it_++);
-- 
2.43.0


From 8f901284d95b5bf7154773b571dea506cba59e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:41 +0000
Subject: [PATCH 29/29] fix: let unit_trail accept every discrete domain type

Dates, times and durations count as discrete for ICL, but are not
incrementable to argument dependent lookup. find and contains with a key
did not compile for interval containers of these types that use static
right or left open intervals.
---
 include/boost/icl/concept/interval.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index a8fc304..400db27 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -169,7 +169,8 @@ template<class Type>
 typename enable_if
 <
     mpl::and_< is_static_right_open<Type>
-             , boost::detail::is_incrementable<typename interval_traits<Type>::domain_type> >
+             , mpl::or_< is_discrete<typename interval_traits<Type>::domain_type>
+                       , boost::detail::is_incrementable<typename interval_traits<Type>::domain_type> > >
   , Type
 >::type
 unit_trail(const typename interval_traits<Type>::domain_type& value)
@@ -181,7 +182,8 @@ template<class Type>
 typename enable_if
 <
     mpl::and_< is_static_left_open<Type>
-             , boost::detail::is_incrementable<typename interval_traits<Type>::domain_type> >
+             , mpl::or_< is_discrete<typename interval_traits<Type>::domain_type>
+                       , boost::detail::is_incrementable<typename interval_traits<Type>::domain_type> > >
   , Type
 >::type
 unit_trail(const typename interval_traits<Type>::domain_type& value)
-- 
2.43.0

