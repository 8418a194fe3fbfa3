// Proof entry points for the interval classes: each wrapper only calls the public function.
#include <boost/icl/interval.hpp>
#include <boost/icl/discrete_interval.hpp>
#include <boost/icl/continuous_interval.hpp>
#include <boost/icl/right_open_interval.hpp>
#include <boost/icl/left_open_interval.hpp>
#include <boost/icl/closed_interval.hpp>
#include <boost/icl/open_interval.hpp>
#include <boost/icl/interval_set.hpp>
#include <boost/icl/interval_map.hpp>
namespace icl = boost::icl;
#ifndef FAM
#error FAM
#endif
FAMDEF
typedef FAM I;
typedef icl::interval_traits<I>::domain_type E;
typedef icl::difference_type_of<icl::interval_traits<I> >::type D;
#define X extern "C"
X void u_default(I* r){ new (r) I(); }
X void u_construct(I* r, const E& a, const E& b){ *r = icl::construct<I>(a,b); }
X void u_singleton(I* r, const E& a){ *r = icl::detail::unit_trail<I>(a); }
X void u_span(I* r, const E& a, const E& b){ *r = icl::span<I>(a,b); }
X void u_hull_ee(I* r, const E& a, const E& b){ *r = icl::hull<I>(a,b); }
X void u_lower(E* r, const I& a){ *r = icl::lower(a); }
X void u_upper(E* r, const I& a){ *r = icl::upper(a); }
X bool u_is_empty(const I& a){ return icl::is_empty(a); }
X bool u_contains_e(const I& a, const E& x){ return icl::contains(a,x); }
X bool u_contains_i(const I& a, const I& b){ return icl::contains(a,b); }
X bool u_within(const I& a, const I& b){ return icl::within(a,b); }
X bool u_eq(const I& a, const I& b){ return a == b; }
X bool u_ne(const I& a, const I& b){ return a != b; }
X bool u_lt(const I& a, const I& b){ return a < b; }
X bool u_gt(const I& a, const I& b){ return a > b; }
X bool u_le(const I& a, const I& b){ return a <= b; }
X bool u_ge(const I& a, const I& b){ return a >= b; }
X bool u_exclusive_less(const I& a, const I& b){ return icl::exclusive_less(a,b); }
X bool u_ne_exclusive_less(const I& a, const I& b){ return icl::non_empty::exclusive_less(a,b); }
X bool u_comparator(const I& a, const I& b){ return icl::exclusive_less_than<I>()(a,b); }
X bool u_lower_less(const I& a, const I& b){ return icl::lower_less(a,b); }
X bool u_lower_equal(const I& a, const I& b){ return icl::lower_equal(a,b); }
X bool u_lower_less_equal(const I& a, const I& b){ return icl::lower_less_equal(a,b); }
X bool u_upper_less(const I& a, const I& b){ return icl::upper_less(a,b); }
X bool u_upper_equal(const I& a, const I& b){ return icl::upper_equal(a,b); }
X bool u_upper_less_equal(const I& a, const I& b){ return icl::upper_less_equal(a,b); }
X bool u_touches(const I& a, const I& b){ return icl::touches(a,b); }
X bool u_intersects(const I& a, const I& b){ return icl::intersects(a,b); }
X bool u_disjoint(const I& a, const I& b){ return icl::disjoint(a,b); }
X void u_and(I* r, const I& a, const I& b){ *r = a & b; }
X void u_hull(I* r, const I& a, const I& b){ *r = icl::hull(a,b); }
X void u_left_subtract(I* r, const I& a, const I& b){ *r = icl::left_subtract(a,b); }
X void u_right_subtract(I* r, const I& a, const I& b){ *r = icl::right_subtract(a,b); }
X void u_inner_complement(I* r, const I& a, const I& b){ *r = icl::inner_complement(a,b); }
X void u_between(I* r, const I& a, const I& b){ *r = icl::between(a,b); }
X void u_cardinality(icl::size_type_of<icl::interval_traits<I> >::type* r, const I& a){ *r = icl::cardinality(a); }
X void u_size(icl::size_type_of<icl::interval_traits<I> >::type* r, const I& a){ *r = icl::size(a); }
X void u_length(D* r, const I& a){ *r = icl::length(a); }
X void u_distance(D* r, const I& a, const I& b){ *r = icl::distance(a,b); }
#ifdef DISC
X void u_first(E* r, const I& a){ *r = icl::first(a); }
X void u_last(E* r, const I& a){ *r = icl::last(a); }
X void u_last_next(E* r, const I& a){ *r = icl::last_next(a); }
#endif
#ifdef STATICSING
X void u_singleton2(I* r, const E& a){ *r = icl::singleton<I>(a); }
#endif
#ifdef DYN
X void u_construct_b(I* r, const E& a, const E& b, const icl::interval_bounds& bd){ *r = icl::construct<I>(a,b,bd); }
X void u_right_open(I* r, const E& a, const E& b){ *r = I::right_open(a,b); }
X void u_left_open(I* r, const E& a, const E& b){ *r = I::left_open(a,b); }
X void u_open(I* r, const E& a, const E& b){ *r = I::open(a,b); }
X void u_closed(I* r, const E& a, const E& b){ *r = I::closed(a,b); }
X void u_ctor1(I* r, const E& a){ new (r) I(a); }
#elif defined(DISC)
X void u_ctor1(I* r, const E& a){ new (r) I(a); }
#endif
#ifdef FACTORY
X void u_f_right_open(I* r, const E& a, const E& b){ *r = icl::interval<E, CMP>::right_open(a,b); }
X void u_f_left_open(I* r, const E& a, const E& b){ *r = icl::interval<E, CMP>::left_open(a,b); }
X void u_f_open(I* r, const E& a, const E& b){ *r = icl::interval<E, CMP>::open(a,b); }
X void u_f_closed(I* r, const E& a, const E& b){ *r = icl::interval<E, CMP>::closed(a,b); }
#endif
