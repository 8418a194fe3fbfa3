// Proof entry points for the interval sets: each wrapper only calls the public function.
#include <boost/icl/interval.hpp>
#include <boost/icl/discrete_interval.hpp>
#include <boost/icl/continuous_interval.hpp>
#include <boost/icl/right_open_interval.hpp>
#include <boost/icl/left_open_interval.hpp>
#include <boost/icl/closed_interval.hpp>
#include <boost/icl/open_interval.hpp>
#include <boost/icl/interval_set.hpp>
#include <boost/icl/separate_interval_set.hpp>
#include <boost/icl/split_interval_set.hpp>
#include <boost/icl/interval_map.hpp>
namespace icl = boost::icl;
using std::less; using std::greater;
typedef FAM I;
typedef icl::interval_traits<I>::domain_type E;
typedef icl::SETT<E, CMP, I> S;
typedef S::iterator IT;
typedef S::const_iterator CIT;
typedef icl::difference_type_of<icl::interval_traits<I> >::type D;
#define X extern "C"
X void s_default(S* r){ new (r) S(); }
X void s_ctor_i(S* r, const I& a){ new (r) S(a); }
X void s_copy(S* r, const S& a){ new (r) S(a); }
X void s_move(S* r, S& a){ new (r) S(static_cast<S&&>(a)); }
X void s_assign(S& r, const S& a){ r = a; }
X void s_swap(S& r, S& a){ r.swap(a); }
X void s_clear(S& s){ s.clear(); }
X bool s_is_empty(const S& s){ return icl::is_empty(s); }
X bool s_empty(const S& s){ return s.empty(); }
X S* s_add(S& s, const I& a){ return &s.add(a); }
X S* s_insert(S& s, const I& a){ return &s.insert(a); }
X S* s_icl_add(S& s, const I& a){ return &icl::add(s,a); }
X S* s_icl_insert(S& s, const I& a){ return &icl::insert(s,a); }
X S* s_plus(S& s, const I& a){ return &(s += a); }
X S* s_pipe(S& s, const I& a){ return &(s |= a); }
X IT s_addh(S& s, IT h, const I& a){ return s.add(h,a); }
X IT s_inserth(S& s, IT h, const I& a){ return s.insert(h,a); }
X S* s_sub(S& s, const I& a){ return &s.subtract(a); }
X S* s_erase(S& s, const I& a){ return &s.erase(a); }
X S* s_minus(S& s, const I& a){ return &(s -= a); }
X S* s_icl_erase(S& s, const I& a){ return &icl::erase(s,a); }
X S* s_flip(S& s, const I& a){ return &s.flip(a); }
X S* s_caret(S& s, const I& a){ return &(s ^= a); }
X S* s_and_i(S& s, const I& a){ return &(s &= a); }
X void s_erase_it(S& s, IT p){ s.erase(p); }
X void s_add_intersection_i(S& r, const S& s, const I& a){ icl::add_intersection(r,s,a); }
X bool s_contains_i(const S& s, const I& a){ return icl::contains(s,a); }
X bool s_within_i(const I& a, const S& s){ return icl::within(a,s); }
X bool s_intersects_i(const S& s, const I& a){ return icl::intersects(s,a); }
X bool s_disjoint_i(const S& s, const I& a){ return icl::disjoint(s,a); }
X CIT s_find_i(const S& s, const I& a){ return s.find(a); }
X void s_hull(I* r, const S& s){ *r = icl::hull(s); }
X void s_lower(E* r, const S& s){ *r = icl::lower(s); }
X void s_upper(E* r, const S& s){ *r = icl::upper(s); }
#ifdef DISC
X void s_first(E* r, const S& s){ *r = icl::first(s); }
X void s_last(E* r, const S& s){ *r = icl::last(s); }
#endif
X CIT s_lower_bound(const S& s, const I& a){ return s.lower_bound(a); }
X CIT s_upper_bound(const S& s, const I& a){ return s.upper_bound(a); }
#ifdef ELEM
X S* s_add_e(S& s, const E& a){ return &s.add(a); }
X S* s_insert_e(S& s, const E& a){ return &s.insert(a); }
X S* s_plus_e(S& s, const E& a){ return &(s += a); }
X S* s_sub_e(S& s, const E& a){ return &s.subtract(a); }
X S* s_erase_e(S& s, const E& a){ return &s.erase(a); }
X S* s_minus_e(S& s, const E& a){ return &(s -= a); }
X S* s_flip_e(S& s, const E& a){ return &s.flip(a); }
X S* s_and_e(S& s, const E& a){ return &(s &= a); }
X bool s_contains_e(const S& s, const E& a){ return icl::contains(s,a); }
X CIT s_find_e(const S& s, const E& a){ return s.find(a); }
X CIT s_icl_find_e(const S& s, const E& a){ return icl::find(s,a); }
X bool s_intersects_e(const S& s, const E& a){ return icl::intersects(s,a); }
X bool s_disjoint_e(const S& s, const E& a){ return icl::disjoint(s,a); }
X bool s_within_e(const E& a, const S& s){ return icl::within(a,s); }
#endif
// sets with sets
X S* ss_plus(S& s, const S& a){ return &(s += a); }
X S* ss_pipe(S& s, const S& a){ return &(s |= a); }
X S* ss_minus(S& s, const S& a){ return &(s -= a); }
X S* ss_erase(S& s, const S& a){ return &icl::erase(s,a); }
X S* ss_and(S& s, const S& a){ return &(s &= a); }
X S* ss_caret(S& s, const S& a){ return &(s ^= a); }
X void ss_add_intersection(S& r, const S& s, const S& a){ icl::add_intersection(r,s,a); }
X bool ss_contains(const S& s, const S& a){ return icl::contains(s,a); }
X bool ss_within(const S& s, const S& a){ return icl::within(s,a); }
X bool ss_intersects(const S& s, const S& a){ return icl::intersects(s,a); }
X bool ss_disjoint(const S& s, const S& a){ return icl::disjoint(s,a); }
X bool ss_eq(const S& s, const S& a){ return s == a; }
X bool ss_ne(const S& s, const S& a){ return s != a; }
X bool ss_lt(const S& s, const S& a){ return s < a; }
X bool ss_elem_eq(const S& s, const S& a){ return icl::is_element_equal(s,a); }
X int ss_inclusion(const S& s, const S& a){ return icl::inclusion_compare(s,a); }
X S* ss_join(S& s){ return &icl::join(s); }
X void ss_domain(S& r, const S& a){ icl::domain(r,a); }
X void ss_between(S& r, const S& a){ icl::between(r,a); }
#ifdef DISC
X std::size_t s_cardinality(const S& s){ return icl::cardinality(s); }
X std::size_t s_size(const S& s){ return s.size(); }
#endif
X D s_length(const S& s){ return icl::length(s); }
X std::size_t s_iterative_size(const S& s){ return icl::iterative_size(s); }
X std::size_t s_interval_count(const S& s){ return icl::interval_count(s); }
