// Proof entry points for the interval maps: each wrapper only calls the public function.
#include <boost/icl/interval.hpp>
#include <boost/icl/discrete_interval.hpp>
#include <boost/icl/continuous_interval.hpp>
#include <boost/icl/right_open_interval.hpp>
#include <boost/icl/left_open_interval.hpp>
#include <boost/icl/closed_interval.hpp>
#include <boost/icl/open_interval.hpp>
#include <boost/icl/interval_set.hpp>
#include <boost/icl/separate_interval_set.hpp>
#include <boost/icl/split_interval_set.hpp>
#include <boost/icl/interval_map.hpp>
#include <boost/icl/split_interval_map.hpp>
namespace icl = boost::icl;
using std::less; using std::greater;
// opaque codomain: its operations are uninterpreted functions in the proofs
struct V { int h; V() : h(0) {} };
V& operator += (V&, const V&); V& operator -= (V&, const V&); V& operator &= (V&, const V&); V& operator ^= (V&, const V&); V& operator |= (V&, const V&);
V operator ~ (const V&); bool operator < (const V&, const V&); bool operator > (const V&, const V&);
bool operator == (const V&, const V&); inline bool operator != (const V& a, const V& b){ return !(a == b); }
namespace boost { namespace icl {
#ifdef INVERTIBLE
template<> struct has_inverse<V>{ typedef has_inverse<V> type; static const bool value = true; };
#endif
#ifdef SETSEM
template<> struct has_set_semantics<V>{ typedef has_set_semantics<V> type; static const bool value = true; };
#endif
}}
typedef FAM I;
typedef icl::interval_traits<I>::domain_type E;
typedef icl::MAPT<E, V, icl::TRAITS, CMP, icl::COMB, icl::inter_section, I> M;
typedef icl::interval_set<E, CMP, I> JS;
typedef icl::SETT<E, CMP, I> S;
typedef M::iterator IT;
typedef M::const_iterator CIT;
typedef M::segment_type SEG;
typedef M::element_type EL;
typedef icl::difference_type_of<icl::interval_traits<I> >::type D;
#define X extern "C"
X void m_default(M* r){ new (r) M(); }
X void m_ctor(M* r, const SEG& a){ new (r) M(a); }
X void m_copy(M* r, const M& a){ new (r) M(a); }
X void m_move(M* r, M& a){ new (r) M(static_cast<M&&>(a)); }
X void m_assign(M& r, const M& a){ r = a; }
X void m_swap(M& r, M& a){ r.swap(a); }
X void m_clear(M& m){ m.clear(); }
X bool m_is_empty(const M& m){ return icl::is_empty(m); }
X bool m_empty(const M& m){ return m.empty(); }
X M* m_add(M& m, const SEG& a){ return &m.add(a); }
X IT m_addh(M& m, IT h, const SEG& a){ return m.add(h,a); }
X M* m_icl_add(M& m, const SEG& a){ return &icl::add(m,a); }
X M* m_plus(M& m, const SEG& a){ return &(m += a); }
X M* m_pipe(M& m, const SEG& a){ return &(m |= a); }
X M* m_sub(M& m, const SEG& a){ return &m.subtract(a); }
X M* m_icl_sub(M& m, const SEG& a){ return &icl::subtract(m,a); }
X M* m_minus(M& m, const SEG& a){ return &(m -= a); }
X M* m_insert(M& m, const SEG& a){ return &m.insert(a); }
X IT m_inserth(M& m, IT h, const SEG& a){ return m.insert(h,a); }
X M* m_icl_insert(M& m, const SEG& a){ return &icl::insert(m,a); }
X M* m_set(M& m, const SEG& a){ return &m.set(a); }
X M* m_set_at(M& m, const SEG& a){ return &icl::set_at(m,a); }
X M* m_erase(M& m, const SEG& a){ return &m.erase(a); }
X M* m_icl_erase(M& m, const SEG& a){ return &icl::erase(m,a); }
X M* m_erase_i(M& m, const I& a){ return &m.erase(a); }
X M* m_icl_erase_i(M& m, const I& a){ return &icl::erase(m,a); }
X M* m_icl_sub_i(M& m, const I& a){ return &icl::subtract(m,a); }
X M* m_minus_i(M& m, const I& a){ return &(m -= a); }
X void m_erase_it(M& m, IT p){ m.erase(p); }
X void m_erase_its(M& m, IT p, IT q){ m.erase(p,q); }
X M* m_and(M& m, const SEG& a){ return &(m &= a); }
X M* m_and_i(M& m, const I& a){ return &(m &= a); }
X void m_add_intersection(M& r, const M& m, const SEG& a){ icl::add_intersection(r,m,a); }
X void m_add_intersection_i(M& r, const M& m, const I& a){ icl::add_intersection(r,m,a); }
X M* m_flip(M& m, const SEG& a){ return &m.flip(a); }
X M* m_caret(M& m, const SEG& a){ return &(m ^= a); }
X bool m_contains(const M& m, const SEG& a){ return icl::contains(m,a); }
X bool m_contains_i(const M& m, const I& a){ return icl::contains(m,a); }
X bool m_within_i(const I& a, const M& m){ return icl::within(a,m); }
X bool m_within(const SEG& a, const M& m){ return icl::within(a,m); }
X bool m_intersects(const M& m, const SEG& a){ return icl::intersects(m,a); }
X bool m_intersects_i(const M& m, const I& a){ return icl::intersects(m,a); }
X bool m_disjoint(const M& m, const SEG& a){ return icl::disjoint(m,a); }
X bool m_disjoint_i(const M& m, const I& a){ return icl::disjoint(m,a); }
X CIT m_find_i(const M& m, const I& a){ return m.find(a); }
X CIT m_lower_bound(const M& m, const I& a){ return m.lower_bound(a); }
X CIT m_upper_bound(const M& m, const I& a){ return m.upper_bound(a); }
X void m_hull(I* r, const M& m){ *r = icl::hull(m); }
X void m_lower(E* r, const M& m){ *r = icl::lower(m); }
X void m_upper(E* r, const M& m){ *r = icl::upper(m); }
#ifdef DISC
X void m_first(E* r, const M& m){ *r = icl::first(m); }
X void m_last(E* r, const M& m){ *r = icl::last(m); }
X std::size_t m_cardinality(const M& m){ return icl::cardinality(m); }
X std::size_t m_size(const M& m){ return m.size(); }
#endif
X D m_length(const M& m){ return icl::length(m); }
X std::size_t m_iterative_size(const M& m){ return icl::iterative_size(m); }
X std::size_t m_interval_count(const M& m){ return icl::interval_count(m); }
#ifdef ELEM
X M* m_add_e(M& m, const EL& a){ return &m.add(a); }
X M* m_plus_e(M& m, const EL& a){ return &(m += a); }
X M* m_sub_e(M& m, const EL& a){ return &m.subtract(a); }
X M* m_minus_e(M& m, const EL& a){ return &(m -= a); }
X M* m_insert_e(M& m, const EL& a){ return &m.insert(a); }
X M* m_set_e(M& m, const EL& a){ return &m.set(a); }
X M* m_erase_e(M& m, const EL& a){ return &m.erase(a); }
X M* m_erase_k(M& m, const E& a){ return &m.erase(a); }
X M* m_sub_k(M& m, const E& a){ return &icl::subtract(m,a); }
X M* m_and_e(M& m, const EL& a){ return &(m &= a); }
X M* m_and_k(M& m, const E& a){ return &(m &= a); }
X M* m_flip_e(M& m, const EL& a){ return &m.flip(a); }
X bool m_contains_e(const M& m, const EL& a){ return icl::contains(m,a); }
X bool m_contains_k(const M& m, const E& a){ return icl::contains(m,a); }
X bool m_intersects_e(const M& m, const EL& a){ return icl::intersects(m,a); }
X bool m_intersects_k(const M& m, const E& a){ return icl::intersects(m,a); }
X CIT m_find_k(const M& m, const E& a){ return m.find(a); }
X CIT m_icl_find_k(const M& m, const E& a){ return icl::find(m,a); }
X void m_call(V* r, const M& m, const E& a){ *r = m(a); }
#endif
// maps with maps
X M* mm_plus(M& m, const M& a){ return &(m += a); }
X M* mm_pipe(M& m, const M& a){ return &(m |= a); }
X M* mm_minus(M& m, const M& a){ return &(m -= a); }
X M* mm_erase(M& m, const M& a){ return &icl::erase(m,a); }
X M* mm_insert(M& m, const M& a){ return &icl::insert(m,a); }
X M* mm_and(M& m, const M& a){ return &(m &= a); }
X M* mm_caret(M& m, const M& a){ return &(m ^= a); }
X void mm_add_intersection(M& r, const M& m, const M& a){ icl::add_intersection(r,m,a); }
X bool mm_contains(const M& m, const M& a){ return icl::contains(m,a); }
X bool mm_within(const M& m, const M& a){ return icl::within(m,a); }
X bool mm_intersects(const M& m, const M& a){ return icl::intersects(m,a); }
X bool mm_disjoint(const M& m, const M& a){ return icl::disjoint(m,a); }
X bool mm_eq(const M& m, const M& a){ return m == a; }
X bool mm_ne(const M& m, const M& a){ return m != a; }
X bool mm_elem_eq(const M& m, const M& a){ return icl::is_element_equal(m,a); }
X bool mm_distinct_eq(const M& m, const M& a){ return icl::is_distinct_equal(m,a); }
X int mm_inclusion(const M& m, const M& a){ return icl::inclusion_compare(m,a); }
X M* mm_join(M& m){ return &icl::join(m); }
// maps with sets of keys
X M* ms_minus(M& m, const S& a){ return &(m -= a); }
X M* ms_erase(M& m, const S& a){ return &icl::erase(m,a); }
X M* ms_and(M& m, const S& a){ return &(m &= a); }
X void ms_add_intersection(M& r, const M& m, const S& a){ icl::add_intersection(r,m,a); }
#ifndef TOTAL
X bool ms_contains(const M& m, const S& a){ return icl::contains(m,a); }
#endif
X bool ms_intersects(const M& m, const S& a){ return icl::intersects(m,a); }
X bool ms_disjoint(const M& m, const S& a){ return icl::disjoint(m,a); }
X void ms_domain(S& r, const M& a){ icl::domain(r,a); }
X void ms_between(S& r, const M& a){ icl::between(r,a); }
