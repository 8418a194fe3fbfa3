// Small-scope search for a concrete failing input of the interval functions (replay of failed obligations).
// Compiled against /repo with the same -D flags as tu/iv.cpp.  argv: property, extra bound values...
#include <boost/icl/interval.hpp>
#include <boost/icl/discrete_interval.hpp>
#include <boost/icl/continuous_interval.hpp>
#include <boost/icl/right_open_interval.hpp>
#include <boost/icl/left_open_interval.hpp>
#include <boost/icl/closed_interval.hpp>
#include <boost/icl/open_interval.hpp>
#include <boost/icl/interval_set.hpp>
#include <boost/icl/interval_map.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <sstream>
#include <limits>
#include <set>
#include <csignal>
#include <csetjmp>
namespace icl = boost::icl;
typedef FAM I;
typedef icl::interval_traits<I>::domain_type E;
typedef icl::interval_traits<I>::domain_compare CMPT;
typedef long double L;
#ifndef NEGF
#define NEGF 0
#endif
static const bool CONT = icl::is_continuous<E>::value;
static const bool DYNB = icl::has_dynamic_bounds<I>::value;
static std::string prop; static long fails = 0, checks = 0; static std::set<std::string> failed;
static std::string cur; static std::string curfn;
static L key(E v){ return NEGF ? -(L)v : (L)v; }
struct Cut{ L v; int e; };                 // discrete: e == 0 always and v is the first element above
static bool lt(Cut a, Cut b){ return a.v < b.v || (a.v == b.v && a.e < b.e); }
static bool le(Cut a, Cut b){ return !lt(b,a); }
static bool eq(Cut a, Cut b){ return !lt(a,b) && !lt(b,a); }
static Cut below(L x){ Cut c = {x,0}; return c; }
static Cut above(L x){ Cut c; if(CONT){ c.v=x; c.e=1; } else { c.v=x+1; c.e=0; } return c; }
template<class T> static int bnds(const T& x, typename boost::enable_if<icl::has_dynamic_bounds<T> >::type* = 0){ return x.bounds().bits(); }
template<class T> static int bnds(const T&, typename boost::enable_if<icl::has_static_bounds<T> >::type* = 0){ return icl::interval_bound_type<T>::value; }
static Cut low(const I& x){ return (bnds(x)&2) ? below(key(x.lower())) : above(key(x.lower())); }
static Cut up(const I& x){ return (bnds(x)&1) ? above(key(x.upper())) : below(key(x.upper())); }
static bool emp(const I& x){ return le(up(x),low(x)); }
static Cut mn(Cut a, Cut b){ return lt(b,a)?b:a; }
static Cut mx(Cut a, Cut b){ return lt(a,b)?b:a; }
static std::string sh(const I& x){ std::ostringstream s; s.precision(17); s << ((bnds(x)&2)?'[':'(') << +x.lower() << ',' << +x.upper() << ((bnds(x)&1)?']':')'); return s.str(); }
static void ck(const char* p, const char* fn, bool ok){
    if(prop != p) return; ++checks; if(ok) return; ++fails;
    std::string k = fn; if(failed.insert(k).second) printf("FAIL %s: %s\n", fn, cur.c_str());
}
static bool is(const I& r, Cut l, Cut u){ return (emp(r) && le(u,l)) || (eq(low(r),l) && eq(up(r),u)); }
static bool same(const I& a, const I& b){ return is(a, low(b), up(b)); }
static sigjmp_buf jb;
static void onabort(int){ siglongjmp(jb,1); }
template<class F> static void guard(const char* p, const char* fn, F f){
    if(prop != p) return; curfn = fn;
    if(sigsetjmp(jb,1) == 0) f(); else { ck(p, fn, false); signal(SIGABRT,onabort); }
}
template<class T> static T mk(E a, E b, int bd, typename boost::enable_if<icl::has_dynamic_bounds<T> >::type* = 0){ return icl::construct<T>(a,b,icl::interval_bounds((icl::bound_type)bd)); }
template<class T> static T mk(E a, E b, int, typename boost::enable_if<icl::has_static_bounds<T> >::type* = 0){ return icl::construct<T>(a,b); }
static L lenof(const I& x){ return emp(x) ? 0 : CONT ? key(x.upper())-key(x.lower()) : up(x).v-low(x).v; }
#define G(p,fn,...) guard(p,fn,[&]{ __VA_ARGS__; })
static void unary(const I& a, const std::vector<E>& vs){
    cur = sh(a);
    G("I01","is_empty", ck("I01","is_empty", icl::is_empty(a) == emp(a)));
    for(E x : vs){ std::ostringstream s; s << sh(a) << " contains " << +x; cur = s.str();
        G("I01","contains(element)", ck("I01","contains(element)", icl::contains(a,x) == (le(low(a),below(key(x))) && le(above(key(x)),up(a))))); }
    cur = sh(a);
#ifdef DISC
    if(!emp(a)){
        G("I01","first", ck("I01","first", key(icl::first(a)) == low(a).v));
        G("I01","last", ck("I01","last", key(icl::last(a)) == up(a).v-1));
        G("I01","last_next", ck("I01","last_next", key(icl::last_next(a)) == up(a).v));
    }
#endif
    if(CONT || lenof(a) <= (L)std::numeric_limits<E>::max()){
        G("I04","length", ck("I04","length", (L)icl::length(a) == lenof(a)));
        G("I04","cardinality", L n = (L)icl::cardinality(a); ck("I04","cardinality", CONT ? (emp(a) ? n==0 : (key(a.lower())==key(a.upper()) ? n==1 : n==(L)(std::numeric_limits<std::size_t>::max)())) : n==lenof(a)));
        G("I04","size", ck("I04","size", icl::size(a) == icl::cardinality(a)));
    }
}
static void binary(const I& a, const I& b){
    cur = sh(a) + " , " + sh(b);
    bool ea = emp(a), eb = emp(b), ne = !ea && !eb;
    bool exl = ea || eb || le(up(a),low(b));
    bool lts = ne && (lt(low(a),low(b)) || (eq(low(a),low(b)) && lt(up(a),up(b))));
    bool gts = ne && (lt(low(b),low(a)) || (eq(low(b),low(a)) && lt(up(b),up(a))));
    bool eqs = (ea && eb) || (eq(low(a),low(b)) && eq(up(a),up(b)));
    bool con = eb || (le(low(a),low(b)) && le(up(b),up(a)));
    bool ncon = ea || (le(low(b),low(a)) && le(up(a),up(b)));
    bool inter = ne && lt(low(a),up(b)) && lt(low(b),up(a));
    if(prop == "I02"){
        G("I02","operator ==", ck("I02","operator ==", (a==b)==eqs)); G("I02","operator !=", ck("I02","operator !=", (a!=b)==!eqs));
        G("I02","operator <", ck("I02","operator <", (a<b)==lts)); G("I02","operator >", ck("I02","operator >", (a>b)==gts));
        G("I02","operator <=", ck("I02","operator <=", (a<=b)==(ne && !gts))); G("I02","operator >=", ck("I02","operator >=", (a>=b)==(ne && !lts)));
        G("I02","exclusive_less", ck("I02","exclusive_less", icl::exclusive_less(a,b)==exl));
        G("I02","contains(interval)", ck("I02","contains(interval)", icl::contains(a,b)==con));
        G("I02","within", ck("I02","within", icl::within(a,b)==ncon));
        G("I02","intersects", ck("I02","intersects", icl::intersects(a,b)==inter));
        G("I02","disjoint", ck("I02","disjoint", icl::disjoint(a,b)==!inter));
        if(ne){
            G("I02","comparator", ck("I02","comparator", icl::exclusive_less_than<I>()(a,b)==exl));
            G("I02","lower_less", ck("I02","lower_less", icl::lower_less(a,b)==lt(low(a),low(b))));
            G("I02","lower_equal", ck("I02","lower_equal", icl::lower_equal(a,b)==eq(low(a),low(b))));
            G("I02","lower_less_equal", ck("I02","lower_less_equal", icl::lower_less_equal(a,b)==le(low(a),low(b))));
            G("I02","upper_less", ck("I02","upper_less", icl::upper_less(a,b)==lt(up(a),up(b))));
            G("I02","upper_equal", ck("I02","upper_equal", icl::upper_equal(a,b)==eq(up(a),up(b))));
            G("I02","upper_less_equal", ck("I02","upper_less_equal", icl::upper_less_equal(a,b)==le(up(a),up(b))));
            G("I02","touches", ck("I02","touches", icl::touches(a,b)==eq(up(a),low(b))));
        }
    }
    if(prop == "I03"){
        G("I03","operator &", I r = a & b; ck("I03","operator &", ne ? is(r,mx(low(a),low(b)),mn(up(a),up(b))) : emp(r)));
        G("I03","hull", I r = icl::hull(a,b); ck("I03","hull", ea ? same(r,b) : eb ? same(r,a) : is(r,mn(low(a),low(b)),mx(up(a),up(b)))));
        G("I03","left_subtract", I r = icl::left_subtract(a,b); ck("I03","left_subtract", ne ? is(r,mx(low(a),up(b)),up(a)) : same(r,a)));
        G("I03","right_subtract", I r = icl::right_subtract(a,b); ck("I03","right_subtract", ne ? is(r,low(a),mn(up(a),low(b))) : same(r,a)));
        G("I03","inner_complement", I r = icl::inner_complement(a,b);
            ck("I03","inner_complement", !ne ? emp(r) : le(up(a),low(b)) ? is(r,up(a),low(b)) : le(up(b),low(a)) ? is(r,up(b),low(a)) : emp(r)));
        G("I03","between", ck("I03","between", same(icl::between(a,b), icl::inner_complement(a,b))));
    }
    if(prop == "I04"){
        L g = !ne ? 0 : lt(up(a),low(b)) ? (CONT ? key(b.lower())-key(a.upper()) : low(b).v-up(a).v)
                      : lt(up(b),low(a)) ? (CONT ? key(a.lower())-key(b.upper()) : low(a).v-up(b).v) : 0;
        if(CONT || g + 1 <= (L)std::numeric_limits<E>::max())
            G("I04","distance", ck("I04","distance", (L)icl::distance(a,b) == g));
    }
}
static void construct(E a, E b){
    std::ostringstream s; s << +a << " , " << +b; cur = s.str();
    L ka = key(a), kb = key(b), lo = ka < kb ? ka : kb, hi = ka < kb ? kb : ka;
    int sb = DYNB ? 2 : bnds(I());
    G("I01","construct", I r = icl::construct<I>(a,b); ck("I01","construct", is(r, (sb&2)?below(ka):above(ka), (sb&1)?above(kb):below(kb))));
    G("I01","span", I r = icl::span<I>(a,b); ck("I01","span", is(r, (sb&2)?below(lo):above(lo), (sb&1)?above(hi):below(hi))));
    G("I01","hull of two elements", I r = icl::hull<I>(a,b); Cut u = above(hi); if(CONT && !DYNB) u = below(hi+1); ck("I01","hull of two elements", is(r, below(lo), u)));
    G("I01","unit_trail", I r = icl::detail::unit_trail<I>(a); Cut u = above(ka); if(CONT && !DYNB) u = below(ka+1); ck("I01","unit_trail", is(r, below(ka), u)));
    G("I01","default constructor", I r; ck("I01","default constructor", emp(r)));
#if defined(DISC) || defined(DYN)
    G("I01","constructor from element", I r(a); ck("I01","constructor from element", is(r, below(ka), above(ka))));
#endif
#ifdef STATICSING
    G("I01","singleton", I r = icl::singleton<I>(a); ck("I01","singleton", is(r, below(ka), above(ka))));
#endif
#ifdef DYN
    for(int d = 0; d < 4; ++d) G("I01","construct with bounds", I r = icl::construct<I>(a,b,icl::interval_bounds((icl::bound_type)d));
        ck("I01","construct with bounds", bnds(r)==d && is(r, (d&2)?below(ka):above(ka), (d&1)?above(kb):below(kb))));
    G("I01","right_open factory", ck("I01","right_open factory", is(I::right_open(a,b), below(ka), below(kb))));
    G("I01","left_open factory", ck("I01","left_open factory", is(I::left_open(a,b), above(ka), above(kb))));
    G("I01","open factory", ck("I01","open factory", is(I::open(a,b), above(ka), below(kb))));
    G("I01","closed factory", ck("I01","closed factory", is(I::closed(a,b), below(ka), above(kb))));
#endif
#ifdef FACTORY
    typedef icl::interval<E, CMP> J;
    G("I01","interval<>::right_open", ck("I01","interval<>::right_open", is(J::right_open(a,b), below(ka), below(kb))));
    G("I01","interval<>::left_open", ck("I01","interval<>::left_open", is(J::left_open(a,b), above(ka), above(kb))));
    G("I01","interval<>::open", ck("I01","interval<>::open", is(J::open(a,b), above(ka), below(kb))));
    G("I01","interval<>::closed", ck("I01","interval<>::closed", is(J::closed(a,b), below(ka), above(kb))));
#endif
}
int main(int argc, char** argv){
    prop = argv[1]; signal(SIGABRT,onabort); freopen("/dev/null","w",stderr);
    std::set<L> vals; L base = std::numeric_limits<E>::is_signed ? 0 : 5;
    for(int i = -3; i <= 3; ++i) vals.insert(base + i);
    if(CONT){ vals.insert(0.5); vals.insert(-0.25); }
    else { vals.insert((L)std::numeric_limits<E>::min()+2); vals.insert((L)std::numeric_limits<E>::max()-2); }
    for(int i = 2; i < argc; ++i) vals.insert(strtold(argv[i],0));
    std::vector<E> vs;
    for(L v : vals) if(CONT || (v >= (L)std::numeric_limits<E>::min()+2 && v <= (L)std::numeric_limits<E>::max()-2)) vs.push_back((E)v);
    std::vector<I> is_;
    for(E a : vs) for(E b : vs){ construct(a,b); for(int d = 0; d < (DYNB?4:1); ++d) is_.push_back(mk<I>(a,b,d)); }
    for(const I& a : is_) unary(a,vs);
    if(prop != "I01") for(const I& a : is_) for(const I& b : is_) binary(a,b);
    printf("CHECKS %ld FAILS %ld\n", checks, fails);
    return fails ? 1 : 0;
}
