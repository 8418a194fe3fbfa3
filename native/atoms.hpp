// Oracle for the small-scope searches: intervals and containers as runs of atoms.
// continuous: atom 2k is the point k, atom 2k+1 the gap behind it; discrete: atom k is the element k (k in order of the comparator).
#include <boost/icl/interval.hpp>
#include <boost/icl/discrete_interval.hpp>
#include <boost/icl/continuous_interval.hpp>
#include <boost/icl/right_open_interval.hpp>
#include <boost/icl/left_open_interval.hpp>
#include <boost/icl/closed_interval.hpp>
#include <boost/icl/open_interval.hpp>
#include <boost/icl/interval_set.hpp>
#include <boost/icl/separate_interval_set.hpp>
#include <boost/icl/split_interval_set.hpp>
#include <boost/icl/interval_map.hpp>
#include <boost/icl/split_interval_map.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <sstream>
#include <set>
#include <map>
#include <algorithm>
#include <random>
#include <unistd.h>
#include <csignal>
#include <csetjmp>
namespace icl = boost::icl;
using std::less; using std::greater;
typedef FAM I;
typedef icl::interval_traits<I>::domain_type E;
static const bool CONT = icl::is_continuous<E>::value;
static const bool NEG = std::is_same<CMP<E>, std::greater<E> >::value;
#ifndef NV
#define NV 7
#endif
enum { BASE = 20, PAD = 3 };
static const int K = CONT ? 2 : 1, NA = K*(NV + 2*PAD);
static std::string prop; static long fails = 0, checks = 0; static std::set<std::string> failed; static std::string cur; static const char* curfn = "";
static E val(int k){ return (E)(NEG ? BASE - k : BASE + k); }             // k in [-PAD, NV+PAD)
static int keyof(E v){ double d = NEG ? BASE - (double)v : (double)v - BASE; return (int)d; }
template<class T> static int bnds(const T& x, typename boost::enable_if<icl::has_dynamic_bounds<T> >::type* = 0){ return x.bounds().bits(); }
template<class T> static int bnds(const T&, typename boost::enable_if<icl::has_static_bounds<T> >::type* = 0){ return icl::interval_bound_type<T>::value; }
static int cutbelow(int k){ return K*(k+PAD); }
static int cutabove(int k){ return K*(k+PAD)+1; }
static int lo(const I& x){ int k = keyof(x.lower()); return (bnds(x)&2) ? cutbelow(k) : cutabove(k); }
static int hi(const I& x){ int k = keyof(x.upper()); return (bnds(x)&1) ? cutabove(k) : cutbelow(k); }
static int atomof(int k){ return K*(k+PAD); }
static std::string sh(const I& x){ std::ostringstream s; s << ((bnds(x)&2)?'[':'(') << +x.lower() << ',' << +x.upper() << ((bnds(x)&1)?']':')'); return s.str(); }
struct Seg { int l, u, v; bool operator==(const Seg& o) const { return l==o.l && u==o.u && v==o.v; } };
typedef std::vector<Seg> M;
static bool full(const Seg& s){ return s.l < s.u; }
template<class T> static typename boost::enable_if<icl::has_dynamic_bounds<T> >::type mk(std::vector<T>& r, int a, int b){ for(int f=0;f<4;++f) r.push_back(T(val(a), val(b), icl::interval_bounds((icl::bound_type)f))); }
template<class T> static typename boost::enable_if<icl::has_static_bounds<T> >::type mk(std::vector<T>& r, int a, int b){ r.push_back(T(val(a), val(b))); }
static std::vector<I> ivs, nonempty;
static void mkivs(){
    std::vector<I> all;
    for(int a=0;a<NV;++a) for(int b=0;b<NV;++b) if(b >= a-1) mk(all,a,b);
    for(auto& x : all){ bool e = hi(x) <= lo(x); if(!e) nonempty.push_back(x); ivs.push_back(x); }
}
static sigjmp_buf jb;
static void onabort(int s){ siglongjmp(jb,s); }
static void onalarm(int){ printf("FAIL %s: does not terminate: %s\nCHECKS %ld\n", curfn, cur.c_str(), checks); fflush(stdout); _exit(1); }
static void ck(const char* p, const char* fn, bool ok){
    if(prop != p) return; ++checks; if(ok) return; ++fails;
    if(failed.insert(fn).second) printf("FAIL %s: %s\n", fn, cur.c_str());
}
template<class F> static void guard(const char* p, const char* fn, F f){
    if(prop != p) return; curfn = fn; alarm(20);
    int s = sigsetjmp(jb,1);
    if(s == 0) f(); else { cur += s == SIGABRT ? " (assertion)" : " (signal)"; ck(p, fn, false); if(fails > 20) { printf("CHECKS %ld\n", checks); _exit(1); } }
}
static void install(){ signal(SIGABRT,onabort); signal(SIGSEGV,onabort); signal(SIGFPE,onabort); signal(SIGALRM,onalarm); int fd = dup(2); (void)fd; freopen("/dev/null","w",stderr); setvbuf(stdout,0,_IOLBF,0); }
static std::mt19937 rng;
static int rnd(int n){ return (int)(rng() % (unsigned)n); }
static const I& anyiv(){ return ivs[rnd(ivs.size())]; }
static const I& someiv(){ return nonempty[rnd(nonempty.size())]; }
