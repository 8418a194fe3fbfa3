// Bounded search: interval maps against a model of segments over a small domain.
#include <boost/icl/set.hpp>
#include "atoms.hpp"
#ifdef SETSEM
typedef std::set<int> V;
static V mkv(int c){ V r; for(int i=0;i<3;++i) if(c>>i&1) r.insert(i); return r; }
static int enc(const V& v){ int c=0; for(int i : v) c|=1<<i; return c; }
static std::string shv(const V& v){ return std::to_string(enc(v)); }
static V g_plus(V a, const V& b){ a.insert(b.begin(),b.end()); return a; }
static V g_minus(V a, const V& b){ for(int i : b) a.erase(i); return a; }
static V g_sect(V a, const V& b){ return mkv(enc(a)&enc(b)); }
static bool vle(const V& a, const V& b){ return std::includes(b.begin(),b.end(),a.begin(),a.end()); }
static V g_xor(V a, const V& b){ return mkv(enc(a)^enc(b)); }
static const bool SETS = true;
#else
typedef int V;
static V mkv(int c){ return c; }
static std::string shv(V v){ return std::to_string(v); }
static const bool SETS = false;
static const bool MAX = std::is_same<icl::COMB<V>, icl::inplace_max<V> >::value;
static V g_plus(V a, V b){ return MAX ? std::max(a,b) : a+b; }
static V g_minus(V a, V b){ return MAX ? std::min(a,b) : a-b; }
static V g_sect(V a, V b){ return g_plus(a,b); }
static bool vle(V a, V b){ return a==b; }
static V g_xor(V, V){ return V(); }
#endif
typedef icl::MAPT<E, V, icl::TRAITS, CMP, icl::COMB, icl::inter_section, I> IM;
typedef icl::interval_set<E, CMP, I> JS; typedef icl::split_interval_set<E, CMP, I> SS;
typedef IM::segment_type SEG; typedef IM::element_type EL;
static const bool ABS = icl::TRAITS::absorbs_identities, TOT = icl::TRAITS::is_total, JOIN = !icl::is_interval_splitter<IM>::value;
static const V ID = V();
struct G { int l, u; V v; bool operator==(const G& o) const { return l==o.l && u==o.u && v==o.v; } };
typedef std::vector<G> MM;
struct C { bool d; V v; C():d(false),v(){} C(bool e, V w):d(e),v(e?w:V()){} bool operator==(const C& o) const { return d==o.d && v==o.v; } };
typedef std::vector<C> A; typedef std::vector<char> B;
static MM model(const IM& s){ MM m; for(auto& x : s){ G g = {lo(x.first),hi(x.first),x.second}; m.push_back(g); } return m; }
static std::string shm(const IM& s){ std::string r="{"; for(auto& x : s) r += "("+sh(x.first)+"->"+shv(x.second)+")"; return r+"}"; }
static A atoms(const MM& m){ A a(NA); for(auto& g : m) for(int i=g.l;i<g.u;++i) if(i>=0&&i<NA) a[i]=C(true,g.v); return a; }
static B iat(const I& x){ B a(NA,0); for(int i=lo(x);i<hi(x);++i) if(i>=0&&i<NA) a[i]=1; return a; }
template<class T> static B sat(const T& s){ B a(NA,0); for(auto& x : s) for(int i=lo(x);i<hi(x);++i) if(i>=0&&i<NA) a[i]=1; return a; }
template<class T> static std::string shs(const T& s){ std::string r="{"; for(auto& x : s) r += sh(x); return r+"}"; }
static bool wf(const IM& s){ MM m = model(s); for(size_t i=0;i<m.size();++i){ if(m[i].l >= m[i].u) return false; if(ABS && m[i].v==ID) return false; if(i && (m[i-1].u > m[i].l || (JOIN && m[i-1].u == m[i].l && m[i-1].v==m[i].v))) return false; } return true; }
static C norm(C c){ return ABS && c.d && c.v==ID ? C() : c; }
static C c_add(C x, V v){ if(ABS && v==ID) return x; return norm(C(true, x.d ? g_plus(x.v,v) : v)); }
static C c_sub(C x, V v){ if(ABS && v==ID) return x; if(TOT) return norm(C(true, g_minus(x.d?x.v:ID, v))); return x.d ? norm(C(true,g_minus(x.v,v))) : x; }
static C c_ins(C x, V v){ if(x.d || (ABS && v==ID)) return x; return C(true,v); }
static C c_set(C, V v){ return norm(C(true,v)); }
static C c_ers(C x, V v){ if(ABS && v==ID) return x; return x.d && x.v==v ? C() : x; }
static C c_and(C x, V v){ if(TOT) return c_add(x,v); if(!x.d) return x; if(ABS && v==ID) return SETS ? C() : x; return norm(C(true,g_sect(x.v,v))); }
static C c_flp(C x, V v){ if(!x.d) return norm(C(true,v)); return norm(C(true, SETS ? g_xor(x.v,v) : ID)); }
template<class F> static A ap(const A& a, const B& b, V v, F f){ A r=a; for(int i=0;i<NA;++i) if(b[i]) r[i]=f(a[i],v); return r; }
template<class F> static A ap2(const A& a, const A& b, F f){ A r=a; for(int i=0;i<NA;++i) if(b[i].d) r[i]=f(a[i],b[i].v); return r; }
static A restr(const A& a, const B& b, bool in){ A r=a; for(int i=0;i<NA;++i) if((bool)b[i]!=in) r[i]=C(); return r; }
static B dom(const A& a){ B r(NA); for(int i=0;i<NA;++i) r[i]=a[i].d; return r; }
static bool any(const B& a){ for(char c : a) if(c) return true; return false; }
static bool any(const A& a){ return any(dom(a)); }
static MM cutat(const MM& m, int c){ MM r; for(auto& g : m) if(g.l < c && c < g.u){ G x=g,y=g; x.u=c; y.l=c; r.push_back(x); r.push_back(y);} else r.push_back(g); return r; }
static bool bylow(const G& a, const G& b){ return a.l < b.l; }
template<class F> static MM mcomb(const MM& m, const I& x, V v, F f, bool cut, bool cutall){            // borders of a splitting combination
    int l=lo(x), u=hi(x); if(l>=u || (ABS && v==ID)) return m; MM r = cut ? cutat(cutat(m,l),u) : m, o; (void)cutall; int p=l; MM gaps;
    for(auto& g : r){ if(g.u>l && g.l<u){ if(p<g.l) gaps.push_back(G{p,g.l,ID}); p=std::max(p,g.u); C c = f(C(true,g.v),v); if(g.l>=l&&g.u<=u){ if(c.d) o.push_back(G{g.l,g.u,c.v}); } else o.push_back(g); } else o.push_back(g); }
    if(p<u) gaps.push_back(G{p,u,ID});
    for(auto& g : gaps){ C c = f(C(),v); if(c.d) o.push_back(G{g.l,g.u,c.v}); }
    std::sort(o.begin(),o.end(),bylow); return o;
}
static V rndv(){ return mkv(SETS ? rnd(8) : rnd(4)==0 ? 0 : 1+rnd(3)); }
static V opv(){ return mkv(SETS ? rnd(8) : TOT ? rnd(5)-2 : rnd(4)); }
static IM rndmap(int n){ IM s; for(int i=rnd(n+1);i>0;--i) switch(rnd(6)){ case 0: s.erase(someiv()); break; case 1: s.insert(SEG(someiv(),rndv())); break; case 2: s.subtract(SEG(someiv(),opv())); break; default: s.add(SEG(someiv(),rndv())); } return s; }
template<class F> static void mod(const char* p, const char* fn, const IM& s, const std::string& arg, const A& want, F f){
    guard(p, fn, [&]{ cur = shm(s) + " " + arg; IM t = s; f(t); cur += " -> " + shm(t); ck(p, fn, wf(t)); ck(p, fn, atoms(model(t)) == want); });
}
template<class F> static void seg(const char* fn, const IM& s, const std::string& arg, const MM& want, F f){
    guard("M07", fn, [&]{ cur = shm(s) + " " + arg; IM t = s; f(t); cur += " -> " + shm(t); ck("M07", fn, model(t) == want); });
}
template<class F> static void qry(const char* p, const char* fn, const std::string& what, F f){ guard(p, fn, [&]{ cur = what; ck(p, fn, f()); }); }
static void segment(const IM& s, const I& x, V v){
    const A a = atoms(model(s)); const B b = iat(x); const MM m = model(s); std::string q = sh(x)+"->"+shv(v), qi = sh(x); const SEG sg(x,v);
    A ad=ap(a,b,v,c_add), sb=ap(a,b,v,c_sub), in=ap(a,b,v,c_ins), er=ap(a,b,v,c_ers), st=ap(a,b,v,c_set), ei=restr(a,b,false);
    mod("M01","add",s,q,ad,[&](IM& t){ t.add(sg); }); mod("M01","icl::add",s,q,ad,[&](IM& t){ icl::add(t,sg); }); mod("M01","+=",s,q,ad,[&](IM& t){ t += sg; }); mod("M01","|=",s,q,ad,[&](IM& t){ t |= sg; }); mod("M01","+",s,q,ad,[&](IM& t){ t = t + sg; });
    mod("M01","ctor",s,q,ap(A(NA),b,v,c_add),[&](IM& t){ t = IM(sg); });
    if(prop == "M01") for(size_t i=0;i<=m.size();++i) mod("M01","hinted add",s,q,ad,[&](IM& t){ auto h=t.begin(); std::advance(h,i); t.add(h,sg); });
    mod("M02","subtract",s,q,sb,[&](IM& t){ t.subtract(sg); }); mod("M02","-=",s,q,sb,[&](IM& t){ t -= sg; }); mod("M02","icl::subtract",s,q,sb,[&](IM& t){ icl::subtract(t,sg); });
    mod("M03","insert",s,q,in,[&](IM& t){ t.insert(sg); }); mod("M03","icl::insert",s,q,in,[&](IM& t){ icl::insert(t,sg); }); mod("M03","set",s,q,st,[&](IM& t){ t.set(sg); }); mod("M03","set_at",s,q,st,[&](IM& t){ icl::set_at(t,sg); });
    if(prop == "M03") for(size_t i=0;i<=m.size();++i) mod("M03","hinted insert",s,q,in,[&](IM& t){ auto h=t.begin(); std::advance(h,i); t.insert(h,sg); });
    mod("M04","erase",s,q,er,[&](IM& t){ t.erase(sg); }); mod("M04","icl::erase",s,q,er,[&](IM& t){ icl::erase(t,sg); });
    mod("M04","erase(interval)",s,qi,ei,[&](IM& t){ t.erase(x); }); mod("M04","icl::erase(interval)",s,qi,ei,[&](IM& t){ icl::erase(t,x); }); mod("M04","-= interval",s,qi,ei,[&](IM& t){ t -= x; }); mod("M04","icl::subtract(interval)",s,qi,ei,[&](IM& t){ icl::subtract(t,x); });
    A nd = TOT ? ad : restr(ap(a,b,v,c_and),b,true), ni = restr(a,b,true), fl = TOT ? ad : ap(a,b,v,c_flp); if(TOT) for(auto& c : fl) c = ABS ? C() : C(c.d,ID);
    mod("M05","&=",s,q,nd,[&](IM& t){ t &= sg; }); mod("M05","add_intersection",s,q,nd,[&](IM& t){ IM r; icl::add_intersection(r,t,sg); t=r; }); mod("M05","&= interval",s,qi,ni,[&](IM& t){ t &= x; }); mod("M05","add_intersection(interval)",s,qi,ni,[&](IM& t){ IM r; icl::add_intersection(r,t,x); t=r; });
    mod("M05","flip",s,q,fl,[&](IM& t){ t.flip(sg); }); mod("M05","^=",s,q,fl,[&](IM& t){ t ^= sg; });
    if(prop == "M07" && !JOIN){
        seg("borders of add",s,q,mcomb(m,x,v,c_add,true,true),[&](IM& t){ t.add(sg); }); seg("borders of insert",s,q,mcomb(m,x,v,c_ins,false,false),[&](IM& t){ t.insert(sg); });
        seg("borders of erase(interval)",s,qi,mcomb(m,x,mkv(1),[](C,V){ return C(); },true,true),[&](IM& t){ t.erase(x); });
        if(prop == "M07") for(size_t i=0;i<=m.size();++i) seg("borders of hinted add",s,q,mcomb(m,x,v,c_add,true,true),[&](IM& t){ auto h=t.begin(); std::advance(h,i); t.add(h,sg); });
        bool ov=false; for(auto& g : m) if(g.u>lo(x)&&g.l<hi(x)) ov=true;
        if(!TOT && ov) seg("borders of subtract",s,q,mcomb(m,x,v,c_sub,true,true),[&](IM& t){ t.subtract(sg); });
    }
    if(prop != "M06") return;
    std::string w = shm(s)+" "+q, wi = shm(s)+" "+qi; bool all=true, alld=true; for(int i=0;i<NA;++i) if(b[i]){ if(!(a[i]==C(true,v))) all=false; if(!a[i].d) alld=false; }
    qry("M06","contains",w,[&]{ return icl::contains(s,sg)==all; }); qry("M06","within",w,[&]{ return icl::within(sg,s)==all; });
    qry("M06","intersects",w,[&]{ return icl::intersects(s,sg)==(TOT || any(nd)); }); qry("M06","disjoint",w,[&]{ return icl::disjoint(s,sg)==!(TOT || any(nd)); });
    qry("M06","contains(interval)",wi,[&]{ return icl::contains(s,x)==(TOT || alld) && icl::within(x,s)==(TOT || alld); });
    qry("M06","intersects(interval)",wi,[&]{ return icl::intersects(s,x)==any(ni) && icl::disjoint(s,x)!=any(ni); });
    if(!any(b)) return;
    int f=-1, lb=m.size(), ub=m.size(); for(int i=(int)m.size()-1;i>=0;--i){ if(m[i].u>lo(x) && m[i].l<hi(x)) f=i; if(m[i].u>lo(x)) lb=i; if(m[i].l>=hi(x)) ub=i; }
    qry("M06","find(interval)",wi,[&]{ auto r=s.find(x); return f<0 ? r==s.end() : std::distance(s.begin(),r)==f; });
    qry("M06","lower_bound",wi,[&]{ return std::distance(s.begin(),s.lower_bound(x))==lb; }); qry("M06","upper_bound",wi,[&]{ return std::distance(s.begin(),s.upper_bound(x))==ub; });
}
static void single(const IM& s){
    const A a = atoms(model(s)); const MM m = model(s); std::string w = shm(s);
    mod("M04","clear",s,"",A(NA),[&](IM& t){ t.clear(); });
    if(prop == "M04") for(size_t i=0;i<m.size();++i){ A d=a; for(int j=m[i].l;j<m[i].u;++j) d[j]=C(); mod("M04","erase(iterator)",s,"",d,[&](IM& t){ auto p=t.begin(); std::advance(p,i); t.erase(p); }); }
    if(prop == "M04") mod("M04","erase_if",s,"",[&]{ A d=a; for(auto& c : d) if(c.d && c.v==mkv(1)) c=C(); return d; }(),[&](IM& t){ icl::erase_if([](const IM::value_type& p){ return p.second==mkv(1); }, t); });
    qry("M06","is_empty",w,[&]{ return icl::is_empty(s)==m.empty() && s.empty()==m.empty(); });
    qry("M06","hull",w,[&]{ I h = icl::hull(s); return m.empty() ? !any(iat(h)) : lo(h)==m.front().l && hi(h)==m.back().u; });
    if(!m.empty()) qry("M06","lower/upper",w,[&]{ I f=s.begin()->first, l=s.rbegin()->first; return icl::lower(s)==f.lower() && icl::upper(s)==l.upper(); });
#ifdef DISC
    if(!m.empty()) qry("M06","first/last",w,[&]{ return atomof(keyof(icl::first(s)))==m.front().l && atomof(keyof(icl::last(s)))==m.back().u-1; });
    long c=0; for(auto& x : a) c+=x.d;
    qry("M11","cardinality",w,[&]{ return (long)icl::cardinality(s)==c && (long)s.size()==c && (long)icl::size(s)==c; });
    qry("M11","length",w,[&]{ return (long)icl::length(s)==c; });
#else
    double len=0; for(auto& x : s) len += NEG ? (double)x.first.lower()-(double)x.first.upper() : (double)x.first.upper()-(double)x.first.lower();
    qry("M11","length",w,[&]{ return (double)icl::length(s)==len; });
#endif
    qry("M11","iterative_size",w,[&]{ return icl::iterative_size(s)==m.size() && icl::interval_count(s)==m.size(); });
    if(prop == "M10"){
        MM j; for(auto& g : m) if(!j.empty() && j.back().u==g.l && j.back().v==g.v) j.back().u=g.u; else j.push_back(g);
        qry("M10","copy",w,[&]{ IM t(s); return model(t)==m; }); qry("M10","assign",w,[&]{ IM t=rndmap(3); t=s; return model(t)==m; }); qry("M10","move",w,[&]{ IM q(s); IM t(std::move(q)); return model(t)==m; });
        qry("M10","swap",w,[&]{ IM q=rndmap(3), t(s); MM b=model(q); t.swap(q); return model(t)==b && model(q)==m; });
        qry("M10","join",w,[&]{ IM t(s); icl::join(t); return model(t)==j; });
        qry("M10","domain",w,[&]{ JS t; icl::domain(t,s); SS z; icl::domain(z,s); return sat(t)==dom(a) && sat(z)==dom(a); });
        qry("M10","between",w,[&]{ JS t; t.add(someiv()); icl::between(t,s); B h(NA,0); if(!m.empty()) for(int i=m.front().l;i<m.back().u;++i) h[i]=!a[i].d; return sat(t)==h; });
        qry("M10","other style",w,[&]{ icl::interval_map<E,V,icl::TRAITS,CMP,icl::COMB,icl::inter_section,I> p; icl::split_interval_map<E,V,icl::TRAITS,CMP,icl::COMB,icl::inter_section,I> r; p += s; r += s; A pa(NA), ra(NA); for(auto& g : p) for(int i=lo(g.first);i<hi(g.first);++i) pa[i]=C(true,g.second); for(auto& g : r) for(int i=lo(g.first);i<hi(g.first);++i) ra[i]=C(true,g.second); return pa==a && ra==a; });
    }
#ifdef ELEM
    for(int k=0;k<NV;++k){
        const E e = val(k); B b(NA,0); b[atomof(k)]=1; C c = a[atomof(k)]; V v = opv(); if(c.d && rnd(3)==0) v=c.v; const EL el(e,v); std::ostringstream o; o << +e << "->" << shv(v); std::string q=o.str(), u=w+" "+q;
        A ad=ap(a,b,v,c_add); A nd = TOT ? ad : restr(ap(a,b,v,c_and),b,true); A fl = TOT ? ad : ap(a,b,v,c_flp); if(TOT) for(auto& z : fl) z = ABS ? C() : C(z.d,ID);
        mod("M01","add element",s,q,ad,[&](IM& t){ t.add(el); }); mod("M01","+= element",s,q,ad,[&](IM& t){ t += el; });
        mod("M02","subtract element",s,q,ap(a,b,v,c_sub),[&](IM& t){ t.subtract(el); }); mod("M02","-= element",s,q,ap(a,b,v,c_sub),[&](IM& t){ t -= el; });
        mod("M03","insert element",s,q,ap(a,b,v,c_ins),[&](IM& t){ t.insert(el); }); mod("M03","set element",s,q,ap(a,b,v,c_set),[&](IM& t){ t.set(el); });
        mod("M04","erase element",s,q,ap(a,b,v,c_ers),[&](IM& t){ t.erase(el); }); mod("M04","erase key",s,q,restr(a,b,false),[&](IM& t){ t.erase(e); }); mod("M04","subtract key",s,q,restr(a,b,false),[&](IM& t){ icl::subtract(t,e); });
        mod("M05","&= element",s,q,nd,[&](IM& t){ t &= el; }); mod("M05","flip element",s,q,fl,[&](IM& t){ t.flip(el); });
#ifndef NOKEYSECT
        mod("M05","&= key",s,q,restr(a,b,true),[&](IM& t){ t &= e; });
#endif
        if(prop != "M06") continue;
        qry("M06","contains element",u,[&]{ return icl::contains(s,el)==(c==C(true,v)); });
        qry("M06","contains key",u,[&]{ return icl::contains(s,e)==(TOT||c.d); });
        qry("M06","intersects key",u,[&]{ return icl::intersects(s,e)==(TOT||c.d); });
        qry("M06","intersects element",u,[&]{ return icl::intersects(s,el)==(TOT||any(nd)); });
        qry("M06","operator()",u,[&]{ return s(e)==(c.d?c.v:ID); });
        qry("M06","find element",u,[&]{ auto r=s.find(e); auto z=icl::find(s,e); return r==z && (c.d ? r!=s.end() && iat(r->first)[atomof(k)] && r->second==c.v : r==s.end()); });
    }
#endif
}
template<class T> static void mapset(const IM& s, const T& t){
    const A a=atoms(model(s)); const B b=sat(t); std::string q=shs(t), w=shm(s)+" "+q;
    mod("M09","-= set",s,q,restr(a,b,false),[&](IM& x){ x -= t; }); mod("M09","erase set",s,q,restr(a,b,false),[&](IM& x){ icl::erase(x,t); }); mod("M09","&= set",s,q,restr(a,b,true),[&](IM& x){ x &= t; });
    mod("M09","- set",s,q,restr(a,b,false),[&](IM& x){ x = x - t; }); mod("M09","& set",s,q,restr(a,b,true),[&](IM& x){ x = x & t; });
    mod("M09","add_intersection set",s,q,restr(a,b,true),[&](IM& x){ IM r; icl::add_intersection(r,x,t); x=r; });
    if(prop != "M08") return;
    bool all=true; for(int i=0;i<NA;++i) if(b[i] && !a[i].d) all=false;
#ifndef TOTAL
    qry("M08","contains(key set)",w,[&]{ return icl::contains(s,t)==all; });
#endif
    qry("M08","intersects(key set)",w,[&]{ return icl::intersects(s,t)==any(restr(a,b,true)) && icl::disjoint(s,t)!=any(restr(a,b,true)); });
}
static void pair(const IM& s, const IM& t){
    const A a=atoms(model(s)), b=atoms(model(t)); std::string q=shm(t), w=shm(s)+" "+q;
    A ad=ap2(a,b,c_add); A nd; if(TOT) nd=ad; else nd=restr(ap2(a,b,c_and),dom(b),true); A fl=TOT?ad:ap2(a,b,c_flp); if(TOT) for(auto& z : fl) z = ABS ? C() : C(z.d,ID);
    mod("M09","+=",s,q,ad,[&](IM& x){ x += t; }); mod("M09","|=",s,q,ad,[&](IM& x){ x |= t; }); mod("M09","+",s,q,ad,[&](IM& x){ x = x + t; });
    mod("M09","-=",s,q,ap2(a,b,c_sub),[&](IM& x){ x -= t; }); mod("M09","-",s,q,ap2(a,b,c_sub),[&](IM& x){ x = x - t; });
    mod("M09","erase",s,q,ap2(a,b,c_ers),[&](IM& x){ icl::erase(x,t); }); mod("M09","insert",s,q,ap2(a,b,c_ins),[&](IM& x){ icl::insert(x,t); });
    mod("M09","&=",s,q,nd,[&](IM& x){ x &= t; }); mod("M09","&",s,q,nd,[&](IM& x){ x = x & t; }); mod("M09","^=",s,q,fl,[&](IM& x){ x ^= t; }); mod("M09","^",s,q,fl,[&](IM& x){ x = x ^ t; });
    mod("M09","add_intersection",s,q,nd,[&](IM& x){ IM r; icl::add_intersection(r,x,t); x=r; });
    if(prop == "M08"){
        bool sub=true, sup=true, deq=true; for(int i=0;i<NA;++i){ if(b[i].d && !(a[i].d && vle(b[i].v,a[i].v))) sub=false; if(a[i].d && !(b[i].d && vle(a[i].v,b[i].v))) sup=false; }
        MM pm, pn; for(auto& g : model(s)) if(!(g.v==ID)) pm.push_back(g); for(auto& g : model(t)) if(!(g.v==ID)) pn.push_back(g); deq = pm==pn;
        if(!TOT){ qry("M08","contains",w,[&]{ return icl::contains(s,t)==sub; }); qry("M08","within",w,[&]{ return icl::within(s,t)==sup; });
        qry("M08","inclusion_compare",w,[&]{ int c=icl::inclusion_compare(s,t); return c==(sub && sup ? icl::inclusion::equal : sub ? icl::inclusion::superset : sup ? icl::inclusion::subset : icl::inclusion::unrelated); }); }
        qry("M08","intersects",w,[&]{ return icl::intersects(s,t)==(TOT||any(nd)) && icl::disjoint(s,t)!=(TOT||any(nd)); });
        qry("M08","==",w,[&]{ return (s==t)==(model(s)==model(t)) && (s!=t)!=(model(s)==model(t)); });
        qry("M08","is_element_equal",w,[&]{ return icl::is_element_equal(s,t)==(a==b); });
        qry("M08","is_distinct_equal",w,[&]{ return icl::is_distinct_equal(s,t)==deq; });
        qry("M08","<",w,[&]{ MM m=model(s), n=model(t); bool l=std::lexicographical_compare(m.begin(),m.end(),n.begin(),n.end(),[](const G& p, const G& z){ bool lt = p.l<z.l || (p.l==z.l && p.u<z.u), gt = z.l<p.l || (p.l==z.l && z.u<p.u); return lt || (!gt && p.v < z.v); }); return NEG || ((s<t)==l && (t>s)==l && (t<=s)!=l && (s>=t)!=l); });
    }
}
int main(int, char** av){
    prop = av[1]; const char* sd = getenv("VERIF_SEED"); const char* ti = getenv("VERIF_TIER"); bool deep = ti && !strcmp(ti,"thorough");
    rng.seed(sd ? atoi(sd) : 1); mkivs(); install();
    IM e; single(e); for(auto& x : ivs) segment(e,x,opv());
    bool p2 = prop=="M08" || prop=="M09"; bool p1 = prop=="M10" || prop=="M11";
    long n = (deep ? 10 : 1) * (p2 ? 40000 : p1 ? 8000 : ivs.size() > 60 ? 300 : 1000);
    for(long i=0;i<n && fails<200;++i){
        IM s = rndmap(7);
        if(p2){ IM t = rndmap(5); if(rnd(2)==0){ t = s; for(int j=rnd(3);j>0;--j) switch(rnd(4)){ case 0: t.add(SEG(someiv(),rndv())); break; case 1: t.erase(someiv()); break; case 2: if(!t.iterative_size()) break; { auto p=t.begin(); std::advance(p,rnd(t.iterative_size())); t.set(SEG(p->first,rndv())); } break; default: t.subtract(SEG(someiv(),opv())); } } pair(s,t);
            JS k; SS z; for(int j=rnd(4);j>0;--j){ I x=someiv(); k.add(x); z.add(x); } if(rnd(3)==0 && s.iterative_size()){ auto p=s.begin(); std::advance(p,rnd(s.iterative_size())); k.clear(); k.add(p->first); } mapset(s,k); mapset(s,z); continue; }
        single(s); if(p1) continue;
        for(auto& x : ivs){ V v = opv(); if(rnd(3)==0) for(auto& g : s) if(!(hi(x)<=lo(g.first)||hi(g.first)<=lo(x))){ v=g.second; if(rnd(2)) break; } segment(s,x,v); }
    }
    printf("CHECKS %ld\n", checks); return fails ? 1 : 0;
}
