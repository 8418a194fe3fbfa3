// Bounded search: interval sets against a model of segments over a small domain.
#include "atoms.hpp"
typedef icl::SETT<E, CMP, I> S;
static const bool JOIN = icl::is_interval_joiner<S>::value && !icl::is_interval_separator<S>::value, SEP = icl::is_interval_separator<S>::value, SPLIT = icl::is_interval_splitter<S>::value;
static M model(const S& s){ M m; for(auto& x : s){ Seg g = {lo(x),hi(x),1}; m.push_back(g); } return m; }
static std::string shs(const S& s){ std::string r="{"; for(auto& x : s) r += sh(x); return r+"}"; }
typedef std::vector<char> A;
static A atoms(const M& m){ A a(NA,0); for(auto& g : m) for(int i=g.l;i<g.u;++i) if(i>=0&&i<NA) a[i]=1; return a; }
static A iat(const I& x){ A a(NA,0); for(int i=lo(x);i<hi(x);++i) if(i>=0&&i<NA) a[i]=1; return a; }
static bool wf(const S& s){ M m = model(s); for(size_t i=0;i<m.size();++i){ if(!full(m[i])) return false; if(i && (JOIN ? m[i-1].u >= m[i].l : m[i-1].u > m[i].l)) return false; } return true; }
template<class F> static A op2(const A& a, const A& b, F f){ A r(NA); for(int i=0;i<NA;++i) r[i] = f(a[i],b[i]); return r; }
static A uni(const A& a, const A& b){ return op2(a,b,[](char x,char y){return (char)(x|y);}); }
static A dif(const A& a, const A& b){ return op2(a,b,[](char x,char y){return (char)(x&!y);}); }
static A its(const A& a, const A& b){ return op2(a,b,[](char x,char y){return (char)(x&y);}); }
static A sym(const A& a, const A& b){ return op2(a,b,[](char x,char y){return (char)(x^y);}); }
static bool any(const A& a){ for(char c : a) if(c) return true; return false; }
static M cutat(const M& m, int c){ M r; for(auto& g : m) if(g.l < c && c < g.u){ Seg x=g,y=g; x.u=c; y.l=c; r.push_back(x); r.push_back(y);} else r.push_back(g); return r; }
static bool bylow(const Seg& a, const Seg& b){ return a.l < b.l; }
static M madd(const M& m, const I& x){
    int l=lo(x), u=hi(x); if(l>=u) return m; M r;
    if(SPLIT){ r = cutat(cutat(m,l),u); int p=l; M gaps; for(auto& g : r) if(g.u>l && g.l<u){ if(p<g.l){ Seg y={p,g.l,1}; gaps.push_back(y);} p=g.u; } if(p<u){ Seg y={p,u,1}; gaps.push_back(y);} r.insert(r.end(),gaps.begin(),gaps.end()); std::sort(r.begin(),r.end(),bylow); return r; }
    Seg n={l,u,1}; for(auto& g : m) if(JOIN ? (g.u>=l && g.l<=u) : (g.u>l && g.l<u)){ n.l=std::min(n.l,g.l); n.u=std::max(n.u,g.u);} else r.push_back(g);
    r.push_back(n); std::sort(r.begin(),r.end(),bylow); return r;
}
static M msub(const M& m, const I& x){ int l=lo(x), u=hi(x); if(l>=u) return m; M r; for(auto& g : cutat(cutat(m,l),u)) if(!(g.l>=l && g.u<=u)) r.push_back(g); return r; }
static S rndset(int n){ S s; for(int i=rnd(n+1);i>0;--i){ if(rnd(4)) s.add(someiv()); else s.subtract(someiv()); } return s; }
template<class F> static void mod(const char* p, const char* fn, const S& s, const std::string& arg, const A& want, F f){
    guard(p, fn, [&]{ cur = shs(s) + " " + arg; S t = s; f(t); cur += " -> " + shs(t); ck(p, fn, wf(t)); ck(p, fn, atoms(model(t)) == want); });
}
template<class F> static void seg(const char* fn, const S& s, const std::string& arg, const M& want, F f){
    guard("S04", fn, [&]{ cur = shs(s) + " " + arg; S t = s; f(t); cur += " -> " + shs(t); ck("S04", fn, model(t) == want); });
}
template<class F> static void qry(const char* p, const char* fn, const std::string& what, F f){ guard(p, fn, [&]{ cur = what; ck(p, fn, f()); }); }
static void segment(const S& s, const I& x){
    const A a = atoms(model(s)), b = iat(x); const M m = model(s); std::string q = sh(x);
    A u = uni(a,b), d = dif(a,b), n = its(a,b), y = sym(a,b);
    mod("S01","add",s,q,u,[&](S& t){ t.add(x); }); mod("S01","insert",s,q,u,[&](S& t){ t.insert(x); });
    mod("S01","icl::add",s,q,u,[&](S& t){ icl::add(t,x); }); mod("S01","icl::insert",s,q,u,[&](S& t){ icl::insert(t,x); });
    mod("S01","+=",s,q,u,[&](S& t){ t += x; }); mod("S01","|=",s,q,u,[&](S& t){ t |= x; }); mod("S01","+",s,q,u,[&](S& t){ t = t + x; });
    mod("S01","ctor",s,q,b,[&](S& t){ t = S(x); });
    if(prop == "S01") for(size_t i=0;i<=m.size();++i) mod("S01","hinted add",s,q,u,[&](S& t){ auto h=t.begin(); std::advance(h,i); auto r = t.add(h,x); ck("S01","hinted add result", full(Seg{lo(x),hi(x),0}) ? r != t.end() && its(iat(*r), b) == its(b, iat(*r)) : true); if(rnd(2)) (void)r; });
    if(prop == "S01") for(size_t i=0;i<=m.size();++i) mod("S01","hinted insert",s,q,u,[&](S& t){ auto h=t.begin(); std::advance(h,i); t.insert(h,x); });
    mod("S02","subtract",s,q,d,[&](S& t){ t.subtract(x); }); mod("S02","erase",s,q,d,[&](S& t){ t.erase(x); });
    mod("S02","-=",s,q,d,[&](S& t){ t -= x; }); mod("S02","icl::erase",s,q,d,[&](S& t){ icl::erase(t,x); }); mod("S02","icl::subtract",s,q,d,[&](S& t){ icl::subtract(t,x); });
    mod("S03","&=",s,q,n,[&](S& t){ t &= x; }); mod("S03","flip",s,q,y,[&](S& t){ t.flip(x); }); mod("S03","^=",s,q,y,[&](S& t){ t ^= x; });
    mod("S03","add_intersection",s,q,n,[&](S& t){ S r; icl::add_intersection(r,t,x); t = r; });
    seg("segmentation of add",s,q,madd(m,x),[&](S& t){ t.add(x); }); seg("segmentation of subtract",s,q,msub(m,x),[&](S& t){ t.subtract(x); });
    if(prop == "S04") for(size_t i=0;i<=m.size();++i) seg("segmentation of hinted add",s,q,madd(m,x),[&](S& t){ auto h=t.begin(); std::advance(h,i); t.add(h,x); });
    if(prop != "S05") return;
    std::string w = shs(s) + " " + q;
    qry("S05","contains",w,[&]{ return icl::contains(s,x) == !any(dif(b,a)); }); qry("S05","within",w,[&]{ return icl::within(x,s) == !any(dif(b,a)); });
    qry("S05","intersects",w,[&]{ return icl::intersects(s,x) == any(n); }); qry("S05","disjoint",w,[&]{ return icl::disjoint(s,x) == !any(n); });
    if(!any(b)) return;
    int f=-1, lb=m.size(), ub=m.size(); for(int i=(int)m.size()-1;i>=0;--i){ if(m[i].u>lo(x) && m[i].l<hi(x)) f=i; if(m[i].u>lo(x)) lb=i; if(m[i].l>=hi(x)) ub=i; }
    qry("S05","find(segment)",w,[&]{ auto r=s.find(x); return f<0 ? r==s.end() : std::distance(s.begin(),r)==f; });
    qry("S05","lower_bound",w,[&]{ return std::distance(s.begin(),s.lower_bound(x))==lb; }); qry("S05","upper_bound",w,[&]{ return std::distance(s.begin(),s.upper_bound(x))==ub; });
}
static void single(const S& s){
    const A a = atoms(model(s)); const M m = model(s); std::string w = shs(s);
    mod("S02","clear",s,"",A(NA,0),[&](S& t){ t.clear(); });
    if(prop == "S02") for(size_t i=0;i<m.size();++i){ A d=a; for(int j=m[i].l;j<m[i].u;++j) d[j]=0; mod("S02","erase(iterator)",s,"",d,[&](S& t){ auto p=t.begin(); std::advance(p,i); t.erase(p); }); }
    qry("S05","is_empty",w,[&]{ return icl::is_empty(s)==m.empty() && s.empty()==m.empty(); });
    qry("S05","hull",w,[&]{ I h = icl::hull(s); return m.empty() ? !any(iat(h)) : lo(h)==m.front().l && hi(h)==m.back().u; });
    if(!m.empty()) qry("S05","lower/upper",w,[&]{ I f=*s.begin(), l=*s.rbegin(); return icl::lower(s)==f.lower() && icl::upper(s)==l.upper(); });
#ifdef DISC
    if(!m.empty()) qry("S05","first/last",w,[&]{ return atomof(keyof(icl::first(s)))==m.front().l && atomof(keyof(icl::last(s)))==m.back().u-1; });
    long c=0; for(char x : a) c+=x;
    qry("S09","cardinality",w,[&]{ return (long)icl::cardinality(s)==c && (long)s.size()==c && (long)icl::size(s)==c; });
    qry("S09","length",w,[&]{ return (long)icl::length(s)==c; });
#else
    double len=0; for(auto& x : s) len += NEG ? (double)x.lower()-(double)x.upper() : (double)x.upper()-(double)x.lower();
    qry("S09","length",w,[&]{ return (double)icl::length(s)==len; });
#endif
    qry("S09","iterative_size",w,[&]{ return icl::iterative_size(s)==m.size() && icl::interval_count(s)==m.size(); });
    if(prop == "S08"){
        M j; for(auto& g : m) if(!j.empty() && j.back().u==g.l) j.back().u=g.u; else j.push_back(g);
        qry("S08","copy",w,[&]{ S t(s); return model(t)==m; }); qry("S08","assign",w,[&]{ S t=rndset(3); t=s; return model(t)==m; });
        qry("S08","move",w,[&]{ S q(s); S t(std::move(q)); return model(t)==m; });
        qry("S08","swap",w,[&]{ S q=rndset(3), t(s); M b=model(q); t.swap(q); return model(t)==b && model(q)==m; });
        qry("S08","join",w,[&]{ S t(s); icl::join(t); return model(t)==j; });
        qry("S08","domain",w,[&]{ S t; icl::domain(t,s); return atoms(model(t))==a && wf(t); });
        qry("S08","between",w,[&]{ S t=rndset(2); icl::between(t,s); A h(NA,0); if(!m.empty()) for(int i=m.front().l;i<m.back().u;++i) h[i]=1; return atoms(model(t))==dif(h,a) && wf(t); });
        qry("S08","other styles",w,[&]{ icl::interval_set<E,CMP,I> x(s); icl::separate_interval_set<E,CMP,I> y(s); icl::split_interval_set<E,CMP,I> z(s); A p(NA,0),q(NA,0),r(NA,0);
            for(auto& g : x) p=uni(p,iat(g)); for(auto& g : y) q=uni(q,iat(g)); for(auto& g : z) r=uni(r,iat(g)); return p==a && q==a && r==a; });
    }
#ifdef ELEM
    for(int k=0;k<NV;++k){
        const E e = val(k); A b(NA,0); b[atomof(k)]=1; std::ostringstream o; o << +e; std::string q=o.str(); bool in = a[atomof(k)]; std::string v = w+" "+q;
        mod("S01","add element",s,q,uni(a,b),[&](S& t){ t.add(e); }); mod("S01","insert element",s,q,uni(a,b),[&](S& t){ t.insert(e); }); mod("S01","+= element",s,q,uni(a,b),[&](S& t){ t += e; });
        mod("S02","subtract element",s,q,dif(a,b),[&](S& t){ t.subtract(e); }); mod("S02","erase element",s,q,dif(a,b),[&](S& t){ t.erase(e); }); mod("S02","-= element",s,q,dif(a,b),[&](S& t){ t -= e; });
        mod("S03","&= element",s,q,its(a,b),[&](S& t){ t &= e; }); mod("S03","flip element",s,q,sym(a,b),[&](S& t){ t.flip(e); });
        mod("S03","^= element",s,q,sym(a,b),[&](S& t){ t ^= e; });
        if(prop != "S05") continue;
        qry("S05","contains element",v,[&]{ return icl::contains(s,e)==in && icl::within(e,s)==in && icl::intersects(s,e)==in && icl::disjoint(s,e)!=in; });
        qry("S05","find element",v,[&]{ auto r=s.find(e); return in ? r!=s.end() && iat(*r)[atomof(k)] : r==s.end(); });
    }
#endif
}
static void pair(const S& s, const S& t){
    const A a=atoms(model(s)), b=atoms(model(t)); std::string q=shs(t), w=shs(s)+" "+q; bool sub=!any(dif(b,a)), sup=!any(dif(a,b));
    mod("S06","+=",s,q,uni(a,b),[&](S& x){ x += t; }); mod("S06","|=",s,q,uni(a,b),[&](S& x){ x |= t; }); mod("S06","+",s,q,uni(a,b),[&](S& x){ x = x + t; });
    mod("S06","-=",s,q,dif(a,b),[&](S& x){ x -= t; }); mod("S06","erase",s,q,dif(a,b),[&](S& x){ icl::erase(x,t); });
    mod("S06","&=",s,q,its(a,b),[&](S& x){ x &= t; }); mod("S06","^=",s,q,sym(a,b),[&](S& x){ x ^= t; });
    mod("S06","add_intersection",s,q,its(a,b),[&](S& x){ S r; icl::add_intersection(r,x,t); x=r; });
    if(prop != "S07") return;
    qry("S07","contains",w,[&]{ return icl::contains(s,t)==sub; }); qry("S07","within",w,[&]{ return icl::within(s,t)==sup; });
    qry("S07","intersects",w,[&]{ return icl::intersects(s,t)==any(its(a,b)); }); qry("S07","disjoint",w,[&]{ return icl::disjoint(s,t)!=any(its(a,b)); });
    qry("S07","==",w,[&]{ return (s==t)==(model(s)==model(t)) && (s!=t)!=(model(s)==model(t)); });
    qry("S07","is_element_equal",w,[&]{ return icl::is_element_equal(s,t)==(a==b); });
    qry("S07","inclusion_compare",w,[&]{ int c=icl::inclusion_compare(s,t); return c==(a==b ? icl::inclusion::equal : sub ? icl::inclusion::superset : sup ? icl::inclusion::subset : icl::inclusion::unrelated); });
    qry("S07","<",w,[&]{ M m=model(s), n=model(t); bool l=std::lexicographical_compare(m.begin(),m.end(),n.begin(),n.end(),[](const Seg& p, const Seg& q){ const Seg &x = NEG?q:p, &y = NEG?p:q; return x.l<y.l || (x.l==y.l && x.u<y.u); }); return (s<t)==l && (t>s)==l && (t<=s)!=l && (s>=t)!=l; });
}
int main(int, char** av){
    prop = av[1]; const char* sd = getenv("VERIF_SEED"); const char* ti = getenv("VERIF_TIER"); bool deep = ti && !strcmp(ti,"thorough");
    rng.seed(sd ? atoi(sd) : 1); mkivs(); install();
    S e; single(e); for(auto& x : ivs) segment(e,x);
    bool p2 = prop=="S06" || prop=="S07";
    long n = (deep ? 10 : 1) * (p2 ? 60000 : prop=="S08" || prop=="S09" ? 8000 : ivs.size() > 60 ? 400 : 1500);
    for(long i=0;i<n && fails<200;++i){
        S s = rndset(6); 
        if(p2){ S t = rndset(5); if(rnd(3)==0){ t = s; for(int j=rnd(3);j>0;--j) if(rnd(2)) t.add(someiv()); else t.subtract(someiv()); } pair(s,t); continue; }
        single(s); for(auto& x : ivs) segment(s,x);
    }
    printf("CHECKS %ld\n", checks); return fails ? 1 : 0;
}
