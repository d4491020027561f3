// C16: zip, map key iterators, container helpers
#define VP_MAIN
#include "vp.hpp"
#include <cmath>
#include <deque>
#include <list>
#include <array>
#include <set>
#include <memory>
#include "ekat_zip.hpp"
#include "ekat_std_map_key_iterator.hpp"
#include "ekat_std_utils.hpp"
void vp_init (int&, char**&) {}
void vp_fini () {}
static int item (vp::Case& c) { return (int)c.range(-5,5); }
template<typename C> static C fill (vp::Case& c, int n) { C x; for (int i=0;i<n;++i) { if constexpr (std::is_same<typename C::value_type,std::string>::value) x.insert(x.end(),c.str("ab",0,3)); else x.insert(x.end(),(typename C::value_type)item(c)); } return x; }
template<typename T> static T bump (T x) { if constexpr (std::is_same<T,std::string>::value) return x+"!"; else return (T)(x*2+1); }
// three containers of given types: visit, compare with indices, write through
template<typename A, typename B, typename C> static void three (vp::Case& c, int n) {
  A a=fill<A>(c,n); B b=fill<B>(c,n); C d=fill<C>(c,n); const A ca=a; const B cb=b; const C cd=d;
  auto at=[](auto& x, int i)->auto& { auto it=x.begin(); std::advance(it,i); return *it; };
  int i=0;
  for (auto [x,y,z] : ekat::zip(a,b,d)) {
    VP_CHECK(i<n,"more elements than the containers hold"); VP_CHECK(&x==&at(a,i) && &y==&at(b,i) && &z==&at(d,i),"element " << i << " is not a reference to the containers' elements");
    if (i%2==0) x=bump(x); z=bump(z); ++i; }
  VP_CHECK(i==n,"visited " << i << " of " << n << " elements");
  for (int k=0;k<n;++k) VP_CHECK(at(a,k)==(k%2==0?bump(at(ca,k)):at(ca,k)) && at(b,k)==at(cb,k) && at(d,k)==bump(at(cd,k)),"writing through the references changed element " << k << " wrongly");
  i=0; for (auto [x,y] : ekat::zip(ca,b)) { static_assert(std::is_const<std::remove_reference_t<decltype(x)>>::value,"const"); VP_CHECK(&x==&at(ca,i) && &y==&at(b,i),"const zip: element " << i); ++i; } VP_CHECK(i==n,"const zip visited " << i);
  i=0; for (auto [x] : ekat::zip(d)) { VP_CHECK(&x==&at(d,i),"zip of one"); ++i; } VP_CHECK(i==n,"zip of one visited " << i);
  i=0; for (auto [w,x,y,z] : ekat::zip(d,ca,d,b)) { VP_CHECK(&w==&at(d,i) && &y==&w && &x==&at(ca,i) && &z==&at(b,i),"zip of four: element " << i); ++i; } VP_CHECK(i==n,"zip of four visited " << i);
  auto zz=ekat::zip(a,b); i=0; for (auto it=zz.cbegin(); it!=zz.cend(); ++it) { auto t=*it; VP_CHECK(&std::get<0>(t)==&at(a,i) && &std::get<1>(t)==&at(b,i),"const iteration: element " << i); ++i; } VP_CHECK(i==n,"const iteration visited " << i);
  { auto it=zz.begin(); for (int k=0;k<n;++k) { VP_CHECK(it!=zz.end(),"end reached after " << k); auto& r=++it; VP_CHECK(&r==&it,"increment returns another object"); } VP_CHECK(!(it!=zz.end()),"end not reached"); }
  int m=c.size(0,8), p=c.size(0,8); A a2=fill<A>(c,m); C d2=fill<C>(c,p); bool same=m==n && p==n;
  VP_CHECK(vp::throws([&]{ auto q=ekat::zip(b,a2,d2); (void)q; })==!same,"sizes " << n << "," << m << "," << p << (same?" rejected":" accepted"));
  bool same2=m==n; VP_CHECK(vp::throws([&]{ auto q=ekat::zip(a2,b); (void)q; })==!same2,"sizes " << m << "," << n << (same2?" rejected":" accepted"));
}
VP_PROP(zips, 80000, 1500000, "zips of one to four vectors, lists, deques (const and not) of sizes 0-20, a fixed array and a built-in array, with equal and different sizes; non-trivial: at least two elements") {
  int n=c.size(0,20), k=(int)c.below(5); c.d << "kind " << k << " size " << n;
  switch (k) { case 0: three<std::vector<int>,std::vector<double>,std::vector<std::string>>(c,n); break; case 1: three<std::list<int>,std::vector<std::string>,std::deque<long>>(c,n); break;
    case 2: three<std::deque<std::string>,std::list<float>,std::list<int>>(c,n); break; case 3: three<std::vector<long>,std::deque<int>,std::vector<int>>(c,n); break;
    default: { n=4; std::array<int,4> a; int b[4]; for (int i=0;i<4;++i) { a[i]=item(c); b[i]=item(c); } auto v=fill<std::vector<int>>(c,c.size(0,8)); std::map<int,int> m; for (int i=0;i<4;++i) m[i]=item(c);
      int i=0; for (auto [x,y,z] : ekat::zip(a,b,m)) { VP_CHECK(&x==&a[i] && &y==&b[i] && &z.second==&m[i] && z.first==i,"array zip element " << i); y=7; ++i; } VP_CHECK(i==4 && b[0]==7 && b[3]==7,"array zip visited " << i);
      VP_CHECK(vp::throws([&]{ auto q=ekat::zip(a,v,b); (void)q; })==(v.size()!=4),"size mismatch with an array"); } }
  c.nontrivial(n>=2); c.label("empty",n==0);
}
// containers whose iterators do not give references to elements: packed booleans, computed values, an iterator that holds its value
struct Computed { int n; struct It { int i; int operator* () const { return 3*i+1; } It& operator++ () { ++i; return *this; } bool operator== (const It& o) const { return i==o.i; } bool operator!= (const It& o) const { return i!=o.i; } }; It begin () const { return {0}; } It end () const { return {n}; } size_t size () const { return (size_t)n; } };
struct Stash { int n; struct It { int i; mutable std::string v; const std::string& operator* () const { v="value number "+std::to_string(i); return v; } It& operator++ () { ++i; return *this; } bool operator== (const It& o) const { return i==o.i; } bool operator!= (const It& o) const { return i!=o.i; } }; It begin () const { return {0,""}; } It end () const { return {n,""}; } size_t size () const { return (size_t)n; } };
VP_PROP(proxies, 40000, 600000, "zips of 0-20 elements that include packed booleans (read and written), computed values, sets and strings; non-trivial: at least two elements") {
  int n=c.size(0,20); std::vector<bool> a, a0; for (int i=0;i<n;++i) a.push_back(c.b()); a0=a; auto v=fill<std::vector<int>>(c,n); Computed q{n}; std::set<int> s; while ((int)s.size()<n) s.insert((int)c.range(-1000,1000)); std::string t=c.str("abcxyz",n,n); std::vector<bool> w(n,c.b()); const auto w0=w; const auto ca=a; const auto v0=v; c.d << n << " elements:"; for (int i=0;i<n;++i) c.d << ' ' << a[i] << v[i]; Stash h{n};
  int i=0; for (auto [x,y] : ekat::zip(a,v)) { VP_CHECK((bool)x==(bool)a0[i] && &y==&v[i],"boolean " << i << " is " << (bool)x << ", " << y); x=i%3==0; y=i; ++i; } VP_CHECK(i==n,"visited " << i << " of " << n); for (int k=0;k<n;++k) VP_CHECK(a[k]==(k%3==0) && v[k]==k,"writing element " << k << " through the zip: " << a[k] << "," << v[k]);
  i=0; for (auto [x,y,z] : ekat::zip(ca,w,q)) { VP_CHECK((bool)x==(bool)ca[i] && (bool)y==(bool)w0[i] && z==3*i+1,"element " << i << " is " << (bool)x << "," << (bool)y << "," << z); y=(bool)x; ++i; } VP_CHECK(i==n && w==ca,"visited " << i << ", or the booleans were not copied");
  auto it=s.begin(); i=0; for (auto [x,y,z] : ekat::zip(s,t,q)) { VP_CHECK(&x==&*it && &y==&t[i] && z==3*i+1,"element " << i << " of a set, a string and computed values"); ++it; ++i; } VP_CHECK(i==n,"visited " << i);
  { auto zz=ekat::zip(q,a,v); auto b=zz.begin(); i=0; for (auto k=zz.cbegin(); k!=zz.cend(); ++k,++b) { auto e=*k; auto f=*b; VP_CHECK(std::get<0>(e)==3*i+1 && (bool)std::get<1>(e)==(i%3==0) && std::get<2>(e)==i && std::get<0>(f)==3*i+1 && (bool)std::get<1>(f)==(i%3==0),"iterating by hand: element " << i); ++i; } VP_CHECK(i==n,"visited " << i); }
  { auto zz=ekat::zip(h,v); i=0; for (auto k=zz.begin(); k!=zz.end(); ++k) { auto e=*k; VP_CHECK(std::get<0>(e)=="value number "+std::to_string(i) && &std::get<1>(e)==&v[i],"a value held by its iterator: element " << i); ++i; } VP_CHECK(i==n,"visited " << i); }
  std::vector<bool> o(c.size(0,20)); VP_CHECK(vp::throws([&]{ auto z=ekat::zip(v,o); (void)z; })==((int)o.size()!=n),"sizes " << n << " and " << o.size());
  c.nontrivial(n>=2); }
VP_PROP(key_iterators, 100000, 1500000, "maps of 0-12 entries walked forwards and backwards with pre- and post-increment through their key iterators, random walks included; non-trivial: at least two keys") {
  std::map<std::string,int> m; int n=c.size(0,12); for (int i=0;i<n;++i) m[c.str("abc",0,4)]=i; const auto& cm=m; c.d << m.size() << " keys";
  using CI=ekat::map_key_const_iterator<std::map<std::string,int>>; using I=ekat::map_key_iterator<std::map<std::string,int>>;
  std::vector<std::string> keys; for (auto& x:m) keys.push_back(x.first);
  auto walk=[&](auto b, auto e, const char* w){ size_t i=0; for (auto it=b; it!=e; ++it) { VP_CHECK(i<keys.size() && *it==keys[i] && it->size()==keys[i].size() && &*it==&m.find(keys[i])->first,w << ": key " << i); ++i; } VP_CHECK(i==keys.size(),w << ": visited " << i);
    i=0; for (auto it=b; it!=e;) { auto o=it++; VP_CHECK(*o==keys[i],w << ": post-increment at " << i); ++i; } VP_CHECK(i==keys.size(),w << ": post-increment visited " << i);
    auto it=e; for (i=keys.size(); i>0; --i) { auto& r=--it; VP_CHECK(*it==keys[i-1] && &r==&it,w << ": pre-decrement at " << i); } VP_CHECK(it==b,w << ": begin not reached");
    it=e; for (i=keys.size(); i>0; --i) { auto o=it--; VP_CHECK((i==keys.size()?o==e:*o==keys[i]) && *it==keys[i-1],w << ": post-decrement at " << i); } };
  walk(CI(cm.begin()),CI(cm.end()),"const"); walk(I(m.begin()),I(m.end()),"non-const");
  if (!keys.empty()) { CI it(cm.begin()); size_t p=0; int steps=c.size(0,20); for (int i=0;i<steps;++i) { bool up=p==0||(p+1<keys.size()&&c.b()); if (up && p+1<keys.size()) { if (c.b()) ++it; else it++; ++p; } else if (!up) { if (c.b()) --it; else it--; --p; } VP_CHECK(*it==keys[p],"random walk step " << i); } }
  c.nontrivial(keys.size()>=2);
}
// a type with equality and an unrelated order: helpers look for equal elements
struct EqOnly { int a=0, b=0; EqOnly () {} EqOnly (int x) : a(x) {} bool operator== (const EqOnly& o) const { return a==o.a && b==o.b; } bool operator!= (const EqOnly& o) const { return !(*this==o); } bool operator< (const EqOnly& o) const { return a<o.a; } };
static void helpers_partial (vp::Case& c) { // elements that are unordered, or equivalent in order but not equal
  std::vector<double> v; int n=c.size(0,10); for (int i=0;i<n;++i) v.push_back(c.chance(1,4)?NAN:c.chance(1,5)?-0.0:(double)c.range(0,2)); double x=c.chance(1,4)?NAN:(double)c.range(0,2);
  int cnt=0, pos=-1; for (int i=0;i<n;++i) if (v[i]==x) { if (pos<0) pos=i; ++cnt; }
  VP_CHECK(ekat::count(v,x)==cnt && ekat::contains(v,x)==(cnt>0) && (pos<0 ? ekat::find(v,x)==v.end() : ekat::find(v,x)-v.begin()==pos),"doubles with NaNs: count " << ekat::count(v,x) << ", expected " << cnt);
  VP_CHECK(ekat::erase(v,x)==(cnt>0) && (int)v.size()==n-(cnt>0),"doubles with NaNs: erase");
  std::vector<EqOnly> e; for (int i=0;i<n;++i) { EqOnly q((int)c.range(0,1)); q.b=(int)c.range(0,1); e.push_back(q); } EqOnly y((int)c.range(0,1)); y.b=(int)c.range(0,1);
  cnt=0; pos=-1; for (int i=0;i<n;++i) if (e[i]==y) { if (pos<0) pos=i; ++cnt; }
  VP_CHECK(ekat::count(e,y)==cnt && ekat::contains(e,y)==(cnt>0) && (pos<0 ? ekat::find(e,y)==e.end() : ekat::find(e,y)-e.begin()==pos),"user type: count " << ekat::count(e,y) << ", expected " << cnt);
  auto w=e; if (pos>=0) w.erase(w.begin()+pos); VP_CHECK(ekat::erase(e,y)==(cnt>0) && e==w,"user type: erase");
  c.nontrivial(cnt>0 && n>1);
}
template<typename C> static void helpers (vp::Case& c) {
  C v=fill<C>(c,c.size(0,12)); const C cv=v; typename C::value_type x{}; if constexpr (std::is_same<typename C::value_type,std::string>::value) x=c.str("ab",0,2); else x=item(c);
  int cnt=0, pos=-1, i=0; for (auto& y:v) { if (y==x) { if (pos<0) pos=i; ++cnt; } ++i; }
  VP_CHECK(ekat::count(v,x)==cnt && ekat::count(cv,x)==cnt,"count is " << ekat::count(v,x) << ", expected " << cnt); VP_CHECK(ekat::contains(v,x)==(cnt>0) && ekat::contains(cv,x)==(cnt>0),"contains is " << ekat::contains(v,x));
  auto it=ekat::find(v,x); VP_CHECK(pos<0 ? it==v.end() : std::distance(v.begin(),it)==pos,"find gives another position"); auto ci=ekat::find(cv,x); VP_CHECK(pos<0 ? ci==cv.end() : std::distance(cv.begin(),ci)==pos,"const find gives another position");
  C w=v; if (pos>=0) { auto k=w.begin(); std::advance(k,pos); w.erase(k); }
  VP_CHECK(ekat::erase(v,x)==(cnt>0),"erase reports the wrong outcome"); VP_CHECK(v==w,"erase does not remove exactly the first occurrence"); c.nontrivial(cnt>0 && cv.size()>1); c.label("several",cnt>1);
}
VP_PROP(helpers, 200000, 3000000, "find, contains, count and erase on vectors, lists, deques and sets with 0-12 elements of few values, vector output, sets of weak pointers; non-trivial: the value occurs among several") {
  int k=(int)c.below(7); c.d << "kind " << k; if (k==6) { helpers_partial(c); return; }
  switch (k) { case 0: helpers<std::vector<int>>(c); break; case 1: helpers<std::list<std::string>>(c); break; case 2: helpers<std::deque<int>>(c); break; case 3: helpers<std::vector<std::string>>(c); break;
    case 4: { std::set<int> s=fill<std::set<int>>(c,c.size(0,9)), r=s; int x=item(c); VP_CHECK(ekat::contains(s,x)==(r.count(x)>0) && ekat::count(s,x)==(int)r.count(x),"set"); VP_CHECK(ekat::erase(s,x)==(r.erase(x)>0) && s==r,"erase from a set"); c.nontrivial(s.size()>1); break; }
    default: { auto v=fill<std::vector<int>>(c,c.size(0,6)); std::ostringstream o; using std::operator<<; o << v; std::string e; for (size_t i=0;i<v.size();++i) e+=(i?" ":"")+std::to_string(v[i]); VP_CHECK(o.str()==e,"vector printed as " << o.str());
      std::vector<std::shared_ptr<int>> p; ekat::WeakPtrSet<int> w; std::set<int*> ref; for (int i=0;i<5;++i) p.push_back(std::make_shared<int>(i)); int n=c.size(0,12); for (int i=0;i<n;++i) { auto& q=p[c.below(5)]; bool ins=w.insert(q).second; VP_CHECK(ins==ref.insert(q.get()).second,"set of weak pointers"); } VP_CHECK(w.size()==ref.size(),"set of weak pointers has " << w.size()); c.nontrivial(n>1); } }
}
