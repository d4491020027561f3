// C32: type lists, type maps and array types against the answers that tools/gen_c32.py works out on ordinary lists.
#define VP_MAIN
#include "vp.hpp"
#include <set>
#include <map>
#include <array>
#include <tuple>
#include <sstream>
#include "ekat_meta_utils.hpp"
#include "ekat_type_traits.hpp"
#include "ekat_std_type_traits.hpp"
#include "ekat_std_utils.hpp"
template<int N> struct Tag { int x=N; };
template<typename T> struct Box {}; template<typename T> using AddConst=const T; template<typename T> using Fixed=std::pair<int,T>;
enum class Col { red, green };
struct Num { int v=0; bool operator== (const Num& o) const { return v==o.v; } };      // compared through its own operator only
template<int Eq, int C, int S> struct Ops {};
// ==: a member (Eq 1) or a free function (Eq 2), for const objects (C 1) or only for others
template<int S> struct Ops<1,1,S> { bool operator== (const Ops&) const { return true; } };
template<int S> struct Ops<1,0,S> { bool operator== (const Ops&) { return true; } };
template<int S> bool operator== (const Ops<2,1,S>&, const Ops<2,1,S>&) { return true; }
template<int S> bool operator== (Ops<2,0,S>&, Ops<2,0,S>&) { return true; }
template<int Eq, int C> std::ostream& operator<< (std::ostream& o, const Ops<Eq,C,1>&) { return o; }
template<typename T> struct Id; template<int N> struct For; template<int N> struct Map;
#include "gen_c32.hpp"
// ---- facts known when the program is compiled -------------------------------------------------------------------------------
struct Fact { const char *group, *what; long got, want; bool nt; };
void vp_init (int&, char**&) {}
void vp_fini () {}
#define FACT(group,what,got,want,nt) { #group, what, (long)(got), (long)(want), nt },
static const Fact facts[] = {
#include "facts_c32.hpp"
};
VP_PROP(type_facts, 20000, 200000, "size, uniqueness, position, entry, concatenation, template application, map look-ups, rank, dynamic rank, value type, removal of pointers and consts, vectors, same types, operators: one generated question per case; non-trivial: lists of two or more types, arrays of rank two or more") {
  const Fact& f=facts[c.below(sizeof(facts)/sizeof(facts[0]))]; c.d << f.group << ": " << f.what; VP_CHECK(f.got==f.want,f.group << " of " << f.what << " is " << f.got << " instead of " << f.want); c.nontrivial(f.nt); c.label(f.group); }
// ---- iteration ------------------------------------------------------------------------------------------------------------
static std::string show (const std::vector<int>& v) { std::string s="["; for (int x:v) s+=" "+std::to_string(x); return s+" ]"; }
template<int N> static void iterate (vp::Case& c) {
  using L=typename For<N>::list; const auto ids=For<N>::ids(); std::vector<int> seen; const int n=(int)ids.size(); const int stop=c.irange(0,n); const int way=c.irange(0,3); c.d << "list " << N << " of " << n << " types, way " << way << ", stop after " << stop; size_t vals=0;
  auto visit=[&](auto t){ seen.push_back(Id<decltype(t)>::v); };
  if (way==0) { ekat::TypeListFor<L> f(visit); (void)f; VP_CHECK(seen==ids,"visited " << show(seen) << " instead of " << show(ids)); }
  else if (way==1) { ekat::TypeListFor<L> f([&](auto t){ visit(t); return (int)seen.size()>=stop; }); (void)f; std::vector<int> want(ids.begin(),ids.begin()+std::max(1,stop)); VP_CHECK(seen==want,"visited " << show(seen) << " instead of " << show(want)); c.label("stopped early",stop>0 && stop<n); }
  else if (way==2) { // stop at a type
    const int at=ids[c.below(ids.size())]; ekat::TypeListFor<L> f([&](auto t)->bool{ visit(t); return Id<decltype(t)>::v==at; }); (void)f; std::vector<int> want; for (int x:ids) { want.push_back(x); if (x==at) break; } VP_CHECK(seen==want,"visited " << show(seen) << " instead of " << show(want)); c.label("stopped at a type"); }
  else { // a named function object that keeps its state
    int calls=0; auto l=[&calls,&seen](auto t) mutable { ++calls; seen.push_back(Id<decltype(t)>::v); return false; }; ekat::TypeListFor<L> f(l); (void)f; VP_CHECK(seen==ids && calls==n,"visited " << show(seen) << " instead of " << show(ids)); }
  (void)vals; c.nontrivial(n>1); }
// ---- maps -----------------------------------------------------------------------------------------------------------------
template<typename T> struct Val; 
template<> struct Val<int> { static int get (vp::Case& c) { return c.irange(0,3); } };
template<> struct Val<long> { static long get (vp::Case& c) { return c.irange(0,3); } };
template<> struct Val<char> { static char get (vp::Case& c) { return (char)c.irange(0,3); } };
template<> struct Val<bool> { static bool get (vp::Case& c) { return c.b(); } };
template<> struct Val<double> { static double get (vp::Case& c) { return c.irange(0,3)*0.5; } };
template<> struct Val<std::string> { static std::string get (vp::Case& c) { return c.pick(std::vector<std::string>{"","a","bb","a much longer string that is not kept in place"}); } };
template<> struct Val<Num> { static Num get (vp::Case& c) { return Num{c.irange(0,3)}; } };
template<typename T> static std::string sv (const T& v) { std::ostringstream o; if constexpr (std::is_same<T,Num>::value) o << "Num " << v.v; else if constexpr (std::is_same<T,char>::value) o << (int)v; else o << v; return std::string(typeid(T).name())+":"+o.str(); }
template<int N, size_t... K> static void map_of (vp::Case& c, std::index_sequence<K...>) {
  using keys=typename Map<N>::keys; using vals=typename Map<N>::vals; using M=ekat::TypeMap<keys,vals>; constexpr int n=(int)sizeof...(K); M m; std::vector<std::string> want(n); c.d << "map " << N << " of " << n << " types";
  ((m.template at<std::tuple_element_t<K,keys>>()=std::tuple_element_t<K,vals>(),want[K]=sv(std::tuple_element_t<K,vals>())),...);
  auto all=[&](const M& x, const char* what){ std::vector<std::string> got{sv(x.template at<std::tuple_element_t<K,keys>>())...}; for (int k=0;k<n;++k) VP_CHECK(got[k]==want[k],what << ": entry " << k << " is " << got[k] << " instead of " << want[k]); };
  all(m,"after setting every entry"); const int ops=c.irange(1,8); bool hit=false,miss=false;
  for (int o=0;o<ops;++o) { const size_t k=c.below(n); int op=c.irange(0,2);
    if (op==0) { ((K==k?(void)[&]{ auto v=Val<std::tuple_element_t<K,vals>>::get(c); m.template at<std::tuple_element_t<K,keys>>()=v; want[K]=sv(v); c.d << "; [" << K << "]=" << sv(v); }():(void)0),...); all(m,"after an assignment"); }
    else if (op==1) { M o2=m; all(o2,"a copy"); ((K==k?(void)(o2.template at<std::tuple_element_t<K,keys>>()=Val<std::tuple_element_t<K,vals>>::get(c)):(void)0),...); all(m,"after the copy changed"); }
    else { auto ask=[&](const auto& v){ bool w=false; for (const auto& s:want) w=w||s==sv(v); bool g=m.has_v(v); c.d << "; has " << sv(v); VP_CHECK(g==w,"has_v(" << sv(v) << ") is " << g << " instead of " << w); (w?hit:miss)=true; };
      switch (c.irange(0,6)) { case 0: ask(Val<int>::get(c)); break; case 1: ask(Val<long>::get(c)); break; case 2: ask(Val<double>::get(c)); break; case 3: ask(Val<std::string>::get(c)); break; case 4: ask(Val<Num>::get(c)); break; case 5: ask(Val<bool>::get(c)); break; default: ((K==k?ask(m.template at<std::tuple_element_t<K,keys>>()):(void)0),...); } } }
  c.nontrivial(n>1); c.label("value found",hit); c.label("value not found",miss); }
template<int N> static void map_ (vp::Case& c) { map_of<N>(c,std::make_index_sequence<std::tuple_size<typename Map<N>::keys>::value>()); }
using Fn=void(*)(vp::Case&);
template<size_t... N> static std::vector<Fn> fors (std::index_sequence<N...>) { return {&iterate<(int)N>...}; }
template<size_t... N> static std::vector<Fn> maps (std::index_sequence<N...>) { return {&map_<(int)N>...}; }
VP_PROP(iteration, 10000, 200000, "loops over generated lists, stopped after a number of types, at a type, or not at all; non-trivial: lists of two or more types") { static const auto T=fors(std::make_index_sequence<N_FOR>()); T[c.below(T.size())](c); }
VP_PROP(map_histories, 20000, 400000, "assignments, copies and look-ups by value on generated maps; non-trivial: two or more keys") { static const auto T=maps(std::make_index_sequence<N_MAP>()); T[c.below(T.size())](c); }
