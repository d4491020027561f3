// Reference tree of a YAML document and its comparison with a parameter list
#pragma once
#include "vp.hpp"
#include "ekat_yaml.hpp"
#include <variant>
using PL = ekat::ParameterList; using ES = PL::EmptySeq;
using YV = std::variant<bool,int,double,std::string,std::vector<char>,std::vector<int>,std::vector<double>,std::vector<std::string>,ES>;
static const char* yname[] = {"bool","int","double","string","vector<char>","vector<int>","vector<double>","vector<string>","EmptySeq"};
struct Tree { std::map<std::string,YV> p; std::map<std::string,Tree> s; size_t count () const { size_t n=p.size(); for (auto& x:s) n+=1+x.second.count(); return n; } };
inline std::string show (const YV& v) {
  std::ostringstream o; o << yname[v.index()] << " "; auto q=[](const std::string& s){ return vp::quote(s); };
  switch (v.index()) { case 0: o << std::get<0>(v); break; case 1: o << std::get<1>(v); break; case 2: o << vp::fp(std::get<2>(v)); break; case 3: o << q(std::get<3>(v)); break;
    case 4: for (auto x:std::get<4>(v)) o << (int)x << " "; break; case 5: for (auto x:std::get<5>(v)) o << x << " "; break; case 6: for (auto x:std::get<6>(v)) o << vp::fp(x) << " "; break; case 7: for (auto& x:std::get<7>(v)) o << q(x) << " "; break; default: break; }
  return o.str();
}
inline void show (std::ostream& o, const Tree& t, int ind = 0) {
  std::string b(ind,' '); for (auto& x:t.p) o << b << vp::quote(x.first) << ": " << show(x.second) << "\n"; for (auto& x:t.s) { o << b << vp::quote(x.first) << ":\n"; show(o,x.second,ind+2); }
}
inline bool close14 (double a, double b, bool exact) {
  if (exact) return vp::same_bits(a,b);
  if (std::signbit(a)!=std::signbit(b)) return false;
  return std::abs(a-b)<=1.01e-13*std::abs(a) || std::abs(a-b)<=5e-324;
}
template<int I> bool same_value (const PL& l, const std::string& n, const YV& v, bool exact) {
  using T=std::variant_alternative_t<I,YV>;
  if constexpr (I==8) return l.get<std::vector<int>>(n).empty() && l.get<std::vector<double>>(n).empty() && l.get<std::vector<std::string>>(n).empty() && l.get<std::vector<char>>(n).empty();
  else if constexpr (I==2) return close14(std::get<2>(v),l.get<double>(n),exact);
  else if constexpr (I==6) { auto& a=std::get<6>(v); auto b=l.get<T>(n); if (a.size()!=b.size()) return false; for (size_t i=0;i<a.size();++i) if (!close14(a[i],b[i],exact)) return false; return true; }
  else return l.get<T>(n)==std::get<I>(v);
}
inline std::string actual (const PL& l, const std::string& n) {
  std::ostringstream o;
  if (l.isType<bool>(n)) o << show(YV(l.get<bool>(n))); else if (l.isType<int>(n)) o << show(YV(l.get<int>(n))); else if (l.isType<double>(n)) o << show(YV(l.get<double>(n)));
  else if (l.isType<std::string>(n)) o << show(YV(l.get<std::string>(n))); else if (l.isType<ES>(n)) o << "empty sequence";
  else if (l.isType<std::vector<char>>(n)) o << show(YV(l.get<std::vector<char>>(n))); else if (l.isType<std::vector<int>>(n)) o << show(YV(l.get<std::vector<int>>(n)));
  else if (l.isType<std::vector<double>>(n)) o << show(YV(l.get<std::vector<double>>(n))); else if (l.isType<std::vector<std::string>>(n)) o << show(YV(l.get<std::vector<std::string>>(n)));
  else o << "another type";
  return o.str();
}
template<int I = 0> void check_param (const PL& l, const std::string& n, const YV& v, const std::string& where, bool exact) {
  if constexpr (I<9) {
    using T=std::variant_alternative_t<I,YV>;
    bool is=l.isType<T>(n), want=v.index()==I;
    VP_CHECK(is==want,where << "/" << n << " is " << actual(l,n) << ", expected " << show(v));
    if (want) VP_CHECK((same_value<I>(l,n,v,exact)),where << "/" << n << " is " << actual(l,n) << ", expected " << show(v));
    check_param<I+1>(l,n,v,where,exact);
  }
}
inline void check_tree (const PL& l, const Tree& t, const std::string& where, bool exact) {
  auto names=[](const std::vector<std::string>& v){ std::string s="{"; for (auto& x:v) s+=vp::quote(x)+","; return s+"}"; };
  std::vector<std::string> pn,sn; for (auto& x:t.p) pn.push_back(x.first); for (auto& x:t.s) sn.push_back(x.first);
  auto gp=l.param_names(), gs=l.sublist_names(); std::sort(gp.begin(),gp.end()); std::sort(gs.begin(),gs.end());
  VP_CHECK(gp==pn,where << ": parameters are " << names(gp) << ", expected " << names(pn));
  VP_CHECK(gs==sn,where << ": sublists are " << names(gs) << ", expected " << names(sn));
  for (auto& x:t.p) check_param(l,x.first,x.second,where,exact);
  for (auto& x:t.s) check_tree(l.sublist(x.first),x.second,where+"/"+x.first,exact);
}
inline std::string tmpfile (const char* tag) { const char* d=getenv("VP_TMP"); return std::string(d?d:"/tmp")+"/"+tag+std::to_string(getpid())+".yaml"; }
inline void spit (const std::string& f, const std::string& t) { std::ofstream o(f,std::ios::binary); o << t; }
inline std::string slurp (const std::string& f) { std::ifstream i(f,std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
