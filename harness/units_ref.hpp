// Reader of the text of scaling factors and units, into exact values
#pragma once
#include "vp.hpp"
#include "rat.hpp"
#include <array>
struct UV { Pos s; std::array<R,7> u; // value of a unit
  bool operator== (const UV& o) const { return s==o.s && u==o.u; }
  UV operator* (const UV& o) const { UV r; r.s=s*o.s; for (int i=0;i<7;++i) r.u[i]=u[i]+o.u[i]; return r; }
  UV operator/ (const UV& o) const { UV r; r.s=s/o.s; for (int i=0;i<7;++i) r.u[i]=u[i]-o.u[i]; return r; }
  UV pow (R k) const { UV r; r.s=s.pow(k); for (int i=0;i<7;++i) r.u[i]=u[i]*k; return r; }
  bool dimless () const { for (auto& x:u) if (x.n) return false; return true; }
  std::string text () const { std::string t=s.text()+" *"; const char* n[]={"m","s","kg","K","A","mol","cd"}; for (int i=0;i<7;++i) if (u[i].n) t+=std::string(" ")+n[i]+"^"+txt(u[i]); return t; }
};
struct Reader { // expr := term {(*|/) term}; term := atom [^ exponent]; exponent: integer or parenthesised rational
  const std::string& s; const std::map<std::string,UV>* names; size_t i=0;
  [[noreturn]] void bad (const std::string& m) { VP_FAIL("cannot read the text " << vp::quote(s) << " at position " << i << ": " << m); }
  bool digit () { return i<s.size() && isdigit((unsigned char)s[i]); }
  i128 integer () { if (!digit()) bad("digits expected"); i128 v=0; while (digit()) v=10*v+(s[i++]-'0'); return v; }
  R signed_int () { bool neg = i<s.size() && s[i]=='-'; if (neg) ++i; i128 v=integer(); return R(neg?-v:v); }
  R exponent () {
    if (i<s.size() && s[i]=='(') { ++i; R r=exponent(); if (i<s.size() && s[i]=='/') { ++i; r=r/signed_int(); } if (i>=s.size()||s[i]!=')') bad("')' expected"); ++i; return r; }
    return signed_int();
  }
  UV atom () {
    UV v;
    if (i>=s.size()) bad("unexpected end");
    if (s[i]=='(') { ++i; v=expr(); if (i>=s.size()||s[i]!=')') bad("')' expected"); ++i; return v; }
    if (digit()) { v.s=Pos::of(R(integer())); return v; }
    size_t b=i; while (i<s.size() && (isalnum((unsigned char)s[i])||s[i]=='_')) ++i;
    auto n=s.substr(b,i-b); if (!names) bad("a number expected"); auto it=names->find(n); if (it==names->end()) bad("unknown name "+vp::quote(n)); return it->second;
  }
  UV term () { UV v=atom(); if (i<s.size() && s[i]=='^') { ++i; v=v.pow(exponent()); } return v; }
  UV expr () { UV v=term(); while (i<s.size() && (s[i]=='*'||s[i]=='/')) { char op=s[i++]; UV w=term(); v = op=='*' ? v*w : v/w; } return v; }
  UV all () { UV v=expr(); if (i!=s.size()) bad("unexpected character"); return v; }
};
inline UV read_text (const std::string& t, const std::map<std::string,UV>* names) { Reader r{t,names}; return r.all(); }
inline UV read_si (const std::string& t) { // [scale] symbol[^rational] ...
  static const std::map<std::string,int> sym{{"m",0},{"s",1},{"kg",2},{"K",3},{"A",4},{"mol",5},{"cd",6}};
  UV v; std::istringstream in(t); std::string tok; bool first=true; std::set<std::string> seen;
  if (t.empty() || t.front()==' ' || t.back()==' ') VP_FAIL("SI text " << vp::quote(t) << " is empty or has blanks around it");
  while (in >> tok) {
    if (first && !isalpha((unsigned char)tok[0])) v=read_text(tok,nullptr);
    else {
      auto k=tok.find('^'); auto n=tok.substr(0,k); auto it=sym.find(n);
      if (it==sym.end() || !seen.insert(n).second) VP_FAIL("unexpected symbol " << vp::quote(n) << " in the SI text " << vp::quote(t));
      R e(1); if (k!=std::string::npos) { std::string x=tok.substr(k+1); Reader r{x,nullptr}; e=r.exponent(); if (r.i<x.size() && x[r.i]=='/') { ++r.i; e=e/r.signed_int(); } if (r.i!=x.size()) r.bad("unexpected character"); }
      v.u[it->second]=e;
    }
    first=false;
  }
  return v;
}
// Guards against integer overflow inside the 64-bit implementation
inline double bits (const ekat::ScalingFactor& f) { return f.base.num==0 ? 0 : std::max(std::log2((double)std::abs((double)f.base.num)),std::log2((double)f.base.den)); }
inline bool safe_pair (const ekat::ScalingFactor& a, const ekat::ScalingFactor& b) {
  double ka=std::abs((double)a.exp.num*b.exp.den), kb=std::abs((double)b.exp.num*a.exp.den);
  return bits(a)*ka+bits(b)*kb<61 && ka<1e6 && kb<1e6 && (double)a.exp.den*b.exp.den<1e6;
}
