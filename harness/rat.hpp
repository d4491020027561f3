// Exact reference arithmetic: rationals over 128-bit integers and positive reals as products of prime powers
#pragma once
#include <map>
#include <string>
#include <sstream>
#include <cmath>
using i128 = __int128;
inline i128 absi (i128 a) { return a<0?-a:a; }
inline i128 gcdi (i128 a, i128 b) { a=absi(a); b=absi(b); while (b) { i128 t=a%b; a=b; b=t; } return a; }
struct R {
  i128 n=0,d=1;
  R (i128 n_=0, i128 d_=1) { if (d_<0) { n_=-n_; d_=-d_; } i128 g=gcdi(n_,d_); if (g==0) g=1; n=n_/g; d=d_/g; }
  bool operator== (const R& o) const { return n==o.n && d==o.d; }
  bool operator!= (const R& o) const { return !(*this==o); }
  bool operator< (const R& o) const { return n*o.d<o.n*d; }
  R operator+ (const R& o) const { return R(n*o.d+o.n*d,d*o.d); }
  R operator- (const R& o) const { return R(n*o.d-o.n*d,d*o.d); }
  R operator* (const R& o) const { return R(n*o.n,d*o.d); }
  R operator/ (const R& o) const { return R(n*o.d,d*o.n); }
  R operator- () const { return R(-n,d); }
  double dbl () const { return (double)n/(double)d; }
};
inline std::string txt (i128 v) { if (v==0) return "0"; std::string s; bool neg=v<0; v=absi(v); while (v) { s.insert(s.begin(),'0'+(int)(v%10)); v/=10; } return neg?"-"+s:s; }
inline std::string txt (const R& r) { return txt(r.n)+(r.d!=1?"/"+txt(r.d):""); }
// Non-negative real: zero, or product of p^e
struct Pos {
  bool zero=false; std::map<i128,R> e;
  static Pos of (R b, R x = R(1)) {
    Pos p; if (b.n==0) { p.zero=true; return p; }
    auto fac=[&](i128 v, R s){ for (i128 q=2;q*q<=v;++q) while (v%q==0) { p.add(q,s); v/=q; } if (v>1) p.add(v,s); };
    fac(b.n,x); fac(b.d,-x);
    return p;
  }
  void add (i128 q, R s) { auto& r=e[q]; r=r+s; if (r.n==0) e.erase(q); }
  bool operator== (const Pos& o) const { return zero==o.zero && e==o.e; }
  Pos operator* (const Pos& o) const { Pos r; if (zero||o.zero) { r.zero=true; return r; } r=*this; for (auto& x:o.e) r.add(x.first,x.second); return r; }
  Pos inv () const { Pos r; for (auto& x:e) r.e[x.first]=-x.second; return r; }
  Pos operator/ (const Pos& o) const { return zero ? *this : *this*o.inv(); }
  Pos pow (R k) const { Pos r; if (zero) return *this; if (k.n==0) return r; for (auto& x:e) r.e[x.first]=x.second*k; return r; }
  double lg () const { double s=0; for (auto& x:e) s+=std::log2((double)x.first)*x.second.dbl(); return s; }
  std::string text () const { if (zero) return "0"; std::string s; for (auto& x:e) s+=(s.empty()?"":" ")+txt(x.first)+"^"+txt(x.second); return s.empty()?"1":s; }
};
