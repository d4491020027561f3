// C08: scaling factors against exact products of prime powers
#define VP_MAIN
#include "vp.hpp"
#include "ekat_scaling_factor.hpp"
#include "units_ref.hpp"
void vp_init (int&, char**&) {}
void vp_fini () {}
using RC = ekat::RationalConstant; using SF = ekat::ScalingFactor; using ll = long long;
struct X { SF f; Pos p; };
static X gen (vp::Case& c, bool zero=true) {
  if (zero && c.chance(1,15)) return { SF::zero(), Pos::of(R(0)) };
  ll n=c.pick<ll>({1,2,3,4,5,6,8,9,10,12,25,27,100,1000}), d = c.b()?1:c.pick<ll>({1,2,3,4,6,9,10,36,1000});
  ll p=c.range(-4,4), q=c.range(1,4); if (c.chance(1,3)) { p=1; q=1; }
  if (c.chance(1,12)) { n=10; d=1; q=1; p=c.pick<ll>({-9,-6,-3,-2,2,3,6,9}); }
  if (c.chance(1,5)) { q=c.pick<ll>({1,2,5,10,12}); p=c.range(-12,12); }
  c.d << "(" << n << "/" << d << ")^(" << p << "/" << q << ")";
  return { SF(RC(n,d),RC(p,q)), Pos::of(R(n,d),R(p,q)) };
}
static double approx (const std::string& t) { // B or B^E, both decimal
  auto k=t.find('^'); auto num=[&](std::string s){ if (!s.empty()&&s.front()=='('&&s.back()==')') s=s.substr(1,s.size()-2); char* e; double v=std::strtod(s.c_str(),&e); if (*e||s.empty()) VP_FAIL("cannot read the text " << vp::quote(t)); return v; };
  double b=num(t.substr(0,k)), e = k==std::string::npos ? 1 : num(t.substr(k+1));
  return b==0 ? -INFINITY : e*std::log2(b);
}
static void check (const X& x, const std::string& what) {
  // read back the stored base and exponent
  VP_CHECK(x.f.base.num>=0 && x.f.base.den>0 && x.f.exp.den>0,what << ": stored as " << x.f.base << "^" << x.f.exp);
  Pos st = Pos::of(R(x.f.base.num,x.f.base.den),R(x.f.exp.num,x.f.exp.den));
  VP_CHECK(st==x.p,what << " is " << x.f.base << "^(" << x.f.exp << "), expected " << x.p.text());
  auto t=x.f.to_string(); auto v=read_text(t,nullptr);
  VP_CHECK(v.s==x.p,what << " = " << x.p.text() << " is printed as " << vp::quote(t) << ", which reads " << v.s.text());
  std::ostringstream o; o << x.f; VP_CHECK(read_text(o.str(),nullptr).s==x.p,what << ": stream output " << o.str());
  auto a=x.f.string_repr<96>(); a[95]=0; auto w=read_text(a.data(),nullptr);
  VP_CHECK(w.s==x.p,what << " = " << x.p.text() << ": string_repr gives " << vp::quote(a.data()) << ", which reads " << w.s.text());
  double l=approx(x.f.to_string(ekat::Format::Float)); if (!x.p.zero) VP_CHECK(std::abs(l-x.p.lg())<1e-3*(1+std::abs(x.p.lg())+bits(x.f)),what << ": the float text is " << x.f.to_string(ekat::Format::Float));
}
VP_PROP(constructions, 100000, 2000000, "bases of either sign and zero with any exponent: even roots of negative numbers and 0^0 are refused, everything else denotes the power asked for, also as text; non-trivial: a negative base or zero") {
  ll n=c.chance(1,6)?0:c.range(-12,12), d=c.b()?1:c.range(1,12), p=c.range(-9,9), q=c.b()?c.range(1,4):c.range(1,24); RC b(n,d), e(p,q); c.d << "(" << b << ")^(" << e << ")"; c.nontrivial(n<=0);
  bool bad=(n==0 && p==0) || (n<0 && e.den%2==0); bool thrown=vp::throws([&]{ SF f(b,e); (void)f; }); VP_CHECK(thrown==bad,(thrown?"refused":"accepted")); c.label("refused",bad); if (bad) return;
  SF f(b,e); if (n==0 && p<0) return; bool neg=n<0 && e.num%2!=0; R ab(n<0?-n:n,d), ee(p,q);
  auto denotes=[&](const R& bb, const R& x){ bool ng=bb.n<0 && x.n%2!=0; return ng==neg && Pos::of(R(bb.n<0?-bb.n:bb.n,bb.d),x)==Pos::of(ab,ee); };
  VP_CHECK(denotes(R(f.base.num,f.base.den),R(f.exp.num,f.exp.den)),"stored as (" << f.base << ")^(" << f.exp << ")");
  auto a=f.string_repr<96>(); a[95]=0; for (std::string t : {f.to_string(),std::string(a.data())}) { // B or B^E, parts with a sign or a fraction in parentheses when there is an exponent
    auto k=t.find('^'); bool ok=true; auto part=[&](std::string s, bool par){ if (!s.empty() && s.front()=='(' && s.back()==')') s=s.substr(1,s.size()-2); else if (par && (s.find('/')!=std::string::npos || s.find('-')==0)) ok=false; auto l=s.find('/'); char* end; ll x=std::strtoll(s.c_str(),&end,10), y=1; if (l!=std::string::npos) { if (end!=s.c_str()+l) ok=false; y=std::strtoll(s.c_str()+l+1,&end,10); } if (s.empty() || *end || y<=0) ok=false; return ok?R(x,y):R(1); };
    R bb=part(t.substr(0,k),k!=std::string::npos), xx=k==std::string::npos?R(1):part(t.substr(k+1),false); VP_CHECK(ok && denotes(bb,xx),"printed as " << vp::quote(t)); }
}
VP_PROP(expressions, 500000, 8000000, "expressions of 1-8 operations (*,/,*=, integer and fractional power, square root, rational and integer operands on either side) over factors with small bases and exponents; value, stored form and all texts checked after each; non-trivial: two factors with different bases and different exponents are combined") {
  X x=gen(c); check(x,"the factor"); int k=c.size(1,8); bool mixed=false, frac=false;
  for (int i=0;i<k;++i) {
    c.d << (i?" ; ":"; ");
    switch (c.below(6)) {
      case 0: { c.d << "times "; X y=gen(c); if (!safe_pair(x.f,y.f)) continue; mixed |= !(x.f.base==y.f.base) && !(x.f.exp==y.f.exp); bool flip=c.b();
        if (c.chance(1,4)) { SF z=x.f; z*=y.f; x.f=z; } else { SF z = flip ? y.f*x.f : x.f*y.f; x.f=z; } x.p=x.p*y.p; break; }
      case 1: { c.d << "over "; X y=gen(c); bool flip=c.b(); if (flip) std::swap(x,y); if (y.p.zero || !safe_pair(x.f,y.f)) { if (flip) std::swap(x,y); continue; } mixed |= !(x.f.base==y.f.base) && !(x.f.exp==y.f.exp);
        SF z=x.f/y.f; x.f=z; x.p=x.p/y.p; break; }
      case 2: { int p=c.irange(-3,3); if (x.p.zero && p<=0) continue; c.d << "pow " << p; SF z=ekat::pow(x.f,p); x.f=z; x.p=x.p.pow(R(p)); break; }
      case 3: { ll p=c.range(-4,4), q=c.range(1,4); if (x.p.zero && p<=0) continue; if ((double)x.f.exp.den*q>1e6 || std::abs((double)x.f.exp.num*p)>1e6) continue; c.d << "pow " << p << "/" << q; SF z=ekat::pow(x.f,RC(p,q)); x.f=z; x.p=x.p.pow(R(p,q)); frac=true; break; }
      case 4: { if (x.f.exp.den>1e5) continue; c.d << "sqrt"; SF z=ekat::sqrt(x.f); x.f=z; x.p=x.p.pow(R(1,2)); frac=true; break; }
      default: { ll n=c.range(1,12), d=c.range(1,6); RC r(n,d); SF y(r); int op=(int)c.below(4); if ((op==3 && x.p.zero) || !safe_pair(x.f,y)) continue; Pos q=Pos::of(R(n,d));
        c.d << "rational " << n << "/" << d << " op " << op; mixed |= !(x.f.base==r) && !(x.f.exp==RC(1));
        SF z = op==0 ? x.f*r : op==1 ? r*x.f : op==2 ? x.f/r : r/x.f; x.f=z; x.p = op<2 ? x.p*q : op==2 ? x.p/q : q/x.p; }
    }
    check(x,"after step "+std::to_string(i));
    // equality with another representation of the same number, and with another number
    ll m=c.range(1,3); SF same = SF::one(); bool have=false;
    if (!x.p.zero && bits(x.f)*m<30) { same = SF(ekat::pow(x.f.base,m),x.f.exp/m); have=true; }
    else if (x.p.zero) { same = SF(RC(0),RC(m)); have=true; }
    if (have && safe_pair(x.f,same)) VP_CHECK(x.f==same && same==x.f && !(x.f!=same),x.f.base << "^" << x.f.exp << " is not equal to " << same.base << "^" << same.exp);
    c.d << " vs "; X y=gen(c); if (safe_pair(x.f,y.f)) VP_CHECK((x.f==y.f)==(x.p==y.p) && (x.f!=y.f)==!(x.p==y.p),"comparison of " << x.p.text() << " and " << y.p.text() << " gives " << (x.f==y.f));
    ll n=c.range(1,9), d=c.range(1,3); RC r(n,d); if (safe_pair(x.f,SF(r))) VP_CHECK((x.f==r)==(x.p==Pos::of(R(n,d))) && (r==x.f)==(x.f==r),"comparison with the rational " << n << "/" << d);
  }
  c.nontrivial(mixed); c.label("fractional power",frac); c.label("zero",x.p.zero); c.label("fractional exponent",x.f.exp.den!=1); c.label("fractional base",x.f.base.den!=1);
}
