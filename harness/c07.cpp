// C07: rational constants against exact 128-bit arithmetic
#define VP_MAIN
#include "vp.hpp"
#include "ekat_rational_constant.hpp"
#include "ekat_scaling_factor.hpp"
#include "rat.hpp"
void vp_init (int&, char**&) {}
void vp_fini () {}
using RC = ekat::RationalConstant; using ll = long long;
static void canonical (const RC& x, const R& r, const std::string& what) {
  VP_CHECK(x.den>0,what << " = " << x.num << "/" << x.den << ": the denominator is not positive");
  VP_CHECK(x.num==(ll)r.n && x.den==(ll)r.d,what << " = " << x.num << "/" << x.den << ", expected " << txt(r));
}
static ll num (vp::Case& c, ll big) {
  switch (c.weighted({6,3,2,1})) { case 0: return c.range(-12,12); case 1: return c.range(-1000,1000); case 2: return c.range(-big,big);
    default: return c.pick<ll>({10,100,1000,1000000,-10,-100,-99,99,big,-big,64,81,-1024}); }
}
static const ll LIM=(1ll<<30), MAXV=(1ll<<62);
static bool fits (i128 v) { return absi(v)<=MAXV; }
VP_PROP(construction, 600000, 10000000, "numerator and denominator of either sign up to 2^62 (zero denominators included), built from several integer types; non-trivial: the fraction is reducible or has a negative denominator") {
  ll n=num(c,MAXV), d=num(c,MAXV);
  c.d << "RationalConstant(" << n << "," << d << ")";
  if (d==0) {
    VP_CHECK(vp::throws([&]{ RC x(n,d); (void)x; }),"a zero denominator is accepted");
    VP_CHECK(vp::throws([&]{ auto x=RC(n)/RC(0); (void)x; }),"division by zero is accepted");
    c.label("zero denominator"); return;
  }
  R r(n,d); RC x(n,d);
  canonical(x,r,"the constant");
  canonical(-x,-r,"the negated constant");
  canonical(RC(n),R(n),"the integer constant");
  if (std::abs(n)<2000000000 && std::abs(d)<2000000000) { canonical(RC((int)n,(int)d),r,"the constant built from int"); canonical(RC((int)n),R(n),"the constant built from one int"); }
  if (std::abs(n)<30000 && std::abs(d)<30000) canonical(RC((short)n,(short)d),r,"the constant built from short");
  VP_CHECK(x.to_string()==txt(r) && x.to_string(ekat::Format::Rat)==txt(r),"to_string gives " << x.to_string() << ", expected " << txt(r));
  std::ostringstream o; o << x; VP_CHECK(o.str()==txt(r),"stream output gives " << o.str());
  auto s=x.string_repr<64>(); s[63]=0; VP_CHECK(std::string(s.data())==txt(r),"string_repr gives " << s.data() << ", expected " << txt(r));
  double f=std::strtod(x.to_string(ekat::Format::Float).c_str(),nullptr), e=r.dbl();
  double half = e==0 ? 0 : 0.5*std::pow(10,std::floor(std::log10(std::abs(e)))-5); // six digits
  VP_CHECK(std::abs(f-e)<=half*(1+1e-6),"the float text is " << x.to_string(ekat::Format::Float) << ", expected about " << e);
  c.nontrivial(d<0 || r.d!=d); c.label("negative denominator",d<0); c.label("multi-digit negative",r.n<-9 && r.d==1); c.label("large",std::abs(n)>LIM);
}
VP_PROP(arithmetic, 600000, 10000000, "chains of 1-12 operations (+,-,*,/, integer power, negation, mixed with plain integers on either side) that stay inside the integer type, compared with the exact result after each; non-trivial: at least three operations and a non-integer value on the way") {
  ll n=num(c,LIM), d=num(c,LIM); if (d==0) d=1;
  RC x(n,d); R r(n,d); c.d << n << "/" << d; canonical(x,r,"start");
  int k=c.size(1,12), done=0; bool frac=r.d!=1;
  for (int i=0;i<k;++i) {
    ll yn=num(c,LIM), yd=num(c,LIM); if (yd==0) yd=1; bool plain=c.chance(1,4); if (plain) yd=1;
    R q(yn,yd); RC y(yn,yd); bool flip=c.b();
    switch (c.below(6)) {
      case 0: case 1: case 2: {
        int op=(int)c.below(3);
        if (op==0 || op==1) {
          if (!fits(r.n*q.d)||!fits(q.n*r.d)||!fits(r.n*q.d+q.n*r.d)||!fits(r.n*q.d-q.n*r.d)||!fits(r.d*q.d)) continue;
          c.d << (flip?" flip":"") << (op?" -":" +") << " " << yn << "/" << yd;
          if (op==0) { x = plain ? (flip ? yn+x : x+yn) : (flip ? y+x : x+y); r=r+q; }
          else { x = plain ? (flip ? yn-x : x-yn) : (flip ? y-x : x-y); r = flip ? q-r : r-q; }
        } else {
          if (!fits(r.n*q.n)||!fits(r.d*q.d)) continue;
          c.d << " * " << yn << "/" << yd;
          x = plain ? (flip ? yn*x : x*yn) : (flip ? y*x : x*y); r=r*q;
        } break; }
      case 3: {
        if (!fits(r.n*q.d)||!fits(r.d*q.n)) continue;
        c.d << (flip?" flip":"") << " / " << yn << "/" << yd;
        R a = flip?q:r, b = flip?r:q;
        if (b.n==0) { VP_CHECK(vp::throws([&]{ auto z = flip ? y/x : x/y; (void)z; }),"division by zero is accepted"); c.label("division by zero"); continue; }
        x = plain ? (flip ? yn/x : x/yn) : (flip ? y/x : x/y); r=a/b; break; }
      case 4: {
        int p=c.irange(-6,6); if (absi(r.n)<=1 && r.d==1 && c.b()) p=(int)c.range(-1000000,1000000);
        i128 mx=std::max(absi(r.n),r.d); bool ok=true; i128 acc=1; if (mx>1) for (int t=0;t<std::abs(p);++t) { acc*=mx; if (!fits(acc)) { ok=false; break; } }
        if (!ok) continue;
        c.d << " pow " << p;
        if (r.n==0 && p<=0) { VP_CHECK(vp::throws([&]{ auto z=ekat::pow(x,p); (void)z; }),"zero to the power " << p << " is accepted"); c.label("zero to a non-positive power"); continue; }
        R b = p<0 ? R(r.d,r.n) : r; R out(1); if (absi(b.n)<=1 && b.d==1) out = (std::abs(p)%2==0) ? R(b.n*b.n) : b; else for (int t=0;t<std::abs(p);++t) out=out*b;
        if (p==0) out=R(1);
        x = c.b() ? ekat::pow(x,p) : ekat::pow(x,(ll)p); r=out; c.label("power"); c.label("power of zero",b.n==0); break; }
      default: c.d << " negate"; x=-x; r=-r;
    }
    ++done; frac|=r.d!=1;
    canonical(x,r,"after step "+std::to_string(i));
    // comparisons with an equal value produced otherwise, and with another one
    ll g=c.irange(1,5); if (c.b()) g=-g;
    if (fits(r.n*g) && fits(r.d*g) && fits(r.n*r.d)) { RC e((ll)r.n*g,(ll)r.d*g); VP_CHECK(e==x && !(e!=x) && x==e,txt(r) << " is not equal to itself times " << g << "/" << g); }
    if (fits(r.n*q.d) && fits(q.n*r.d)) { VP_CHECK((x==y)==(r==q) && (x!=y)==(r!=q),"comparison of " << txt(r) << " with " << txt(q)); }
    if (fits(r.n*r.d) && r.n!=0) VP_CHECK(!(x==-x) && x!=-x,txt(r) << " equals its opposite");
  }
  c.nontrivial(done>2 && frac); c.label("fraction",frac);
}
VP_PROP(rejections, 100000, 1000000, "even and odd roots of rationals of either sign, and 0^0, through scaling factors; non-trivial: the base is negative") {
  ll n=c.range(-20,20), d=c.range(1,9), p=c.range(-5,5), q=c.range(1,6); R e(p,q), b(n,d);
  c.d << "(" << n << "/" << d << ")^(" << p << "/" << q << ")";
  bool bad = (b.n==0 && e.n==0) || (b.n<0 && e.d%2==0);
  bool thrown=vp::throws([&]{ ekat::ScalingFactor f(RC(n,d),RC(p,q)); (void)f; });
  if (!(b.n==0 && e.n<0)) VP_CHECK(thrown==bad,(bad?"an undefined power is accepted":"a defined power is rejected"));
  if (b.n<0) VP_CHECK(vp::throws([&]{ auto x=ekat::sqrt(ekat::ScalingFactor(RC(n,d))); (void)x; }),"the square root of a negative number is accepted");
  c.nontrivial(n<0); c.label("rejected",bad);
}
