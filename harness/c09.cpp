// C09: units against exact scale and dimension vectors
#define VP_MAIN
#include "vp.hpp"
#include "ekat_units.hpp"
#include "units_ref.hpp"
void vp_init (int&, char**&) {}
void vp_fini () {}
using namespace ekat; using RC = RationalConstant; using SF = ScalingFactor; using units::Units; using ll = long long;
static UV dims (std::initializer_list<int> u, ll n = 1, ll d = 1) { UV v; int i=0; for (int x:u) v.u[i++]=R(x); v.s=Pos::of(R(n,d)); return v; }
struct Leaf { const char* name; const Units* u; UV v; SF s; Leaf (const char* n, const Units* u_, const UV& v_, RC r) : name(n), u(u_), v(v_), s(r) {} };
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
static const std::vector<Leaf>& leaves () {
  static const std::vector<Leaf> L {
    {"m",&units::m,dims({1}),1}, {"s",&units::s,dims({0,1}),1}, {"kg",&units::kg,dims({0,0,1}),1}, {"K",&units::K,dims({0,0,0,1}),1}, {"A",&units::A,dims({0,0,0,0,1}),1},
    {"mol",&units::mol,dims({0,0,0,0,0,1}),1}, {"cd",&units::cd,dims({0,0,0,0,0,0,1}),1}, {"1",&units::none,dims({}),1},
    {"h",&units::h,dims({0,1},3600),3600}, {"day",&units::day,dims({0,1},86400),86400}, {"yr",&units::year,dims({0,1},31536000),31536000}, {"g",&units::g,dims({0,0,1},1,1000),RC(1,1000)},
    {"N",&units::N,dims({1,-2,1}),1}, {"Pa",&units::Pa,dims({-1,-2,1}),1}, {"bar",&units::bar,dims({-1,-2,1},100000),100000}, {"atm",&units::atm,dims({-1,-2,1},101325),101325},
    {"J",&units::J,dims({2,-2,1}),1}, {"W",&units::W,dims({2,-3,1}),1}, {"C",&units::C,dims({0,1,0,0,1}),1}, {"V",&units::V,dims({2,-3,1,0,-1}),1}, {"T",&units::T,dims({0,-2,1,0,-1}),1},
    {"F",&units::F,dims({-2,4,-1,0,2}),1}, {"Wb",&units::Wb,dims({2,-2,1,0,-1}),1}, {"H",&units::H,dims({2,-2,1,0,-2}),1}, {"Sv",&units::Sv,dims({2,-2}),1}, {"Hz",&units::Hz,dims({0,-1}),1},
    {"rad",&units::rad,dims({}),1}, {"sr",&units::sr,dims({}),1}, {"dyn",&units::dyn,dims({1,-2,1},1,100000),RC(1,100000)}, {"rem",&units::rem,dims({2,-2},1,100),RC(1,100)} };
  return L;
}
struct Pref { const char* l; SF f; int e; };
static const std::vector<Pref>& prefs () {
  static const std::vector<Pref> P {{"n",prefixes::nano,-9},{"u",prefixes::micro,-6},{"m",prefixes::milli,-3},{"c",prefixes::centi,-2},{"h",prefixes::hecto,2},{"k",prefixes::kilo,3},{"M",prefixes::mega,6},{"G",prefixes::giga,9}};
  return P;
}
using Names = std::map<std::string,UV>;
struct X { Units u; UV v; SF s; };  // s mirrors the scaling inside u, for the overflow guard only
static bool fits (const SF& f) { return bits(f)*std::abs((double)f.exp.num)<61; }
static bool symbol (const std::string& t) { return t.find_first_of("*/^ ()")==std::string::npos && !t.empty() && !isdigit((unsigned char)t[0]); }
static RC rc (const R& r) { return RC((ll)r.n,(ll)r.d); }
static void check (const X& x, const Names& names) {
  auto si=x.u.get_si_string(); auto w=read_si(si);
  VP_CHECK(w==x.v,"SI text " << vp::quote(si) << " reads " << w.text() << ", expected " << x.v.text());
  auto t=x.u.to_string(); auto z=read_text(t,&names);
  VP_CHECK(z==x.v,"name " << vp::quote(t) << " reads " << z.text() << ", expected " << x.v.text());
  std::ostringstream o; o << x.u; VP_CHECK(o.str()==t,"stream output differs from to_string");
  VP_CHECK(x.u.is_dimensionless()==x.v.dimless(),"is_dimensionless is " << x.u.is_dimensionless());
  VP_CHECK(x.u.is_scaled()==!(x.v.s==Pos()),"is_scaled is " << x.u.is_scaled());
  VP_CHECK(x.u.has_symbol()==(t.find_first_of("*/^ ()")==std::string::npos),"has_symbol is " << x.u.has_symbol() << " for " << t);
  if (safe_pair(x.s,x.s)) {
    Units same(rc(x.v.u[0]),rc(x.v.u[1]),rc(x.v.u[2]),rc(x.v.u[3]),rc(x.v.u[4]),rc(x.v.u[5]),rc(x.v.u[6]),x.s,"other");
    VP_CHECK(x.u==same && same==x.u && !(x.u!=same),"not equal to the unit with the same scale and dimensions; SI text " << si);
    // and with one dimension or the scale changed a little
    std::array<R,7> w=x.v.u; for (int k=0;k<7;++k) for (R o : {w[k]+R(1),R(w[k].n,w[k].d*2),R(w[k].n+(w[k].n==0?1:0),w[k].d*3),-w[k]}) { if (o==w[k]) continue; auto v=w; v[k]=o;
      Units near(rc(v[0]),rc(v[1]),rc(v[2]),rc(v[3]),rc(v[4]),rc(v[5]),rc(v[6]),x.s,"other"); VP_CHECK(!(x.u==near) && !(near==x.u) && x.u!=near,"equal to a unit with another exponent of base unit " << k << ": " << txt(o) << "; SI text " << si); }
  }
}
// Fractional powers are only taken of units built here with a known representation of the scale: whether intermediate
// products fit 64 bits depends on it. The predefined units are used in the cases without fractional powers.
static bool fractional;
static X gen (vp::Case& c, Names& names, int depth, int& nren);
static Pos pos (const SF& f) { return Pos::of(R(f.base.num,f.base.den),R(f.exp.num,f.exp.den)); }
// scale applied to a unit; returns false (x unchanged) if outside the domain
static bool scale (vp::Case& c, Names& names, X& x, const SF& f, const Pos& p, int how) { // how: 0 f*u, 1 u*f, 2 u/f, 3 f/u
  auto t=x.u.to_string(); if (!safe_pair(x.s,f) || !safe_pair(f,prefixes::nano) || t.size()>70) return false;
  if (how<2) {
    const Pref* pf=nullptr; for (auto& q:prefs()) if (p==Pos::of(R(10),R(q.e))) pf=&q;
    if (pf) {
      if (!t.empty() && isdigit((unsigned char)t[0]) && t.find_first_of("*/^ ()")==std::string::npos) return false; // prefix of a bare number
      if (symbol(t)) { auto n=pf->l+t; UV nv=x.v; nv.s=nv.s*p; auto it=names.find(n); if (it!=names.end() && !(it->second==nv)) return false; names[n]=nv; c.label("prefixed symbol"); }
    }
    SF s=f*x.s; if (pf && symbol(t)) s=x.s*f;
    if (!fits(s)) return false;
    Units u = how==0 ? f*x.u : x.u*f; x.u=u; x.v.s=x.v.s*p; x.s=s;
  } else if (how==2) { Units u=x.u/f; SF s=x.s/f; if (!fits(s)) return false; x.u=u; x.v.s=x.v.s/p; x.s=s; }
  else { if (p.zero) return false; Units u=f/x.u; SF s=f/x.s; if (!fits(s)) return false; x.u=u; UV one; one.s=p; x.v=one/x.v; x.s=s; }
  return true;
}
static X gen (vp::Case& c, Names& names, int depth, int& nren) {
  int op = depth<=0 ? 0 : (int)c.weighted({4,5,5,4,3,3,2,1});
  switch (op) {
    case 1: case 2: {
      c.d << "("; X a=gen(c,names,depth-1,nren); c.d << (op==1?" * ":" / "); X b=gen(c,names,depth-1,nren); c.d << ")";
      auto ta=a.u.to_string(), tb=b.u.to_string();
      if (!safe_pair(a.s,b.s) || ta.size()+tb.size()>110 || (op==2 && b.v.s.zero) || !fits(op==1 ? a.s*b.s : a.s/b.s)) { c.d << "[left only]"; return a; }
      X r{ op==1 ? a.u*b.u : a.u/b.u, op==1 ? a.v*b.v : a.v/b.v, op==1 ? a.s*b.s : a.s/b.s };
      // laws between the two operands
      if (op==1 && safe_pair(r.s,b.s*a.s)) VP_CHECK(a.u*b.u==b.u*a.u,"the product does not commute");
      if (safe_pair(a.s,b.s)) VP_CHECK((a.u==b.u)==(a.v==b.v) && (a.u!=b.u)==!(a.v==b.v),"comparison of " << ta << " and " << tb << " gives " << (a.u==b.u));
      check(r,names); return r; }
    case 3: {
      ll p=c.range(-3,3), q = !fractional || c.chance(1,2) ? 1 : c.range(2,3); if (c.chance(1,10)) p=c.pick<ll>({-12,10,-10,12});
      c.d << "pow("; X a=gen(c,names,depth-1,nren); c.d << "," << p << "/" << q << ")"; auto t=a.u.to_string();
      double nn=(double)a.s.exp.num*p, dd=(double)a.s.exp.den*q; bool big=false; for (auto& x:a.v.u) big |= absi(x.n*p)>1000000 || x.d*q>1000000;
      if (t.size()>90 || std::abs(nn)>1000 || dd>1000 || big || !fits(pow(a.s,RC(p,q)))) { c.d << "[base only]"; return a; }
      X r{ pow(a.u,RC(p,q)), a.v.pow(R(p,q)), pow(a.s,RC(p,q)) };
      if (p==1 && q==2) { Units sq=sqrt(a.u); X y{sq,r.v,r.s}; check(y,names); }
      check(r,names); return r; }
    case 4: { // prefix
      auto& pf=c.pick(prefs()); bool right=c.b(); c.d << pf.l << "-prefix "; X a=gen(c,names,depth-1,nren); if (scale(c,names,a,pf.f,Pos::of(R(10),R(pf.e)),right)) check(a,names); return a; }
    case 5: { // scaling
      ll n=c.pick<ll>({1,2,3,5,7,10,60,100,1000,3600}), d=c.b()?1:c.pick<ll>({1,2,3,10,1000}); int how=(int)c.below(4); int kind=fractional ? (int)c.below(3) : 0; ll q = kind==2 ? 2 : 1;
      c.d << "scale" << how << "(" << n << "/" << d << (q==2?" ^1/2":"") << ") "; X a=gen(c,names,depth-1,nren);
      SF f(RC(n,d),RC(1ll,q)); Pos p=Pos::of(R(n,d),R(1,q));
      if (scale(c,names,a,f,p,how)) {
        check(a,names);
      }
      return a; }
    case 6: { X a=gen(c,names,depth-1,nren); std::string n="x"+std::to_string(++nren)+"x"; c.d << " as " << n; X r{a.u.rename(n),a.v,a.s}; names[n]=a.v; VP_CHECK(r.u.to_string()==n,"renamed unit is called " << r.u.to_string()); VP_CHECK(!safe_pair(a.s,a.s) || r.u==a.u,"renaming changes the unit"); check(r,names); return r; }
    case 7: { ll n=c.range(1,20), d=c.range(1,6), p=c.range(-2,3); SF f(RC(n,d),RC(p)); c.d << "number " << n << "/" << d << "^" << p; UV v; v.s=Pos::of(R(n,d),R(p)); X r{Units(f),v,f}; check(r,names); return r; }
    default: { auto& l=c.pick(leaves()); c.d << l.name; if (!fractional) return X{*l.u,l.v,l.s};
      auto& u=l.v.u; Units mine(rc(u[0]),rc(u[1]),rc(u[2]),rc(u[3]),rc(u[4]),rc(u[5]),rc(u[6]),l.s,l.name); return X{mine,l.v,l.s}; }
  }
}
VP_PROP(predefined, 300, 3000, "every predefined unit against its SI definition; non-trivial: all") {
  Names names; for (auto& l:leaves()) if (l.name[0]!='1') names[l.name]=l.v;
  auto& l=leaves()[c.below(leaves().size())]; c.d << l.name; X x{*l.u,l.v,l.s};
  VP_CHECK(x.u.to_string()==l.name,"called " << x.u.to_string()); check(x,names);
  for (auto& k:leaves()) VP_CHECK((*k.u==*l.u)==(k.v==l.v),l.name << " and " << k.name << " compare " << (*k.u==*l.u));
  auto& p=c.pick(prefs()); VP_CHECK(pos(p.f)==Pos::of(R(10),R(p.e)),"prefix " << p.l << " is " << p.f);
  c.nontrivial();
}
VP_PROP(expressions, 400000, 8000000, "expression trees of depth 1-4 over all predefined units with products, quotients, rational powers, roots, prefixes, scale factors and renamings; scale, dimensions, equality, SI text and name text checked at every node; non-trivial: at least two operations and not dimensionless") {
  Names names; for (auto& l:leaves()) if (l.name[0]!='1') names[l.name]=l.v;
  int nren=0; fractional=c.b(); c.d << (fractional?"[own units] ":""); X x=gen(c,names,c.irange(1,4),nren); check(x,names);
  auto t=x.u.to_string(); int ops=0; for (char ch:t) ops += ch=='*'||ch=='/'||ch=='^';
  c.nontrivial(ops>1 && !x.v.dimless()); c.label("scaled",!(x.v.s==Pos())); c.label("fractional dimension",[&]{ for (auto& r:x.v.u) if (r.d!=1) return true; return false; }()); c.label("dimensionless",x.v.dimless());
}
