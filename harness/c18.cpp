// C18: pack arithmetic and math functions lane by lane, element type T given at compile time
#define VP_MAIN
#include "vp.hpp"
#include "pack_gen.hpp"
void vp_init (int&, char**&) {}
void vp_fini () {}
using T=VP_T; using ekat::Pack; using ekat::Mask; constexpr bool FL=std::is_floating_point<T>::value;
// results are kept apart so that comparing one does not disturb the other
struct Lim { long a, m; }; // bounds of integers for sums and for products
constexpr Lim lim = sizeof(T)==8 ? Lim{1L<<40,1L<<30} : Lim{1L<<29,30000};
template<typename X> using sc=typename X::scalar;
#define TYPE(expr,want) VP_CHECK((std::is_same<sc<std::decay_t<decltype(expr)>>,want>::value),"wrong element type of " #expr)
template<int N, typename S> static void bin_ops (vp::Case& c, const Pack<T,N>& a, const Pack<S,N>& b, S s, bool div) {
  using R=std::common_type_t<T,S>; const auto a0=a; const auto b0=b; (void)c;
  { auto r=a+b; TYPE(r,R); lanes("pack + pack",r,[&](int i){ return a0[i]+b0[i]; }); }
  { auto r=a-b; TYPE(r,R); lanes("pack - pack",r,[&](int i){ return a0[i]-b0[i]; }); }
  { auto r=a*b; TYPE(r,R); lanes("pack * pack",r,[&](int i){ return a0[i]*b0[i]; }); }
  { auto r=a+s; TYPE(r,R); lanes("pack + scalar",r,[&](int i){ return a0[i]+s; }); } { auto r=s+a; TYPE(r,R); lanes("scalar + pack",r,[&](int i){ return s+a0[i]; }); }
  { auto r=a-s; TYPE(r,R); lanes("pack - scalar",r,[&](int i){ return a0[i]-s; }); } { auto r=s-a; TYPE(r,R); lanes("scalar - pack",r,[&](int i){ return s-a0[i]; }); }
  { auto r=a*s; TYPE(r,R); lanes("pack * scalar",r,[&](int i){ return a0[i]*s; }); } { auto r=s*a; TYPE(r,R); lanes("scalar * pack",r,[&](int i){ return s*a0[i]; }); }
  if (div) {
    { auto r=a/b; TYPE(r,R); lanes("pack / pack",r,[&](int i){ return a0[i]/b0[i]; }); }
    { auto r=a/s; TYPE(r,R); lanes("pack / scalar",r,[&](int i){ return a0[i]/s; }); }
    { auto r=s/b; lanes("scalar / pack",r,[&](int i){ return s/b0[i]; }); }
  }
  VP_CHECK(same_pack(a,a0) && same_pack(b,b0),"an operand changed");
}
template<int N, typename S> static void assign_ops (vp::Case& c, const Pack<T,N>& a, const Pack<S,N>& b, S s, bool div) {
  const auto a0=a; const auto b0=b; int k=c.irange(0,N-1);
#define ASG(op) { Pack<T,N> x(a); auto& r=(x op b); VP_CHECK(&r==&x,"pack " #op " pack returns another object"); lanes("pack " #op " pack",x,[&](int i){ T v=a0[i]; v op b0[i]; return v; }); } \
    { Pack<T,N> x(a); auto& r=(x op s); VP_CHECK(&r==&x,"pack " #op " scalar returns another object"); lanes("pack " #op " scalar",x,[&](int i){ T v=a0[i]; v op s; return v; }); } \
    { Pack<T,N> x(a); volatile Pack<T,N>& v=x; v op b; lanes("volatile pack " #op " pack",x,[&](int i){ T w=a0[i]; w op b0[i]; return w; }); }
  ASG(=) ASG(+=) ASG(-=) ASG(*=)
  if (div) { ASG(/=) }
#undef ASG
  VP_CHECK(same_pack(a,a0) && same_pack(b,b0),"an operand changed");
  // operands that alias each other: the operation on the values before
#define ALI(op) { Pack<T,N> x(a); x op x; lanes("x " #op " x",x,[&](int i){ T v=a0[i]; v op a0[i]; return v; }); } \
    { Pack<T,N> x(a); x op x[k]; lanes("x " #op " x[k]",x,[&](int i){ T v=a0[i]; v op a0[k]; return v; }); }
  ALI(+=) ALI(-=) ALI(*=)
  bool az=false; for (int i=0;i<N;++i) az|=a0[i]==T(0);
  if (FL || !az) { ALI(/=) }
  { Pack<T,N> x(a); x=x[k]; lanes("x = x[k]",x,[&](int){ return a0[k]; }); }
#undef ALI
}
template<int N> static void arith (vp::Case& c) {
  bool ext=FL && c.chance(1,2); auto a=pack<T,N>(c,lim.m,ext), b=pack<T,N>(c,lim.m,ext); T s=lane<T>(c,lim.m,ext);
  bool div=true; if (!FL) { for (int i=0;i<N;++i) if (b[i]==T(0)) b[i]=T(1); if (s==T(0)) s=T(3); }
  c.d << "Pack<T," << N << "> " << tx(a) << " " << tx(b) << " scalar " << tx(s);
  bin_ops<N,T>(c,a,b,s,div); assign_ops<N,T>(c,a,b,s,div);
  { const auto a0=a; auto r=-a; TYPE(r,T); lanes("-pack",r,[&](int i){ return -a0[i]; }); VP_CHECK(same_pack(a,a0),"negation changed its operand"); }
  bool differ=false; for (int i=1;i<N;++i) differ|=!same_lane((T)a[i],(T)a[0]); c.nontrivial(differ || N==1); c.label("extremes",ext);
}
VP_PROP(arithmetic, 60000, 1500000, "packs of 1-32 random lanes (for floating point half of the cases with zeros of both signs, infinities, NaN, subnormal and huge values), all operators and compound assignments in every operand order, aliased operands included; non-trivial: the lanes are not all alike") { SIZES(arith) }
template<int N> static void mixed (vp::Case& c) {
  auto a=pack<T,N>(c,20000,false); int k=(int)c.below(4); c.d << "Pack<T," << N << "> " << tx(a) << " with " << (k==0?"int":k==1?"long":k==2?"float":"double");
  auto go=[&](auto z){ using S=decltype(z); auto b=pack<S,N>(c,20000,false); S s=lane<S>(c,20000,false); for (int i=0;i<N;++i) if (std::abs((double)b[i])<1) b[i]=S(1); if (std::abs((double)s)<1) s=S(2);
    c.d << " " << tx(b) << " scalar " << tx(s); bin_ops<N,S>(c,a,b,s,true);
    // the converting assignments change a value of type T: stay where the conversion back is defined
    bin_ops<N,S>(c,a,b,s,true); for (int i=0;i<N;++i) { if (std::abs((double)b[i])<1e-3) b[i]=S(1); } assign_ops<N,S>(c,a,b,s,true);
    const auto b0=b; Pack<T,N> q(b); lanes("Pack(other pack)",q,[&](int i){ return (T)b0[i]; }); Pack<S,N> r(a); lanes("Pack(other pack)",r,[&](int i){ return (S)a[i]; }); };
  if (k==0) go(int{}); else if (k==1) go(long{}); else if (k==2) go(float{}); else go(double{});
  c.nontrivial();
}
VP_PROP(mixed_types, 40000, 1000000, "packs and scalars of two element types out of int, long, float, double in every operator and order, conversions of packs; every case counts") { switch (c.below(3)) { case 0: mixed<2>(c); break; case 1: mixed<4>(c); break; default: mixed<16>(c); } }
template<int N> static void build (vp::Case& c) {
  auto a=pack<T,N>(c,lim.m,FL), b=pack<T,N>(c,lim.m,FL); T s=lane<T>(c,lim.m,FL), s2=lane<T>(c,lim.m,FL); auto m=mask<N>(c); const auto a0=a, b0=b; c.d << "Pack<T," << N << "> " << tx(a) << tx(b) << " mask " << tx(m) << " scalars " << tx(s) << "," << tx(s2);
  { Pack<T,N> x; lanes("Pack()",x,[&](int){ return T(0); }); } { Pack<T,N> x(s); lanes("Pack(scalar)",x,[&](int){ return s; }); } { Pack<T,N> x=a; lanes("copy",x,[&](int i){ return a0[i]; }); }
  { volatile Pack<T,N>& v=a; Pack<T,N> x(v); lanes("copy of a volatile pack",x,[&](int i){ return a0[i]; }); }
  { Pack<T,N> x(m,s); lanes("Pack(mask,scalar)",x,[&](int i){ return m[i]?s:T(0); }); } { Pack<T,N> x(m,s,s2); lanes("Pack(mask,scalar,scalar)",x,[&](int i){ return m[i]?s:s2; }); }
  { Pack<T,N> x(m,a); lanes("Pack(mask,pack)",x,[&](int i){ return m[i]?a0[i]:T(0); }); } { Pack<T,N> x(m,a,b); lanes("Pack(mask,pack,pack)",x,[&](int i){ return m[i]?a0[i]:b0[i]; }); }
  { const Pack<T,N>& r=a; for (int i=0;i<N;++i) VP_CHECK(&r[i]==&a[i] && (const char*)&a[i]==(const char*)&a+i*sizeof(T),"lane " << i << " is elsewhere"); VP_CHECK(sizeof(a)==N*sizeof(T),"a pack takes " << sizeof(a) << " bytes"); }
  { Pack<T,N> x(a); for (int i=0;i<N;++i) { T v=lane<T>(c,9,false); x[i]=v; for (int j=0;j<N;++j) VP_CHECK(same_lane((T)x[j],j==i?v:j>i?a0[j]:(T)x[j]),"writing lane " << i << " changed lane " << j); } }
  if constexpr (FL) { auto p=ekat::invalid<Pack<T,N>>(); for (int i=0;i<N;++i) VP_CHECK(p[i]!=p[i],"lane " << i << " of invalid is a number"); } else { auto p=ekat::invalid<Pack<T,N>>(); lanes("invalid",p,[&](int){ return std::numeric_limits<T>::max(); }); }
  { auto p=ekat::range<Pack<T,N>>((T)c.range(-100,100)); (void)p; }
  VP_CHECK(same_pack(a,a0) && same_pack(b,b0),"an operand changed"); c.nontrivial(!same_pack(a,b));
}
VP_PROP(construction, 60000, 1000000, "construction from scalars, packs, masks with one or two choices, lane access; non-trivial: the two packs differ") { SIZES(build) }
template<int N> static void upd (vp::Case& c) {
  auto y=pack<T,N>(c,1000,FL && c.chance(1,3)), x=pack<T,N>(c,1000,false), z=pack<T,N>(c,1000,false); T al=lane<T>(c,1000,false), be=c.chance(1,6)?T(0):lane<T>(c,1000,false); auto m=mask<N>(c); const auto y0=y, x0=x; c.d << "Pack<T," << N << "> y=" << tx(y) << " x=" << tx(x) << " z=" << tx(z) << " alpha=" << tx(al) << " beta=" << tx(be) << " mask " << tx(m);
  auto ax=[&](T b, T a, T yy, T xx)->T{ return b==T(0)?T(a*xx):T(b*yy+a*xx); }; // with beta=0 the old value is not used
#define UPD(call,want) { Pack<T,N> q(y0); auto& r=q.call; VP_CHECK(&r==&q,#call " returns another object"); for (int i=0;i<N;++i) { T w=T(want); VP_CHECK(vp::same_val((T)q[i],w),#call << ": lane " << i << " of " << N << " is " << tx(q[i]) << ", expected " << tx(w)); } }
  UPD(update(x,al,be),ax(be,al,y0[i],x0[i])) UPD(update(x,al),ax(0,al,y0[i],x0[i])) UPD(update(x),ax(0,1,y0[i],x0[i])) UPD(add(x,al),ax(1,al,y0[i],x0[i])) UPD(add(x),ax(1,1,y0[i],x0[i]))
  UPD(update(m,x,al,be),m[i]?ax(be,al,y0[i],x0[i]):y0[i]) UPD(update(m,x,al),m[i]?ax(0,al,y0[i],x0[i]):y0[i]) UPD(update(m,x),m[i]?ax(0,1,y0[i],x0[i]):y0[i]) UPD(add(m,x,al),m[i]?ax(1,al,y0[i],x0[i]):y0[i]) UPD(add(m,x),m[i]?ax(1,1,y0[i],x0[i]):y0[i])
  UPD(update(m,x,z,al,be),ax(be,al,y0[i],m[i]?x0[i]:z[i])) UPD(update(m,x,z,al),ax(0,al,y0[i],m[i]?x0[i]:z[i])) UPD(add(m,x,z,al),ax(1,al,y0[i],m[i]?x0[i]:z[i])) UPD(add(m,x,z),ax(1,1,y0[i],m[i]?x0[i]:z[i]))
  UPD(update(q,al,be),ax(be,al,y0[i],y0[i])) UPD(update(m,q,x,al,be),ax(be,al,y0[i],m[i]?y0[i]:x0[i]))
  if constexpr (FL) { auto xi=pack<int,N>(c,1000,false); int ai=c.irange(-50,50), bi=c.irange(-50,50); auto bx=[&](int i)->T{ return bi==0?T(ai*xi[i]):T(bi*y0[i]+ai*xi[i]); }; UPD(update(xi,ai,bi),bx(i)) UPD(update(m,xi,ai,bi),m[i]?bx(i):y0[i]) UPD(update(xi,al,be),be==T(0)?T(al*xi[i]):T(be*y0[i]+al*xi[i])) UPD(update(xi),T(xi[i])) UPD(update(m,xi),m[i]?T(xi[i]):y0[i]) }
  VP_CHECK(same_pack(x,x0),"an operand changed"); c.nontrivial(be!=T(0) && al!=T(0) && be!=al); c.label("beta is zero",be==T(0)); { bool nf=false; for (int i=0;i<N;++i) nf|=!(std::abs((double)y0[i])<=1e300); c.label("not finite before",nf); }
}
VP_PROP(updates, 60000, 1500000, "y = beta y + alpha x in all its forms, masked with one or two sources, default coefficients, y itself as source, y not finite (ignored when beta is zero); non-trivial: both coefficients differ and are not zero") { SIZES(upd) }
template<typename X> static bool one_of (X got, X a, X b) { return same_lane(got,a) || same_lane(got,b); }
template<int N> static void minmax (vp::Case& c) {
  auto a=pack<T,N>(c,lim.a,FL), b=pack<T,N>(c,lim.a,FL); if (c.chance(1,4)) b[0]=a[0]; T s=c.chance(1,3)?a[N-1]:lane<T>(c,lim.a,FL); const auto a0=a, b0=b; c.d << "Pack<T," << N << "> " << tx(a) << " " << tx(b) << " scalar " << tx(s);
  auto chk=[&](const char* w, const Pack<T,N>& r, bool mn, auto f){ for (int i=0;i<N;++i) { auto [x,y]=f(i); if (x!=x || y!=y) { VP_CHECK(one_of((T)r[i],x,y),w << ": lane " << i << " of " << N << " is " << tx(r[i]) << " for " << tx(x) << " and " << tx(y)); continue; }
      T want = mn ? (y<x?y:x) : (x<y?y:x); VP_CHECK(r[i]==want,w << ": lane " << i << " of " << N << " is " << tx(r[i]) << ", expected " << tx(want)); } };
  using P=std::pair<T,T>;
  chk("min(pack,pack)",ekat::min(a,b),true,[&](int i){ return P(a0[i],b0[i]); }); chk("max(pack,pack)",ekat::max(a,b),false,[&](int i){ return P(a0[i],b0[i]); });
  chk("min(pack,scalar)",ekat::min(a,s),true,[&](int i){ return P(a0[i],s); }); chk("max(pack,scalar)",ekat::max(a,s),false,[&](int i){ return P(a0[i],s); });
  chk("min(scalar,pack)",ekat::min(s,a),true,[&](int i){ return P(s,a0[i]); }); chk("max(scalar,pack)",ekat::max(s,a),false,[&](int i){ return P(s,a0[i]); });
  { int k=c.irange(-20,20); chk("min(pack,int)",ekat::min(a,k),true,[&](int i){ return P(a0[i],(T)k); }); chk("max(int,pack)",ekat::max(k,a),false,[&](int i){ return P((T)k,a0[i]); }); }
  VP_CHECK(same_pack(a,a0) && same_pack(b,b0),"an operand changed"); bool lo=false,hi=false; for (int i=0;i<N;++i) { lo|=a0[i]<b0[i]; hi|=b0[i]<a0[i]; } c.nontrivial((lo&&hi) || (N==1&&(lo||hi)));
}
VP_PROP(min_max, 60000, 1500000, "min and max of two packs and of a pack and a scalar in both orders, ties, infinities, NaN (any operand accepted) included; non-trivial: both operands win somewhere") { SIZES(minmax) }
template<int N> static void math (vp::Case& c) {
  const auto a=pack<T,N>(c,1000,FL); const auto a0=a; c.d << "Pack<T," << N << "> " << tx(a);
  lanes("abs",ekat::abs(a),[&](int i)->T{ return std::abs(a0[i]); });
  if constexpr (FL) {
#define FN(f) lanes(#f,ekat::f(a),[&](int i)->T{ return std::f(a0[i]); });
    FN(exp) FN(expm1) FN(log) FN(log10) FN(tgamma) FN(sqrt) FN(cbrt) FN(tanh) FN(erf)
#undef FN
    const auto b=pack<T,N>(c,1000,FL); const auto b0=b; T s=lane<T>(c,1000,true); int k=c.irange(-6,6); c.d << " " << tx(b) << " exponent " << tx(s) << "," << k;
    lanes("pow(pack,pack)",ekat::pow(a,b),[&](int i)->T{ return std::pow(a0[i],b0[i]); }); lanes("pow(pack,scalar)",ekat::pow(a,s),[&](int i)->T{ return std::pow(a0[i],s); }); lanes("pow(scalar,pack)",ekat::pow(s,a),[&](int i)->T{ return std::pow(s,a0[i]); });
    lanes("pow(pack,int)",ekat::pow(a,k),[&](int i)->T{ return std::pow(a0[i],k); }); lanes("pow(int,pack)",ekat::pow(k,a),[&](int i)->T{ return std::pow(k,a0[i]); });
    VP_CHECK(same_pack(b,b0),"an operand changed");
  }
  lanes("square",ekat::square(a),[&](int i)->T{ return a0[i]*a0[i]; }); lanes("cube",ekat::cube(a),[&](int i)->T{ return a0[i]*a0[i]*a0[i]; });
  VP_CHECK(same_pack(a,a0),"an operand changed"); bool differ=false; for (int i=1;i<N;++i) differ|=!same_lane((T)a[i],(T)a[0]); c.nontrivial(differ || N==1);
}
VP_PROP(math_functions, 40000, 1000000, "abs, exp, expm1, log, log10, tgamma, sqrt, cbrt, tanh, erf, pow in its five forms, square, cube on packs of 1-32 lanes, domain edges included; non-trivial: the lanes are not all alike") { SIZES(math) }
// long dependent sequences in registers: a history of operations on four packs against arrays
template<int N> static void hist (vp::Case& c) {
  Pack<T,N> p[3]; T r[3][N]; for (int j=0;j<3;++j) { p[j]=pack<T,N>(c,5,false); for (int i=0;i<N;++i) r[j][i]=p[j][i]; } int n=c.size(1,24); auto cap=[&](int j){ for (int i=0;i<N;++i) { if (!(std::abs((double)r[j][i])<=1000)) { r[j][i]=T(i+1); p[j][i]=T(i+1); } } };
  for (int k=0;k<n;++k) { int a=(int)c.below(3), b=(int)c.below(3), d=(int)c.below(3), op=(int)c.below(9); T s=(T)c.range(-4,4); T t[N]; c.d << "op" << op << " " << a << b << d << " " << tx(s) << "; ";
    auto each=[&](auto f){ for (int i=0;i<N;++i) t[i]=f(i); for (int i=0;i<N;++i) r[d][i]=t[i]; };
    switch (op) { case 0: p[d]=p[a]+p[b]; each([&](int i)->T{ return r[a][i]+r[b][i]; }); break; case 1: p[d]=p[a]-s*p[b]; each([&](int i)->T{ return r[a][i]-s*r[b][i]; }); break; case 2: p[d]*=p[a]; each([&](int i)->T{ return r[d][i]*r[a][i]; }); break;
      case 3: p[d]=ekat::min(p[a],ekat::max(s,p[b])); each([&](int i)->T{ return std::min(r[a][i],std::max(s,r[b][i])); }); break; case 4: p[d]+=p[a][N/2]; { T v=r[a][N/2]; each([&](int i)->T{ return r[d][i]+v; }); } break; case 5: p[d]=-ekat::abs(p[a])+s; each([&](int i)->T{ return -std::abs(r[a][i])+s; }); break;
      case 6: { auto m=p[a]<p[b]; bool mm[N]; for (int i=0;i<N;++i) mm[i]=r[a][i]<r[b][i]; p[d].set(m,p[b],p[a]); each([&](int i)->T{ return mm[i]?r[b][i]:r[a][i]; }); break; } case 7: p[d].update(p[a],s,T(2)); each([&](int i)->T{ return T(2)*r[d][i]+s*r[a][i]; }); break; default: p[d]=p[a]=p[b]; { T q[N]; for (int i=0;i<N;++i) q[i]=r[b][i]; for (int i=0;i<N;++i) { r[a][i]=q[i]; r[d][i]=q[i]; } } }
    for (int j=0;j<3;++j) lanes("history",p[j],[&](int i){ return r[j][i]; }); for (int j=0;j<3;++j) cap(j); }
  c.nontrivial(n>=4);
}
VP_PROP(histories, 30000, 800000, "histories of 1-24 operations over three packs compared with arrays after every step; non-trivial: at least four operations") { SIZES(hist) }
