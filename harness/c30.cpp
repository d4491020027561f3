// C30: expressions over views against the same formulas on plain numbers. The formulas come from tools/gen_c30.py.
#define VP_MAIN
#include "vp.hpp"
#include "kk.hpp"
#include "ekat_expression_view.hpp"
#include "ekat_expression_binary_op.hpp"
#include "ekat_expression_binary_predicate.hpp"
#include "ekat_expression_conditional.hpp"
#include "ekat_expression_math.hpp"
#include "ekat_expression_eval.hpp"
#include <cmath>
#include <cstring>
void vp_init (int&, char**&) { kk_init(); }
void vp_fini () { Kokkos::finalize(); }
using Dev=Kokkos::DefaultHostExecutionSpace::device_type;
// the formulas on plain numbers
namespace fm {
template<typename T> using num = std::enable_if_t<std::is_arithmetic<T>::value>;
#define FM1(f) template<typename T, typename=num<T>> __attribute__((noinline)) auto f (T x) { return std::f(x); }
FM1(sqrt) FM1(exp) FM1(log) FM1(sin) FM1(cos)
template<typename T, typename U, typename=num<T>, typename=num<U>> __attribute__((noinline)) auto pow (T x, U y) { using C=std::common_type_t<T,U>; return std::pow((C)x,(C)y); }
template<typename T, typename U, typename=num<T>, typename=num<U>> std::common_type_t<T,U> max (T x, U y) { using C=std::common_type_t<T,U>; C p=x,q=y; return p<q?q:p; }
template<typename T, typename U, typename=num<T>, typename=num<U>> std::common_type_t<T,U> min (T x, U y) { using C=std::common_type_t<T,U>; C p=x,q=y; return q<p?q:p; }
template<typename C, typename T, typename U, typename=num<T>, typename=num<U>> auto if_then_else (C c, T x, U y) { return c!=C(0)?x:y; }
// by their full names for expressions: with two arguments of one type a plain min(x,y) finds Kokkos::min
#define FX1(f) template<typename T> auto f##_ (const T& x) { if constexpr (ekat::is_expr_v<T>) return ekat::f(x); else return fm::f(x); }
FX1(sqrt) FX1(exp) FX1(log) FX1(sin) FX1(cos)
#define FX2(f) template<typename T, typename U> auto f##_ (const T& x, const U& y) { if constexpr (ekat::is_any_expr_v<T,U>) return ekat::f(x,y); else return fm::f(x,y); }
FX2(pow) FX2(max) FX2(min)
template<typename C, typename T, typename U> auto if_then_else_ (const C& c, const T& x, const U& y) { if constexpr (ekat::is_any_expr_v<C,T,U>) return ekat::if_then_else(c,x,y); else return fm::if_then_else(c,x,y); }
// quotients of whole numbers where the divisor is not zero: the other branch is not evaluated
template<typename D, typename N, typename E> auto gdiv_ (const D& d, const N& n, const E& e) { if constexpr (ekat::is_any_expr_v<D,N,E>) return ekat::if_then_else(d,n/d,e); else return d!=D(0)?n/d:e; }
template<typename D, typename N, typename E> auto ndiv_ (const D& d, const N& n, const E& e) { if constexpr (ekat::is_any_expr_v<D,N,E>) return ekat::if_then_else(d==0,e,n/d); else return d==D(0)?e:n/d; }
#define TV template<typename A, typename B, typename F, typename I, typename J, typename H, typename U, typename P>
#define VARS const A& a, const B& b, const F& f, const I& i, const J& j, const H& h, const U& u, const P& p, double s, float g, int k, short m, int q, bool t
// the variables may be unused in a formula
#define USED (void)a;(void)b;(void)f;(void)i;(void)j;(void)h;(void)u;(void)p;(void)s;(void)g;(void)k;(void)m;(void)q;(void)t;
template<int N> struct Flat; template<int N> struct Nested;
struct same {};
#define FLAT(n,FORMULA,text) template<> struct Flat<n> { static const char* str() { return text; } TV static auto go (VARS) { USED return FORMULA; } };
#define NESTED(n,r,res,FORMULA,text) template<> struct Nested<n> { static constexpr int R=r; using Res=res; static const char* str() { return text; } TV static auto go (VARS) { USED return FORMULA; } };
#include "gen_c30.hpp"
}
// ---- inputs -------------------------------------------------------------------------------------------------------------
template<typename T> static T rvalue (vp::Case& c, int style) {
  if constexpr (std::is_floating_point<T>::value) { switch (style) { case 0: return (T)c.irange(-4,4); case 1: return (T)c.uniform<double>(-3,3); case 2: return (T)c.uniform<double>(0,20); default: return c.real<T>(); } }
  else { switch (style) { case 0: case 1: return (T)c.irange(-4,4); case 2: return (T)c.irange(0,20); default: return c.b()?(T)c.range(std::numeric_limits<T>::min(),std::numeric_limits<T>::max()):c.pick(std::vector<T>{std::numeric_limits<T>::min(),std::numeric_limits<T>::max(),(T)-1,(T)0,(T)1}); } }
}
// an array with room around it, laid out as wanted
template<typename T> struct Buf { size_t n=0; std::unique_ptr<T[]> p; Buf () {} Buf (const Buf& o) : n(o.n), p(new T[o.n]) { std::copy(o.p.get(),o.p.get()+n,p.get()); } Buf& operator= (const Buf& o) { Buf c(o); n=c.n; p=std::move(c.p); return *this; }
  void assign (size_t k, T v) { n=k; p.reset(new T[k]); std::fill(p.get(),p.get()+k,v); } T* data () { return p.get(); } size_t size () const { return n; } T& operator[] (size_t k) { return p[k]; } bool operator== (const Buf& o) const { return n==o.n && !std::memcmp(p.get(),o.p.get(),n*sizeof(T)); } };
template<typename T, int R> struct Arr { Buf<T> buf; std::vector<long> ext, str; long off=0; T* data () { return buf.data()+off; }
  T& at (const std::vector<long>& ix) { long o=off; for (int k=0;k<R;++k) o+=ix[k]*str[k]; return buf[o]; } };
template<typename L> static constexpr int lay = std::is_same<L,Kokkos::LayoutRight>::value?0:std::is_same<L,Kokkos::LayoutLeft>::value?1:2;
template<typename T, int R> static void layout (vp::Case& c, Arr<T,R>& x, const std::vector<long>& ext, int l) {
  x.ext=ext; x.str.assign(R,1); std::vector<int> ord(R); for (int k=0;k<R;++k) ord[k]=l==1?k:R-1-k; if (l==2) for (int k=R-1;k>0;--k) std::swap(ord[k],ord[c.irange(0,k)]);
  long s=l==2?c.irange(1,3):1; for (int k:ord) { x.str[k]=s; s*=std::max<long>(1,ext[k]); if (l==2 && c.chance(1,3)) s+=c.irange(1,3); } x.off=3; x.buf.assign((size_t)s+6,(T)77); }
template<typename T, int R> struct ptr { using type=typename ptr<T,R-1>::type*; }; template<typename T> struct ptr<T,0> { using type=T; };
template<typename T, int R, typename L> using View = Kokkos::View<typename ptr<T,R>::type,L,Dev,Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
template<typename T, typename T0, int R, typename L, size_t... K> static View<T,R,L> view_ (Arr<T0,R>& x, std::index_sequence<K...>) {
  if constexpr (lay<L> ==2) { size_t n[R+1]={},s[R+1]={}; for (int k=0;k<R;++k) { n[k]=x.ext[k]; s[k]=x.str[k]; } Kokkos::LayoutStride ls; for (int k=0;k<R;++k) { ls.dimension[k]=n[k]; ls.stride[k]=s[k]; } return View<T,R,L>(x.data(),ls); }
  else return View<T,R,L>(x.data(),(size_t)x.ext[K]...); }
template<typename T, int R, typename L, typename T0> static View<T,R,L> view (Arr<T0,R>& x) { return view_<T,T0,R,L>(x,std::make_index_sequence<R>()); }
using LR=Kokkos::LayoutRight; using LL=Kokkos::LayoutLeft; using LS=Kokkos::LayoutStride;
template<int R> struct Inputs { Arr<double,R> a,b; Arr<float,R> f; Arr<int,R> i,j,p; Arr<short,R> h,u; double s; float g; int k,q; short m; bool t; std::vector<long> ext;
  void make (vp::Case& c) { layout(c,a,ext,0); layout(c,b,ext,1); layout(c,f,ext,2); layout(c,i,ext,0); layout(c,j,ext,1); layout(c,h,ext,2); layout(c,u,ext,0); layout(c,p,ext,1); }
  template<typename T> void fill1 (Arr<T,R>& x, vp::Case& c, std::mt19937_64& g, int style, bool pos) {   // a few drawn values, the rest by a seeded choice among more
    std::vector<T> pool; for (int z=0;z<6;++z) { T v=rvalue<T>(c,style); if (pos) { v=v<0?(T)-(v+1):v; if (v<1) v=1; } pool.push_back(v); }
    each(ext,[&](const std::vector<long>& ix){ T v=pool[g()%6]; if (style==1 && std::is_floating_point<T>::value && g()%3) v=(T)(v*(1+(T)(g()%1000)/(T)1000)); else if (style==2 && !pos && g()%2) v=(T)(g()%23); x.at(ix)=v; }); }
  int fill (vp::Case& c) { int st=c.weighted({3,4,3,2}); std::mt19937_64 g(c.draw(~0ull)); auto sty=[&]{ return c.chance(4,5)?st:c.irange(0,3); };
    fill1(a,c,g,sty(),false); fill1(b,c,g,sty(),false); fill1(f,c,g,sty(),false); fill1(i,c,g,sty(),false); fill1(j,c,g,sty(),false); fill1(h,c,g,sty(),false); fill1(u,c,g,sty(),false); fill1(p,c,g,sty(),true); return st; }
  void scalars (vp::Case& c) { int st=c.weighted({3,4,3,2}); s=rvalue<double>(c,st); g=rvalue<float>(c,st); k=rvalue<int>(c,st); m=rvalue<short>(c,st); q=rvalue<int>(c,st); if (q==0 || q==-1) q=3; t=c.b(); }
  template<typename FM> auto ref (const std::vector<long>& x) { return FM::go(a.at(x),b.at(x),f.at(x),i.at(x),j.at(x),h.at(x),u.at(x),p.at(x),s,g,k,m,q,t); }
  template<typename FM> auto expr () { using ekat::expression;
    return FM::go(expression(view<const double,R,LR>(a)),expression(view<double,R,LL>(b)),expression(view<float,R,LS>(f)),expression(view<int,R,LR>(i)),expression(view<const int,R,LL>(j)),expression(view<short,R,LS>(h)),expression(view<const short,R,LR>(u)),expression(view<int,R,LL>(p)),s,g,k,m,q,t); }
  std::string at (const std::vector<long>& x) { std::ostringstream o; o.precision(17); o << "at " << itx(x) << " a=" << a.at(x) << " b=" << b.at(x) << " f=" << f.at(x) << " i=" << i.at(x) << " j=" << j.at(x) << " h=" << h.at(x) << " u=" << u.at(x) << " p=" << p.at(x) << " s=" << s << " g=" << g << " k=" << k << " m=" << m << " q=" << q << " t=" << t; return o.str(); }
};
template<typename T> static std::string tv (T v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
template<typename T> static const char* tn () { return std::is_same<T,bool>::value?"bool":std::is_same<T,short>::value?"short":std::is_same<T,int>::value?"int":std::is_same<T,float>::value?"float":std::is_same<T,double>::value?"double":"another type"; }
template<typename T> static bool eqv (T x, T y) { if constexpr (std::is_floating_point<T>::value) { if (x!=x || y!=y) return x!=x && y!=y; } return std::memcmp(&x,&y,sizeof(T))==0; }
template<typename E, typename T> static void type_is (vp::Case& c, const char* text) { bool ok=std::is_same<std::decay_t<E>,T>::value; VP_CHECK(ok,text << " has values of type " << tn<std::decay_t<E>>() << ", the formula has type " << tn<T>()); (void)c; }
// ---- single operations, entry by entry --------------------------------------------------------------------------------------
template<int N> static void flat (vp::Case& c) {
  using FM=fm::Flat<N>; Inputs<1> in; in.ext={c.irange(1,12)}; in.make(c); in.scalars(c); in.fill(c); c.d << FM::str() << " on " << in.ext[0] << " entries, s=" << in.s << " k=" << in.k;
  auto e=in.template expr<FM>(); using T=decltype(in.template ref<FM>({0})); static_assert(decltype(e)::rank()==1);
  type_is<decltype(e.eval(0)),T>(c,FM::str()); VP_CHECK(e.extent(0)==in.ext[0],"extent " << e.extent(0) << " instead of " << in.ext[0]);
  if (c.b()) in.fill(c);  // the views are read when the expression is evaluated
  const auto& base=e.as_base(); auto e2=e;
  for (long x=0;x<in.ext[0];++x) { T want=in.template ref<FM>({x}); T got=e.eval((int)x); VP_CHECK(eqv(got,want),FM::str() << " gives " << tv(got) << ", expected " << tv(want) << " " << in.at({x}));
    T g2=base.eval((int)x), g3=e2.eval((int)x); VP_CHECK(eqv(g2,want) && eqv(g3,want),FM::str() << " through its base or a copy gives " << tv(g2) << ", " << tv(g3) << ", expected " << tv(want) << " " << in.at({x})); }
  c.nontrivial(true);
}
template<typename E, size_t... K> static auto eval_at (const E& e, std::index_sequence<K...>) { return e.eval((int)K...); }
// ---- nested formulas evaluated into views -----------------------------------------------------------------------------------
template<int N, typename L> static void nested_l (vp::Case& c) {
  using FM=fm::Nested<N>; constexpr int R=FM::R; Inputs<R> in; long most=R<=1?200:R==2?25:R==3?9:R==4?5:R==5?4:3; for (int k=0;k<R;++k) in.ext.push_back(c.chance(1,15)?0:c.chance(1,6)?1:c.range(1,most)); in.make(c); in.scalars(c); int st=in.fill(c);
  using T=decltype(in.template ref<FM>({})); using Q=std::conditional_t<std::is_same<typename FM::Res,fm::same>::value,T,typename FM::Res>;
  auto e=in.template expr<FM>(); c.d << FM::str() << " extents " << itx(in.ext) << " into " << tn<Q>() << " layout " << lay<L>; static_assert(decltype(e)::rank()==R);
  type_is<decltype(eval_at(e,std::make_index_sequence<R>())),T>(c,FM::str());
  for (int k=0;k<R;++k) VP_CHECK(e.extent(k)==in.ext[k],"extent " << k << " is " << e.extent(k) << " instead of " << in.ext[k]);
  const int way=c.irange(1,3); if (way==1) in.fill(c);
  Arr<Q,R> res; layout(c,res,in.ext,lay<L>); auto v=view<Q,R,L>(res);
  auto a0=in.a.buf,b0=in.b.buf; auto f0=in.f.buf; auto i0=in.i.buf,j0=in.j.buf,p0=in.p.buf; auto h0=in.h.buf,u0=in.u.buf;
  auto check=[&](Arr<Q,R>& r, const char* what){ Arr<Q,R> w=r; w.buf.assign(r.buf.size(),(Q)77); each(in.ext,[&](const std::vector<long>& ix){ w.at(ix)=(Q)in.template ref<FM>(ix); });
    each(in.ext,[&](const std::vector<long>& ix){ VP_CHECK(eqv(r.at(ix),w.at(ix)),FM::str() << what << " gives " << tv(r.at(ix)) << ", expected " << tv(w.at(ix)) << " " << in.at(ix)); });
    for (size_t o=0;o<r.buf.size();++o) VP_CHECK(eqv(r.buf[o],w.buf[o]),FM::str() << what << " wrote outside the result, at offset " << (long)o-r.off); };
  ekat::evaluate(e,v); check(res,"");
  VP_CHECK(a0==in.a.buf && b0==in.b.buf && f0==in.f.buf && i0==in.i.buf && j0==in.j.buf && p0==in.p.buf && h0==in.h.buf && u0==in.u.buf,FM::str() << ": an input changed");
  if (way==3) { in.fill(c); auto e2=e; Arr<Q,R> r2; layout(c,r2,in.ext,lay<L>); ekat::evaluate(e2.as_base(),view<Q,R,L>(r2)); check(r2," (a copy, after the views changed)"); }
  if (R>0 && c.chance(1,5)) { Arr<Q,R> r3; auto ex=in.ext; int k=c.irange(0,R-1); ex[k]=c.b()?ex[k]+1:(ex[k]>0?ex[k]-1:2); layout(c,r3,ex,lay<L>); auto before=r3.buf; bool thrown=vp::throws([&]{ ekat::evaluate(e,view<Q,R,L>(r3)); }); VP_CHECK(thrown,"a result of extents " << itx(ex) << " was taken for an expression of extents " << itx(in.ext)); VP_CHECK(before==r3.buf,"the rejected result was written"); c.label("mismatched result"); }
  if constexpr (std::is_same<Q,double>::value) if (c.chance(1,4)) { Arr<double,R> w=in.a; w.buf.assign(w.buf.size(),77); each(in.ext,[&](const std::vector<long>& ix){ w.at(ix)=(double)in.template ref<FM>(ix); }); auto in0=in; ekat::evaluate(e,view<double,R,LR>(in.a)); each(in.ext,[&](const std::vector<long>& ix){ VP_CHECK(eqv(in.a.at(ix),w.at(ix)),FM::str() << " into a itself gives " << in.a.at(ix) << ", expected " << w.at(ix) << " " << in0.at(ix)); }); c.label("result is an operand"); }
  long n=1; for (long x:in.ext) n*=x; c.nontrivial(n>1 || (R==0 && n==1)); c.label("rank "+std::to_string(R)); c.label("extreme values",st==3); c.label("no entries",n==0); c.label("changed after building",way==1||way==3);
}
template<int N> static void nested (vp::Case& c) { constexpr int R=fm::Nested<N>::R; if (R<=3) switch (N%3) { case 0: nested_l<N,LR>(c); break; case 1: nested_l<N,LL>(c); break; default: nested_l<N,LS>(c); } else nested_l<N,std::conditional_t<N%3==0,LR,std::conditional_t<N%3==1,LL,LS>>>(c); }
using Fn=void(*)(vp::Case&);
template<size_t... N> static std::vector<Fn> flats (std::index_sequence<N...>) { return {&flat<(int)N>...}; }
template<size_t... N> static std::vector<Fn> nesteds (std::index_sequence<N...>) { return {&nested<(int)N>...}; }
#ifdef VP_FLAT
VP_PROP_ND(operations, 60000, 600000, "every operation on one or two leaves (views of double, float, int, short, scalars on either side): type and value of every entry; non-trivial: all cases") { static const auto T=flats(std::make_index_sequence<fm::n_flat>()); T[c.below(T.size())](c); }
#endif
VP_PROP_ND(formulas, 30000, 600000, "random nested formulas over views of ranks 0-6 in three layouts, evaluated into views after the views changed, repeatedly, into views of other types, into an operand, and into views of wrong extents; non-trivial: more than one entry") { static const auto T=nesteds(std::make_index_sequence<fm::n_nested>()); T[c.below(T.size())](c); }
