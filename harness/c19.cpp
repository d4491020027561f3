// C19: masks and masked updates, element type T given at compile time
#define VP_MAIN
#include "vp.hpp"
#include "pack_gen.hpp"
void vp_init (int&, char**&) {}
void vp_fini () {}
using T=VP_T; using ekat::Pack; using ekat::Mask; constexpr bool FL=std::is_floating_point<T>::value;
template<int N, typename F> static void bits (const char* w, const Mask<N>& m, F&& f) { for (int i=0;i<N;++i) VP_CHECK(m[i]==(bool)f(i),w << ": lane " << i << " of " << N << " is " << m[i]); }
template<int N> static void summary (const Mask<N>& m) { int n=0; for (int i=0;i<N;++i) n+=m[i]; VP_CHECK(m.any()==(n>0) && m.all()==(n==N) && m.none()==(n==0),"any/all/none of " << tx(m) << ": " << m.any() << m.all() << m.none());
  Mask<N> q(m); VP_CHECK(q==m,"a mask differs from its copy"); for (int i=0;i<N;++i) { q.set(i,!m[i]); VP_CHECK(!(q==m) && !(m==q),"masks that differ in lane " << i << " compare equal"); q.set(i,m[i]); } 
  std::ostringstream o, e; o << m; for (int i=0;i<N;++i) e << m[i] << ' '; VP_CHECK(o.str()==e.str(),"printed as " << o.str()); }
template<int N> static void cmp (vp::Case& c) {
  auto a=pack<T,N>(c,1000,FL), b=pack<T,N>(c,1000,FL); if (c.b()) for (int i=0;i<N;++i) if (c.b()) b[i]=a[i]; T s=c.b()?a[N/2]:lane<T>(c,1000,FL); int k=c.irange(-3,3); const auto a0=a,b0=b; c.d << "Pack<T," << N << "> " << tx(a) << tx(b) << " scalar " << tx(s) << "," << k; bool diff=false;
#define CMP(op) { auto m=a op b; bits("pack " #op " pack",m,[&](int i){ return a0[i] op b0[i]; }); diff|=m.any()&&!m.all(); summary(m); } { auto m=a op s; bits("pack " #op " scalar",m,[&](int i){ return a0[i] op s; }); summary(m); } { auto m=s op a; bits("scalar " #op " pack",m,[&](int i){ return s op a0[i]; }); } \
    { auto m=a op k; bits("pack " #op " int",m,[&](int i){ return a0[i] op k; }); } { auto m=k op a; bits("int " #op " pack",m,[&](int i){ return k op a0[i]; }); }
  CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
#undef CMP
  if constexpr (FL) bits("isnan",ekat::isnan(a),[&](int i){ return a0[i]!=a0[i]; });
  VP_CHECK(same_pack(a,a0) && same_pack(b,b0),"an operand changed"); c.nontrivial(diff || N==1);
}
VP_PROP(comparisons, 80000, 2000000, "all comparisons of packs and scalars in both orders with ties, infinities and NaN, isnan; non-trivial: some comparison differs between lanes") { SIZES(cmp) }
template<int N> static void logic (vp::Case& c) {
  Mask<N> m[3]; bool r[3][N]; for (int j=0;j<3;++j) { m[j]=mask<N>(c); for (int i=0;i<N;++i) r[j][i]=m[j][i]; } int n=c.size(1,16); c.d << "Mask<" << N << "> " << tx(m[0]) << " " << tx(m[1]) << " " << tx(m[2]);
  for (int k=0;k<n;++k) { int a=(int)c.below(3),b=(int)c.below(3),d=(int)c.below(3),op=(int)c.below(7); bool s=c.b(); int l=c.irange(0,N-1); bool t[N]; c.d << "; op" << op << " " << a << b << d << s;
    switch (op) { case 0: m[d]=m[a]&&m[b]; for (int i=0;i<N;++i) t[i]=r[a][i]&&r[b][i]; break; case 1: m[d]=m[a]||m[b]; for (int i=0;i<N;++i) t[i]=r[a][i]||r[b][i]; break; case 2: m[d]=!m[a]; for (int i=0;i<N;++i) t[i]=!r[a][i]; break;
      case 3: m[d]=m[a]&&s; for (int i=0;i<N;++i) t[i]=r[a][i]&&s; break; case 4: m[d]=m[a]||s; for (int i=0;i<N;++i) t[i]=r[a][i]||s; break; case 5: m[d]=Mask<N>(s); for (int i=0;i<N;++i) t[i]=s; break; default: m[d].set(l,s); for (int i=0;i<N;++i) t[i]=i==l?s:r[d][i]; }
    for (int i=0;i<N;++i) r[d][i]=t[i]; for (int j=0;j<3;++j) { bits("mask history",m[j],[&](int i){ return r[j][i]; }); summary(m[j]); VP_CHECK((m[j]==m[0])==std::equal(r[j],r[j]+N,r[0]),"equality of masks " << tx(m[j]) << " and " << tx(m[0])); } }
  { int cnt=0, seen[N]; std::fill(seen,seen+N,0); ekat_masked_loop(m[0],q) { seen[q]+=1; } ekat_masked_loop_no_vec(m[0],q) { seen[q]+=1; ++cnt; } for (int i=0;i<N;++i) VP_CHECK(seen[i]==(r[0][i]?2:0),"masked loops visited lane " << i << " " << seen[i] << " times"); }
  c.nontrivial(n>=3);
}
VP_PROP(mask_histories, 60000, 1500000, "histories of and, or, not, assignment and single-lane updates over three masks against arrays of booleans, summaries after every step; non-trivial: at least three operations") { SIZES(logic) }
template<int N> static void upd (vp::Case& c) {
  auto p=pack<T,N>(c,1000,FL), q=pack<T,N>(c,1000,FL); auto m=mask<N>(c); T s=lane<T>(c,1000,FL), s2=lane<T>(c,1000,FL); const auto p0=p,q0=q; int l=c.irange(0,N-1);
  bool sel0=false; if (!FL) { for (int i=0;i<N;++i) if (m[i] && q[i]==T(0)) q[i]=T(7); for (int i=0;i<N;++i) sel0|=m[i]&&p[i]==T(0); if (s==T(0)&&m.any()) s=T(5); } const auto qq=q; (void)q0;
  c.d << "Pack<T," << N << "> " << tx(p) << " " << tx(q) << " mask " << tx(m) << " scalars " << tx(s) << "," << tx(s2);
#define ONE(call,expr) { Pack<T,N> x(p0); auto& r=(call); VP_CHECK(&r==&x,#call " returns another object"); lanes(#call,x,[&](int i)->T{ T v=p0[i]; if (m[i]) { expr; } return v; }); }
  ONE(x.set(m,s),v=s) ONE(x.set(m,q),v=qq[i]) ONE(x.set(m,x[l]),v=p0[l])
  { Pack<T,N> x(p0); x.set(m,s,s2); lanes("set(mask,scalar,scalar)",x,[&](int i){ return m[i]?s:s2; }); } { Pack<T,N> x(p0); x.set(m,q,x); lanes("set(mask,pack,itself)",x,[&](int i){ return m[i]?qq[i]:p0[i]; }); } { Pack<T,N> x(p0); x.set(m,x[0],x[l]); lanes("set(mask,x[0],x[l])",x,[&](int i){ return m[i]?p0[0]:p0[l]; }); }
  ONE(ekat::where(m,x)=s,v=s) ONE(ekat::where(m,x)=q,v=qq[i]) ONE(ekat::where(m,x)+=s,v+=s) ONE(ekat::where(m,x)+=q,v+=qq[i]) ONE(ekat::where(m,x)-=s,v-=s) ONE(ekat::where(m,x)-=q,v-=qq[i]) ONE(ekat::where(m,x)*=s,v*=s) ONE(ekat::where(m,x)*=q,v*=qq[i])
  ONE(ekat::where(m,x)/=s,v/=s) ONE(ekat::where(m,x)/=q,v/=qq[i]) ONE(ekat::where(m,x)+=x,v+=p0[i]) ONE(ekat::where(m,x)-=x[l],v-=p0[l]) ONE(ekat::where(m,x)*=x,v*=p0[i])
  if (FL || !sel0) ONE(ekat::where(m,x)/=x,v/=p0[i])
  { int k=c.irange(1,5); ONE(ekat::where(m,x)+=k,v+=k) ONE(ekat::where(m,x)*=k,v*=k) ONE(ekat::where(m,x)=k,v=(T)k) Pack<int,N> qi=pack<int,N>(c,20,false); ONE(ekat::where(m,x)=qi,v=(T)qi[i]) ONE(ekat::where(m,x)-=qi,v-=qi[i]) }
  if constexpr (sizeof(T)>=4) { // scalars and packs of another type: the operation is the one of the two element types
    using S2=typename std::conditional<std::is_same<T,double>::value,float,double>::type; S2 f=S2(c.irange(1,12))/S2(4); if (c.b()) f=-f; Pack<S2,N> g; for (int i=0;i<N;++i) g[i]=S2(c.irange(1,9))/S2(2); c.d << " other type " << f << " " << tx(g); bool small=true; for (int i=0;i<N;++i) small&=!(std::abs((double)p0[i])>1e5); if (FL || small) {
    ONE(ekat::where(m,x)+=f,v+=f) ONE(ekat::where(m,x)-=f,v-=f) ONE(ekat::where(m,x)*=f,v*=f) ONE(ekat::where(m,x)/=f,v/=f) ONE(ekat::where(m,x)=f,v=(T)f)
    ONE(ekat::where(m,x)+=g,v+=g[i]) ONE(ekat::where(m,x)-=g,v-=g[i]) ONE(ekat::where(m,x)*=g,v*=g[i]) ONE(ekat::where(m,x)/=g,v/=g[i]) ONE(ekat::where(m,x)=g,v=(T)g[i]) ONE(x.set(m,g),v=(T)g[i]) ONE(x.set(m,f),v=(T)f) } }
  if constexpr (sizeof(T)>=4) { // lanes not selected keep their value even where another type could not hold it
    using S2=typename std::conditional<std::is_same<T,float>::value,double,float>::type; Pack<S2,N> g, h; for (int i=0;i<N;++i) { g[i]=S2(c.irange(-9,9)); h[i]=S2(c.irange(-9,9)); } Pack<int,N> gi=pack<int,N>(c,20,false); Pack<T,N> big; for (int i=0;i<N;++i) big[i]=FL?p0[i]:T(std::numeric_limits<T>::max()-T(c.irange(0,200))); if (c.b()) for (int i=0;i<N;++i) big[i]=p0[i]; c.d << " large " << tx(big) << " " << tx(g);
#define KEEP(call,expr) { Pack<T,N> x(big); auto& r=(call); VP_CHECK(&r==&x,#call " returns another object"); lanes(#call,x,[&](int i)->T{ return m[i]?(T)(expr):(T)big[i]; }); }
    KEEP(x.set(m,g),g[i]) KEEP(ekat::where(m,x)=g,g[i]) KEEP(x.set(m,gi),gi[i]) KEEP(ekat::where(m,x)=gi,gi[i]) KEEP(x.set(m,T(3)),3) KEEP(x.update(m,gi),gi[i]) KEEP(x.set(m,gi,x),gi[i]) KEEP(x.set(m,g,x),g[i]) if (FL) KEEP(x.update(m,g),g[i])
    { Pack<T,N> x(big); x.set(m,g,gi); lanes("set(mask,pack,pack) of two other types",x,[&](int i)->T{ return m[i]?(T)g[i]:(T)gi[i]; }); Pack<T,N> y(m,g,gi), z(m,gi,big); lanes("Pack(mask,pack,pack)",y,[&](int i)->T{ return m[i]?(T)g[i]:(T)gi[i]; }); lanes("Pack(mask,pack,pack)",z,[&](int i)->T{ return m[i]?(T)gi[i]:(T)big[i]; }); }
#undef KEEP
  }
  if (sizeof(T)>=4) { Pack<T,N> a=pack<T,N>(c,40,false), b=pack<T,N>(c,40,false), y; for (int i=0;i<N;++i) { y[i]=T(c.irange(-99,99)); a[i]=T((int)a[i]); b[i]=T((int)b[i]); } T al=T(c.irange(-9,9)), be=T(c.irange(-9,9)); int ai=c.irange(-9,9), bi=c.irange(-9,9); Pack<int,N> gi=pack<int,N>(c,20,false); c.d << " update of " << tx(y) << " by " << tx(al) << "," << tx(be) << " " << tx(a) << tx(b);
#define UPD(call,t,f) { Pack<T,N> x(y); auto& r=(x.call); VP_CHECK(&r==&x,#call " returns another object"); for (int i=0;i<N;++i) { T v=m[i]?T(t):T(f); VP_CHECK(x[i]==v,#call << ": lane " << i << " is " << tx(x[i]) << ", expected " << tx(v)); } } // small whole numbers: exact in any order
    UPD(update(m,a,al,be),be*y[i]+al*a[i],y[i]) UPD(update(m,a,al),al*a[i],y[i]) UPD(update(m,a),a[i],y[i]) UPD(add(m,a,al),y[i]+al*a[i],y[i]) UPD(add(m,a),y[i]+a[i],y[i]) UPD(update(m,gi,ai,bi),bi*y[i]+ai*gi[i],y[i]) UPD(update(m,x,al,be),be*y[i]+al*y[i],y[i])
    UPD(update(m,a,b,al,be),be*y[i]+al*a[i],be*y[i]+al*b[i]) UPD(update(m,a,b,al),al*a[i],al*b[i]) UPD(update(m,a,b),a[i],b[i]) UPD(add(m,a,b,al),y[i]+al*a[i],y[i]+al*b[i]) UPD(add(m,a,b),y[i]+a[i],y[i]+b[i]) UPD(update(m,gi,b,ai,bi),bi*y[i]+ai*gi[i],bi*y[i]+ai*b[i]) UPD(update(m,x,b,al,be),be*y[i]+al*y[i],be*y[i]+al*b[i])
#undef UPD
  }
  { Pack<T,N> x(p0); auto w=ekat::where(m,x); w=s; w+=q; w*=T(2); lanes("three updates through one where",x,[&](int i)->T{ if (!m[i]) return p0[i]; T v=s; v+=qq[i]; v*=T(2); return v; }); VP_CHECK(&w.value()==&x && w.mask()==m && w.any()==m.any() && w.all()==m.all() && w.none()==m.none(),"where does not reflect its mask and pack"); const auto& cw=w; VP_CHECK(&cw.value()==&x,"const value()"); }
  { Pack<T,N> x(p0); { auto w=ekat::where(p<q,x); for (int i=0;i<N;++i) x[i]=T(i); w=s; } lanes("where of a temporary mask",x,[&](int i)->T{ return p0[i]<qq[i]?s:T(i); }); }
  VP_CHECK(same_pack(q,qq) && same_pack(p,p0),"an operand changed"); c.nontrivial((m.any() && !m.all()) || N==1); c.label("none",m.none()); c.label("all",m.all());
}
VP_PROP(masked_updates, 60000, 1500000, "set and where assignments with scalars and packs, aliased sources, several updates through one where expression, zero divisors and NaN in lanes not selected; non-trivial: some lanes selected and some not") { SIZES(upd) }
template<int N> static void red (vp::Case& c) {
  auto p=pack<T,N>(c,3,false); auto m=mask<N>(c); T s=lane<T>(c,50,false); for (int i=0;i<N;++i) if (!m[i] && c.chance(1,3)) { if (FL) p[i]=c.b()?std::numeric_limits<T>::quiet_NaN():std::numeric_limits<T>::infinity(); else p[i]=c.b()?std::numeric_limits<T>::max():std::numeric_limits<T>::lowest(); } int budget=sizeof(T)==8?12:6; if (!FL) { for (int i=0;i<N;++i) if (m[i] && std::abs((double)p[i])>1 && --budget<0) p[i]=T(1); }
  const auto p0=p; bool z=false; for (int i=0;i<N;++i) z|=m[i]&&p[i]==T(0); c.d << "Pack<T," << N << "> " << tx(p) << " mask " << tx(m) << " init " << tx(s);
#define RED(op) { T x=s, y=s; auto& r=(x op ekat::where(m,p)); VP_CHECK(&r==&x,"scalar " #op " where returns another object"); for (int i=0;i<N;++i) if (m[i]) y op p0[i]; bool ok; if constexpr (FL) { double sc=1; for (int i=0;i<N;++i) if (m[i]) sc+=std::abs((double)p0[i]); sc+=std::abs((double)s); ok=vp::same_val(x,y) || std::abs((double)x-(double)y)<=64*std::numeric_limits<T>::epsilon()*(std::string(#op)=="+="||std::string(#op)=="-="?sc:std::abs((double)y)); } else ok=x==y; VP_CHECK(ok,"scalar " #op " where gives " << tx(x) << ", expected " << tx(y)); }
  RED(+=) RED(-=) RED(*=) if (FL || !z) RED(/=)
  T mn=s,mx=s; for (int i=0;i<N;++i) if (m[i]) { mn=std::min(mn,(T)p0[i]); mx=std::max(mx,(T)p0[i]); }
  VP_CHECK(ekat::where(m,p).min(s)==mn && ekat::min(m,s,p)==mn,"masked min is " << tx(ekat::min(m,s,p)) << "/" << tx(ekat::where(m,p).min(s)) << ", expected " << tx(mn)); VP_CHECK(ekat::where(m,p).max(s)==mx && ekat::max(m,s,p)==mx,"masked max is " << tx(ekat::max(m,s,p)) << "/" << tx(ekat::where(m,p).max(s)) << ", expected " << tx(mx));
  auto w=ekat::where(m,p); VP_CHECK(ekat::min(w,s)==mn && ekat::max(w,s)==mx,"min/max of a where expression");
  VP_CHECK(same_pack(p,p0),"the pack changed"); c.nontrivial((m.any() && !m.all()) || N==1);
}
VP_PROP(masked_reductions, 60000, 1500000, "reductions of a where expression into a scalar by + - * /, masked min and max with NaN, infinities and extreme values in lanes not selected; non-trivial: some lanes selected and some not") { SIZES(red) }
VP_PROP(scalar_where, 100000, 2000000, "where on plain scalars: all assignments, reductions and min/max for true and false masks; every case counts") {
  T x0=lane<T>(c,1000,FL), s=lane<T>(c,1000,FL), a=lane<T>(c,1000,FL); bool m=c.b(); if (!FL) { if (s==T(0)) s=T(2); if (x0==T(0)) x0=T(3); } c.d << "x=" << tx(x0) << " s=" << tx(s) << " a=" << tx(a) << " mask " << m;
#define SW(op) { T x=x0; auto& r=(ekat::where(m,x) op s); T v=x0; if (m) v op s; VP_CHECK(&r==&x && same_lane(x,v),"where(" << m << ",x) " #op " s gives " << tx(x)); } { T x=x0, y=a, v=a; auto& r=(y op ekat::where(m,x)); if (m) v op x0; VP_CHECK(&r==&y && same_lane(y,v) && same_lane(x,x0),"y " #op " where(" << m << ",x) gives " << tx(y)); }
  SW(+=) SW(-=) SW(*=) SW(/=)
  { T x=x0; auto& r=(ekat::where(m,x)=s); VP_CHECK(&r==&x && same_lane(x,m?s:x0),"where(" << m << ",x)=s gives " << tx(x)); }
  { T x=x0; auto w=ekat::where(m,x); VP_CHECK(w.any()==m && w.all()==m && w.none()==!m && w.mask()==m && &w.value()==&x,"any/all/none");
    if (x0==x0 && a==a) { T mn=m?std::min(a,x0):a, mx=m?std::max(a,x0):a; VP_CHECK(w.min(a)==mn && ekat::min(w,a)==mn && w.max(a)==mx && ekat::max(w,a)==mx,"min/max of where on a scalar"); } else if (!m) { VP_CHECK(same_lane((T)w.min(a),a) && same_lane((T)w.max(a),a),"min/max with a false mask"); }
    bool flag=m; T z=x0; auto v=ekat::where(flag,z); flag=!flag; v=s; VP_CHECK(same_lane(z,m?s:x0),"where does not keep the mask it was given"); }
  c.nontrivial();
}
