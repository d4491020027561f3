// C22: host-device transfers and transposition
#if !defined(VP_PART) || VP_PART==0
#define VP_MAIN
#endif
#include "vp.hpp"
#include "kk.hpp"
#include "pack_gen.hpp"
#include "ekat_pack_kokkos.hpp"
#include "ekat_kokkos_types.hpp"
#if VP_IN(0)
void vp_init (int&, char**&) { kk_init(); }
void vp_fini () { Kokkos::finalize(); }
#endif
using ekat::Pack; using LR=Kokkos::LayoutRight; using LL=Kokkos::LayoutLeft; using Dev=ekat::DefaultDevice; using TD=ekat::TransposeDirection;
template<typename T> static T val (long i) { if constexpr (std::is_same<T,bool>::value) return (i*2654435761ul>>7)&1; else return (T)(i%100000+1); }
// a host buffer of n values between guards
template<typename T> struct Buf { static constexpr int G=5; long n; std::unique_ptr<T[]> p; Buf (long n_) : n(n_), p(new T[n_+2*G]) { for (long i=0;i<n+2*G;++i) p[i]=guard(); } static T guard () { if constexpr (std::is_same<T,bool>::value) return true; else return (T)-77; } T* data () { return p.get()+G; }
  void check (const char* w) { for (int i=0;i<G;++i) VP_CHECK(p[i]==guard() && p[G+n+i]==guard(),w << ": wrote outside the array, next to element " << (p[i]==guard()?n-1:0)); } };
// position in a column-major array of extents e of the element that is at index i of the row-major one
static long cpos (const std::vector<long>& e, const std::vector<long>& i) { long p=0; for (size_t k=0;k<e.size();++k) p=p*e[k]+i[k]; return p; }
static long fpos (const std::vector<long>& e, const std::vector<long>& i) { long p=0; for (int k=(int)e.size()-1;k>=0;--k) p=p*e[k]+i[k]; return p; }
template<typename V, int R, int N> static decltype(auto) sc_at (const V& v, std::vector<long> i) { if constexpr (N==0) return (el<R>(v,i)); else { int l=(int)(i[R-1]%N); i[R-1]/=N; return (el<R>(v,i)[l]); } }
// the row-major source of a transfer, given the direction
template<typename T> static std::vector<char> arranged (const T* s, const std::vector<long>& e, int dir) { // dir -1: none, 0: c2f, 1: f2c
  long n=1; for (long x:e) n*=x; std::vector<char> b(n*sizeof(T)+1); T* d=(T*)b.data(); each(e,[&](const std::vector<long>& i){ long c=cpos(e,i), f=fpos(e,i); if (dir<0) d[c]=s[c]; else if (dir==0) d[f]=s[c]; else d[c]=s[f]; }); return b; }
template<int R, typename D, typename S, typename V, typename... X> static void h2d (const D& data, const std::vector<S>& e, V& views, X... x) { if constexpr (R==1) ekat::host_to_device(data,e[0],views,x...); else if constexpr (R==2) ekat::host_to_device(data,e[0],e[1],views,x...); else ekat::host_to_device(data,e[0],e[1],e[2],views,x...); }
template<int R, typename D, typename S, typename V, typename... X> static void d2h (const D& data, const std::vector<S>& e, V& views, X... x) { if constexpr (R==1) ekat::device_to_host(data,e[0],views,x...); else if constexpr (R==2) ekat::device_to_host(data,e[0],e[1],views,x...); else ekat::device_to_host(data,e[0],e[1],e[2],views,x...); }
template<typename T, int N, int R, typename L, typename S> static void transfer (vp::Case& c) {
  using E=std::conditional_t<(N>0),Pack<T,N?N:1>,T>; using V=Kokkos::View<typename ekat::DataND<E,R>::type,L,Dev>; constexpr int B=N?N:1;
  int na=c.size(0,4); bool uni=c.chance(1,3), pre=c.chance(1,3); int dir=R==1?-1:(int)c.below(3)-1; bool dflt=dir==1 && c.b(); int back=R==1?-1:dir<0?(c.chance(1,4)?(int)c.below(2):-1):1-dir; bool bdflt=back==0 && c.b();
  std::vector<std::vector<long>> e(na); for (int a=0;a<na;++a) for (int k=0;k<R;++k) e[a].push_back(uni && a ? e[0][k] : c.size(c.chance(1,12)?0:1,k==R-1?(R==1?40:19):6));
  c.d << na << " arrays of rank " << R << " packs of " << N << (uni?" uniform":"") << (pre?" preallocated":"") << " direction " << dir << " back " << back << ":"; for (auto& x:e) c.d << " " << itx(x);
  std::vector<Buf<T>> host; std::vector<const T*> in; std::vector<int> ow(na); std::vector<long> hn(na,0); bool shared=c.chance(1,4); for (int a=0;a<na;++a) { ow[a]=shared && a>0 && c.chance(2,3)?ow[c.below(a)]:a; long n=1; for (long x:e[a]) n*=x; hn[ow[a]]=std::max(hn[ow[a]],n); } // several views may be filled from one array, also with other sizes
  for (int a=0;a<na;++a) { host.emplace_back(hn[a]); for (long i=0;i<hn[a];++i) host[a].data()[i]=val<T>(i*7+a*1000+3); } for (int a=0;a<na;++a) { in.push_back(host[ow[a]].data()); if (shared) c.d << (a?",":" sources ") << ow[a]; }
  std::vector<std::vector<S>> sz(R); for (int k=0;k<R;++k) for (int a=0;a<na;++a) sz[k].push_back((S)e[a][k]);
  std::vector<size_t> us(R,0); if (na) for (int k=0;k<R;++k) us[k]=(size_t)e[0][k];
  std::vector<V> views(na); if (pre) for (int a=0;a<na;++a) { auto x=e[a]; x[R-1]=(x[R-1]+B-1)/B; if (R>1 && c.chance(1,3)) { views[a]=mkpad<V>(x); c.label("padded",!views[a].span_is_contiguous()); } else views[a]=mk<V>(x); }
  auto up=[&](auto& vw){ auto go=[&](auto... x){ if (uni) h2d<R>(in,us,vw,x...); else h2d<R>(in,sz,vw,x...); }; if constexpr (R==1) go(); else { if (dir<0) { if (c.b()) go(); else go(false); } else if (dflt) go(true); else go(true,dir==0?TD::c2f:TD::f2c); } };
  if (pre) { const auto& cv=views; up(cv); } else up(views);
  for (int a=0;a<na;++a) { auto b=arranged(in[a],e[a],dir); const T* s=(const T*)b.data(); for (int k=0;k<R;++k) { long w=k==R-1?(e[a][k]+B-1)/B:e[a][k]; VP_CHECK((long)views[a].extent(k)==w,"array " << a << ": extent " << k << " is " << views[a].extent(k) << ", expected " << w); }
    long q=0; each(e[a],[&](const std::vector<long>& i){ T got=sc_at<V,R,N>(views[a],i); VP_CHECK(got==s[q],"array " << a << " to the device: element " << itx(i) << " is " << tx(got) << ", expected " << tx(s[q])); ++q; });
    for (long i=0;i<host[a].n;++i) VP_CHECK(host[a].data()[i]==val<T>(i*7+a*1000+3),"array " << a << ": the source changed"); host[a].check("host to device"); }
  std::vector<const void*> views0; for (auto& v:views) views0.push_back(v.data()); // back, possibly fewer elements than the views hold
  auto f=e; if (c.chance(1,4)) { uni=false; for (auto& x:f) for (auto& y:x) if (y>0 && c.chance(1,3)) y=c.irange(0,(int)y); }
  for (int k=0;k<R;++k) for (int a=0;a<na;++a) sz[k][a]=(S)f[a][k];
  if (uni && na>1 && c.chance(1,4)) { views[na-1]=views[0]; c.d << " one view twice"; } std::vector<Buf<T>> out; std::vector<T*> op; for (int a=0;a<na;++a) { long n=1; for (long x:f[a]) n*=x; out.emplace_back(n); } for (auto& o:out) op.push_back(o.data());
  { auto go=[&](auto... x){ if (uni) d2h<R>(op,us,views,x...); else d2h<R>(op,sz,views,x...); }; if constexpr (R==1) go(); else { if (back<0) { if (c.b()) go(); else go(false); } else if (bdflt) go(true); else go(true,back==0?TD::c2f:TD::f2c); } }
  long tot=0; for (int a=0;a<na;++a) { std::vector<char> rb(out[a].n*sizeof(T)+1); T* r=(T*)rb.data(); long q=0; each(f[a],[&](const std::vector<long>& i){ r[q++]=sc_at<V,R,N>(views[a],i); }); auto b=arranged(r,f[a],back); const T* s=(const T*)b.data();
    for (long i=0;i<out[a].n;++i) VP_CHECK(op[a][i]==s[i],"array " << a << " to the host: position " << i << " holds " << tx(op[a][i]) << ", expected " << tx(s[i])); out[a].check("device to host"); tot+=out[a].n;
    if (f==e && views[a].data()==views0[a] && (dir<0?back<0:back==1-dir)) for (long i=0;i<out[a].n;++i) VP_CHECK(op[a][i]==in[a][i],"array " << a << ": the round trip changes position " << i); }
  c.nontrivial(na>=1 && tot>1); c.label("several arrays",na>1); c.label("shared source",shared && na>1); c.label("transposed",dir>=0); c.label("fewer back",f!=e);
}
template<typename T, int N, typename L> void tr (vp::Case& c) { switch (c.below(6)) { case 0: transfer<T,N,1,L,int>(c); break; case 1: transfer<T,N,2,L,int>(c); break; case 2: transfer<T,N,3,L,int>(c); break; case 3: transfer<T,N,1,L,size_t>(c); break; case 4: transfer<T,N,2,L,size_t>(c); break; default: transfer<T,N,3,L,size_t>(c); } }
VP_INST(1,void tr<double,0,LR>(vp::Case&)) VP_INST(1,void tr<double,4,LR>(vp::Case&)) VP_INST(1,void tr<double,1,LR>(vp::Case&)) VP_INST(2,void tr<int,8,LR>(vp::Case&)) VP_INST(2,void tr<float,16,LR>(vp::Case&)) VP_INST(2,void tr<int,0,LR>(vp::Case&)) VP_INST(3,void tr<bool,0,LR>(vp::Case&)) VP_INST(3,void tr<double,4,LL>(vp::Case&)) VP_INST(3,void tr<double,0,LL>(vp::Case&))
#if VP_IN(0)
VP_PROP(transfers, 60000, 1000000, "0-4 arrays of rank 1-3 with their own or common sizes (also zero), some of them the same array, packs of 1-16, plain and boolean elements, new and preallocated views of both layouts, both transposition directions, copies back of all or part of each view; non-trivial: at least two elements came back") {
  switch (c.below(9)) { case 0: tr<double,0,LR>(c); break; case 1: tr<double,4,LR>(c); break; case 2: tr<double,1,LR>(c); break; case 3: tr<int,8,LR>(c); break; case 4: tr<float,16,LR>(c); break; case 5: tr<int,0,LR>(c); break; case 6: tr<bool,0,LR>(c); break; case 7: tr<double,4,LL>(c); break; default: tr<double,0,LL>(c); } }
template<typename T> static void transp (vp::Case& c) {
  int r=c.irange(2,3); std::vector<long> e; for (int k=0;k<r;++k) e.push_back(c.size(c.chance(1,15)?0:1,12)); int dir=(int)c.below(2); bool rt=c.b(); long n=1; for (long x:e) n*=x; c.d << "transpose " << itx(e) << (dir?" f2c":" c2f");
  Buf<T> s(n), d(n), b(n); for (long i=0;i<n;++i) s.data()[i]=val<T>(i);
  auto go=[&](const T* x, T* y, int dr){ int a=(int)e[0],k=(int)e[1],j=r==3?(int)e[2]:0; if (rt) { auto q=dr==0?TD::c2f:TD::f2c; if (r==2) ekat::transpose(x,y,a,k,q); else ekat::transpose(x,y,a,k,j,q); } else if (dr==0) { if (r==2) ekat::transpose<TD::c2f>(x,y,a,k); else ekat::transpose<TD::c2f>(x,y,a,k,j); } else { if (r==2) ekat::transpose<TD::f2c>(x,y,a,k); else ekat::transpose<TD::f2c>(x,y,a,k,j); } };
  go(s.data(),d.data(),dir); auto w=arranged(s.data(),e,dir); for (long i=0;i<n;++i) VP_CHECK(d.data()[i]==((const T*)w.data())[i],"position " << i << " holds " << tx(d.data()[i])); go(d.data(),b.data(),1-dir); for (long i=0;i<n;++i) VP_CHECK(b.data()[i]==s.data()[i],"forth and back changes position " << i); for (long i=0;i<n;++i) VP_CHECK(s.data()[i]==val<T>(i),"the source changed"); s.check("source"); d.check("target"); b.check("way back");
  int big=0; for (long x:e) big+=x>1; c.nontrivial(big>=2); }
VP_PROP(transposition, 60000, 1000000, "transposition of 2d and 3d arrays of all shapes up to 12, both directions, chosen at compile and run time, and back; non-trivial: two extents above one") { switch (c.below(3)) { case 0: transp<double>(c); break; case 1: transp<int>(c); break; default: transp<char>(c); } }
#ifndef NDEBUG
VP_PROP(mismatched_counts, 4000, 30000, "in debug builds: numbers of arrays, sizes and views that differ, preallocated views of other extents; every case counts") {
  using V=Kokkos::View<Pack<double,4>*,LR,Dev>; using V2=Kokkos::View<double**,LR,Dev>; using V3=Kokkos::View<Pack<double,4>***,LR,Dev>; int na=c.irange(1,4), nb=c.irange(1,4), nv=c.irange(1,4), r=c.irange(1,3); c.d << na << " arrays, " << nb << " sizes, " << nv << " views, rank " << r; std::vector<double> buf(1000,1.0); std::vector<const double*> in(na,buf.data()); std::vector<double> ob(1000); std::vector<double*> out(na,ob.data()); bool bad=na!=nb||na!=nv;
  if (r==1) { std::vector<int> s(nb,5); std::vector<V> v(nv), w(nv,V("v",2)); VP_CHECK(vp::throws([&]{ ekat::host_to_device(in,s,v); })==bad,"host to device"); VP_CHECK(vp::throws([&]{ ekat::device_to_host(out,s,w); })==bad,"device to host"); const std::vector<V> pw(na,V("v",c.irange(1,3))); if (na==nb) VP_CHECK(vp::throws([&]{ ekat::host_to_device(in,s,pw); })==(pw[0].extent(0)!=2),"preallocated views of another extent"); }
  else if (r==2) { std::vector<int> s(nb,3), t(na,4); std::vector<V2> v(nv), w(nv,V2("v",3,4)); VP_CHECK(vp::throws([&]{ ekat::host_to_device(in,s,t,v); })==bad,"host to device"); VP_CHECK(vp::throws([&]{ ekat::device_to_host(out,s,t,w); })==bad,"device to host"); const std::vector<V2> pw(na,V2("v",3,c.irange(3,5))); if (na==nb) VP_CHECK(vp::throws([&]{ ekat::host_to_device(in,s,t,pw); })==(pw[0].extent(1)!=4),"preallocated views of other extents"); }
  else { std::vector<int> s(na,3), t(na,2), u(nb,5); std::vector<V3> v(nv), w(nv,V3("v",3,2,2)); VP_CHECK(vp::throws([&]{ ekat::host_to_device(in,s,t,u,v); })==bad,"host to device"); VP_CHECK(vp::throws([&]{ ekat::device_to_host(out,s,t,u,w); })==bad,"device to host"); }
  c.nontrivial(bad); }
#endif
#endif
