// C21: arrays seen as packs or scalars, gathering, adjacent differences
#if !defined(VP_PART) || VP_PART==0
#define VP_MAIN
#endif
#include "vp.hpp"
#include "kk.hpp"
#include "pack_gen.hpp"
#include "ekat_pack_kokkos.hpp"
#include "ekat_subview_utils.hpp"
#if VP_IN(0)
void vp_init (int&, char**&) { kk_init(); }
void vp_fini () { Kokkos::finalize(); }
#endif
using ekat::Pack; using LR=Kokkos::LayoutRight; using LL=Kokkos::LayoutLeft; using LSt=Kokkos::LayoutStride; using Dev=ekat::DefaultDevice;
template<typename T, int R> using DN=typename ekat::DataND<T,R>::type;
template<typename DT, typename L=LR> using View=Kokkos::View<DT,L,Dev>;
static std::vector<long> exts (vp::Case& c, int r, long last) { std::vector<long> e; int cap=r<=2?9:r<=4?4:3; for (int i=0;i<r-1;++i) e.push_back(c.chance(1,30)?0:c.irange(1,cap)); if (r) e.push_back(last); return e; }
// element addresses of a scalar view against those of the scalars of the source: src(i...,flat last index)
template<int R, typename V> static void same_elements (const char* w, const V& v, const std::vector<long>& ext, const std::function<const void*(const std::vector<long>&)>& want) {
  for (int k=0;k<R;++k) VP_CHECK((long)v.extent(k)==ext[k],w << ": extent " << k << " is " << v.extent(k) << ", expected " << ext[k]);
  each(ext,[&](const std::vector<long>& i){ const void* p=&el<R>(v,i); VP_CHECK(p==want(i),w << ": element " << itx(i) << " is " << ((const char*)p-(const char*)want(i)) << " bytes off its place"); });
}
template<typename PV, int R, int N> static std::function<const void*(const std::vector<long>&)> scal (const PV& p) { return [&p](const std::vector<long>& i)->const void*{ auto j=i; if constexpr (R>0) j[R-1]=i[R-1]/N; return &el<R>(p,j)[(int)(R>0?i[R-1]%N:0)]; }; }
template<typename T, int N, int R> static void scalarized (vp::Case& c) {
  using P=Pack<T,N>; auto e=exts(c,R,c.size(c.chance(1,30)?0:1,6)); using V=View<DN<P,R>>; V p=mk<V>(e); c.d << "scalarize rank " << R << " pack size " << N << " extents " << itx(e);
  auto se=e; if (R) se[R-1]*=N; auto s=ekat::scalarize(p); using SV=decltype(s);
  if constexpr (R>0) { VP_CHECK((int)SV::rank==R,"rank is " << (int)SV::rank); VP_CHECK((std::is_same<typename SV::value_type,T>::value),"element type"); same_elements<R>("scalarize",s,se,scal<V,R,N>(p));
    typename V::const_type cp(p); auto cs=ekat::scalarize(cp); VP_CHECK((std::is_same<typename decltype(cs)::value_type,const T>::value),"scalarizing a constant view gives another element type"); same_elements<R>("scalarize const",cs,se,scal<V,R,N>(p));
    auto s2=ekat::scalarize(s); same_elements<R>("scalarize twice",s2,se,scal<V,R,N>(p));
    ekat::Unmanaged<V> u(p); auto us=ekat::scalarize(u); same_elements<R>("scalarize unmanaged",us,se,scal<V,R,N>(p));
    each(se,[&](const std::vector<long>& i){ el<R>(s,i)=(T)(i[R-1]%100+i[0]*7); }); each(e,[&](const std::vector<long>& i){ for (int l=0;l<N;++l) VP_CHECK(el<R>(p,i)[l]==(T)((i[R-1]*N+l)%100+(R==1?(i[0]*N+l):i[0])*7),"a value written through the scalar view is not in the pack"); });
  } else { VP_CHECK((int)SV::rank==1 && s.extent(0)==N,"a single pack becomes an array of " << s.extent(0)); for (int l=0;l<N;++l) VP_CHECK(&s(l)==&p()[l],"element " << l << " of a single pack"); auto cs=ekat::scalarize(typename V::const_type(p)); for (int l=0;l<N;++l) VP_CHECK(&cs(l)==&p()[l],"element " << l << " of a constant single pack"); }
  c.nontrivial(p.size()>1 && N>1);
}
template<typename T, int N> static void by_rank (vp::Case& c) { switch (c.below(8)) { case 0: scalarized<T,N,1>(c); break; case 1: scalarized<T,N,2>(c); break; case 2: scalarized<T,N,3>(c); break; case 3: scalarized<T,N,4>(c); break; case 4: scalarized<T,N,5>(c); break; case 5: scalarized<T,N,6>(c); break; case 6: scalarized<T,N,7>(c); break; default: scalarized<T,N,0>(c); } }
template<typename T> void by_size (vp::Case& c) { switch (c.below(4)) { case 0: by_rank<T,1>(c); break; case 1: by_rank<T,4>(c); break; case 2: by_rank<T,8>(c); break; default: by_rank<T,16>(c); } }
VP_INST(1,void by_size<double>(vp::Case&)) VP_INST(2,void by_size<int>(vp::Case&))
#if VP_IN(0)
VP_PROP(scalarizing, 40000, 800000, "views of packs of rank 0-7, pack sizes 1-16, double and int, also empty, constant, unmanaged: extents, element types and the address of every element; non-trivial: several packs of several lanes") { if (c.b()) by_size<double>(c); else by_size<int>(c); }
// fixed extents
VP_PROP(fixed_extents, 4000, 20000, "views with compile-time extents scalarized; non-trivial: always") {
  int n=c.irange(1,6), k=(int)c.below(5); c.d << "kind " << k << " n " << n;
  auto go=[&](auto p, auto rank, auto nn){ constexpr int R=decltype(rank)::value, N=decltype(nn)::value; auto e=ref_of(p).ext; e[R-1]*=N; auto s=ekat::scalarize(p); same_elements<R>("scalarize with fixed extents",s,e,scal<decltype(p),R,N>(p)); };
  auto K=[](auto x){ return x; }; (void)K; using std::integral_constant; using i1=integral_constant<int,1>; using i2=integral_constant<int,2>; using i3=integral_constant<int,3>; using i4=integral_constant<int,4>; using i8=integral_constant<int,8>;
  switch (k) { case 0: go(View<Pack<double,4>[5]>("v"),i1(),i4()); break; case 1: go(View<Pack<double,8>*[3]>("v",n),i2(),i8()); break; case 2: go(View<Pack<int,4>**[3]>("v",n,2),i3(),i4()); break; case 3: go(View<Pack<float,4>*[2][3]>("v",n),i3(),i4()); break; default: go(View<Pack<double,4>[2][3]>("v"),i2(),i4()); }
  // the same on types
  VP_CHECK((std::is_same<ekat::ScalarizedDataType<double**>::type,double**>::value && std::is_same<ekat::ScalarizedDataType<double[2][3]>::type,double[2][3]>::value && std::is_same<ekat::ScalarizedDataType<Pack<int,4>>::type,int[4]>::value && std::is_same<ekat::ScalarizedDataType<const Pack<int,4>*>::type,const int*>::value && std::is_same<ekat::ScalarizedDataType<Pack<double,8>**[3][5]>::type,double**[3][40]>::value && std::is_same<ekat::ScalarizedDataType<const Pack<double,8>>::type,const double[8]>::value),"ScalarizedDataType spells another type");
  c.nontrivial(); }
#endif
template<typename T, int N, int M, int R> static void repacked (vp::Case& c) { // Pack<T,N> (or T if N is 0) to Pack<T,M>
  constexpr int B=N?N:1; using S=std::conditional_t<(N>0),Pack<T,N?N:1>,T>; long last=c.size(1,B>=M?6:24/B+1); if (c.chance(2,3) && (last*B)%M) last=((last*B+M-1)/M*M+B-1)/B; while (c.chance(1,2) && (last*B)%M) ++last; auto e=exts(c,R,last); using V=View<DN<S,R>>; V v=mk<V>(e);
  bool ok=(last*B)%M==0; c.d << "repack rank " << R << " from " << N << " to " << M << " extents " << itx(e); auto why=[&]{ return rejected([&]{ auto q=ekat::repack<M>(v); (void)q; }); };
  if (!ok) { VP_CHECK(why(),"packs of " << M << " do not divide " << last*B << " scalars, yet the view is accepted"); c.label("rejected"); c.nontrivial(); return; }
  auto chk=[&](const char* w, auto q, bool cst){ using Q=decltype(q); VP_CHECK((int)Q::rank==R && (std::is_same<typename Q::value_type,std::conditional_t<std::is_const<typename Q::value_type>::value,const Pack<T,M>,Pack<T,M>>>::value),w << ": rank or element type"); VP_CHECK(std::is_const<typename Q::value_type>::value==cst,w << ": const is lost or added");
    for (int k=0;k<R-1;++k) VP_CHECK((long)q.extent(k)==e[k],w << ": extent " << k << " is " << q.extent(k)); VP_CHECK((long)q.extent(R-1)==last*B/M,w << ": last extent is " << q.extent(R-1) << ", expected " << last*B/M);
    auto se=e; se[R-1]=last*B; each(se,[&](const std::vector<long>& i){ auto j=i,k=i; j[R-1]/=M; k[R-1]/=B; const void* g=&el<R>(q,j)[(int)(i[R-1]%M)]; const void* x; if constexpr (N>0) x=&el<R>(v,k)[(int)(i[R-1]%B)]; else x=&el<R>(v,k); VP_CHECK(g==x,w << ": scalar " << itx(i) << " is elsewhere"); }); };
  chk("repack",ekat::repack<M>(v),false); chk("repack const",ekat::repack<M>(typename V::const_type(v)),true); chk("repack of repack",ekat::repack<M>(ekat::repack<(B>=M?M:B)>(v)),false); if constexpr (N==0) chk("repack of scalars of packs",ekat::repack<M>(ekat::scalarize(ekat::repack<M>(v))),false);
  c.nontrivial(M!=B && v.size()>1);
}
template<int N, int M> void rr (vp::Case& c) { if (c.b()) switch (c.below(4)) { case 0: repacked<double,N,M,1>(c); break; case 1: repacked<double,N,M,2>(c); break; case 2: repacked<double,N,M,3>(c); break; default: repacked<double,N,M,5>(c); } else { if (c.b()) repacked<int,N,M,2>(c); else repacked<int,N,M,4>(c); } }
VP_INST(3,void rr<0,1>(vp::Case&)) VP_INST(3,void rr<0,4>(vp::Case&)) VP_INST(3,void rr<0,16>(vp::Case&)) VP_INST(3,void rr<4,8>(vp::Case&)) VP_INST(3,void rr<8,4>(vp::Case&)) VP_INST(3,void rr<16,1>(vp::Case&)) VP_INST(3,void rr<4,16>(vp::Case&)) VP_INST(3,void rr<16,8>(vp::Case&))
#if VP_IN(0)
VP_PROP(repacking, 20000, 300000, "views of scalars and of packs of 1-16 repacked to 1-16, ranks 1-5, dividing and non-dividing extents (the latter must be rejected), constant views, chains; non-trivial: another pack size on several packs, or a rejection") {
  switch (c.below(12)) { case 0: rr<0,1>(c); break; case 1: rr<0,4>(c); break; case 2: rr<0,16>(c); break; case 3: rr<4,8>(c); break; case 4: rr<8,4>(c); break; case 5: rr<16,1>(c); break; case 6: rr<4,16>(c); break; case 7: rr<16,8>(c); break; case 8: rr<1,8>(c); break; case 9: rr<2,2>(c); break; case 10: rr<0,2>(c); break; default: rr<16,2>(c); } }
template<int N> static void sliced (vp::Case& c) { // views whose memory is not row-major: either the right elements or a rejection
  long a=c.irange(1,4), b=c.irange(1,4), d=c.irange(1,4); View<Pack<double,N>***> v("v",a,b,d); int k=c.irange(0,(int)b-1); auto s=ekat::subview_1(v,k); Ref r=ref_of(s); bool rm=r.row_major(sizeof(Pack<double,N>)); c.d << "slice " << k << " of " << a << "x" << b << "x" << d << " packs of " << N;
  auto try_=[&](const char* w, auto f, auto chk){ if (!rm && rejected([&]{ auto q=f(); (void)q; })) { c.label(std::string(w)+" rejects"); return; } auto q=f(); chk(q); };
  std::vector<long> se{a,d*N}; auto sw=[&](const std::vector<long>& i)->const void*{ return &v((int)i[0],k,(int)(i[1]/N))[(int)(i[1]%N)]; };
  try_("scalarize",[&]{ return ekat::scalarize(s); },[&](auto& q){ same_elements<2>("scalarize of a slice",q,se,sw); });
  try_("repack",[&]{ return ekat::repack<1>(s); },[&](auto& q){ each(se,[&](const std::vector<long>& i){ VP_CHECK(&q((int)i[0],(int)i[1])[0]==sw(i),"repack of a slice: element " << itx(i)); }); });
  View<double**,LL> l("l",a,d*N); Ref lr=ref_of(l); if (lr.row_major(8) || !rejected([&]{ auto q=ekat::repack<N>(l); (void)q; })) { auto q=ekat::repack<N>(l); each(se,[&](const std::vector<long>& i){ VP_CHECK(&q((int)i[0],(int)(i[1]/N))[(int)(i[1]%N)]==&l((int)i[0],(int)i[1]),"repack of a column-major view: element " << itx(i)); }); }
  c.nontrivial(!rm);
}
VP_PROP(slices_of_packs, 3000, 20000, "scalarize and repack of slices with gaps and of column-major views: the right elements or a rejection; non-trivial: the slice has gaps") { if (c.b()) sliced<4>(c); else sliced<8>(c); }
#endif
#if VP_IN(1)
// gathering
template<typename I, typename V, int R, int N, size_t... K> static auto gather (const V& v, const std::array<Pack<I,N>,R>& i, std::index_sequence<K...>) { return ekat::index(v,i[K]...); }
template<typename T, int R, int N, typename V> static void gather_in (vp::Case& c, const V& v, const std::vector<long>& e) {
  int n=0; std::mt19937 g((unsigned)c.below(1000)); each(e,[&](const std::vector<long>& i){ el<R>(v,i)=(T)(++n*3+(int)(g()%3)); });
  std::array<Pack<int,N>,R> ix; std::array<Pack<long,N>,R> il; bool all_seq=true; for (int k=0;k<R;++k) { bool seq=e[k]>=N && c.b(), same=!seq && c.chance(1,4); all_seq&=seq; int s0=c.irange(0,(int)e[k]-(seq?N:1)); for (int l=0;l<N;++l) { ix[k][l]=seq?s0+l:same?s0:c.irange(0,(int)e[k]-1); il[k][l]=ix[k][l]; } } c.d << "gather rank " << R << " lanes " << N << " extents " << itx(e); for (int k=0;k<R;++k) c.d << " " << tx(ix[k]);
  auto chk=[&](const char* w, auto p){ static_assert(std::is_same<decltype(p),Pack<T,N>>::value,"type"); for (int l=0;l<N;++l) { std::vector<long> i; for (int k=0;k<R;++k) i.push_back(ix[k][l]); VP_CHECK(p[l]==el<R>(v,i),w << ": lane " << l << " is " << tx(p[l]) << ", element " << itx(i) << " is " << tx((T)el<R>(v,i))); } };
  chk("index",gather<int,V,R,N>(v,ix,std::make_index_sequence<R>())); chk("index const",gather<int,typename V::const_type,R,N>(typename V::const_type(v),ix,std::make_index_sequence<R>())); chk("index by long",gather<long,V,R,N>(v,il,std::make_index_sequence<R>()));
  c.nontrivial(n>1 && N>1); c.label("consecutive",all_seq); c.label("gaps",!v.span_is_contiguous());
}
template<typename T, typename L, int R, int N> static void gathered (vp::Case& c) {
  std::vector<long> e; for (int k=0;k<R;++k) e.push_back(c.irange(1,R<=2?20:c.chance(1,8)?N:4)); if constexpr (R<=3) if (c.chance(1,3)) { // one index of a larger array fixed: rows, columns, slices
    std::vector<long> be(e); int at=c.irange(0,R); long x=c.irange(2,5); be.insert(be.begin()+at,x); auto big=mk<View<DN<T,R+1>,L>>(be); int k=c.irange(0,(int)x-1); auto A=Kokkos::ALL;
    c.d << "index " << at << " of " << itx(be) << " fixed at " << k << ": ";
    if constexpr (R==1) { View<T*,Kokkos::LayoutStride> v=at==0?View<T*,Kokkos::LayoutStride>(Kokkos::subview(big,k,A)):View<T*,Kokkos::LayoutStride>(Kokkos::subview(big,A,k)); gather_in<T,R,N>(c,v,e); return; }
    if constexpr (R==2) { using VS=View<T**,Kokkos::LayoutStride>; VS v=at==0?VS(Kokkos::subview(big,k,A,A)):at==1?VS(Kokkos::subview(big,A,k,A)):VS(Kokkos::subview(big,A,A,k)); gather_in<T,R,N>(c,v,e); return; }
    if constexpr (R==3) { using VS=View<T***,Kokkos::LayoutStride>; VS v=at==0?VS(Kokkos::subview(big,k,A,A,A)):at==1?VS(Kokkos::subview(big,A,k,A,A)):at==2?VS(Kokkos::subview(big,A,A,k,A)):VS(Kokkos::subview(big,A,A,A,k)); gather_in<T,R,N>(c,v,e); return; }
  }
  using V=View<DN<T,R>,L>; bool pad=R>=2 && c.chance(1,4); if (pad) e[1]+=c.irange(8,30); V v=pad?mkpad<V>(e):mk<V>(e); gather_in<T,R,N>(c,v,e);
}
template<typename T, typename L, int N> static void gr (vp::Case& c) { switch (c.below(5)) { case 0: gathered<T,L,1,N>(c); break; case 1: gathered<T,L,2,N>(c); break; case 2: gathered<T,L,3,N>(c); break; case 3: gathered<T,L,4,N>(c); break; default: gathered<T,L,5,N>(c); } }
VP_PROP(gathering, 40000, 800000, "index with random index packs on views of rank 1-5, row- and column-major, int and double; non-trivial: several elements and lanes") { switch (c.below(6)) { case 0: gr<double,LR,1>(c); break; case 1: gr<double,LR,4>(c); break; case 2: gr<int,LR,8>(c); break; case 3: gr<double,LL,4>(c); break; case 4: gr<int,LL,16>(c); break; default: gr<float,LR,16>(c); } }
template<typename T, int N, int S> static void shifted (vp::Case& c) {
  int n=c.irange(1,20); bool col=c.chance(1,3); View<T**> mat("m",n,3); Kokkos::deep_copy(mat,T(-77)); View<T*> row("v",n); using VS=View<T*,Kokkos::LayoutStride>; VS v=col?VS(Kokkos::subview(mat,Kokkos::ALL,1)):VS(row); for (int i=0;i<n;++i) v(i)=(T)(i*i+1); c.label("column",col);
#ifdef NDEBUG
  int lo=std::max(0,-S), hi=n-1-std::max(0,S); if (lo>hi) { c.discard(); } // neighbours outside the array are only allowed in debug builds
#else
  int lo=0, hi=n-1;
#endif
  Pack<int,N> ix; bool seq=c.b(); int s0=c.irange(lo,hi); bool oob=false; for (int l=0;l<N;++l) { ix[l]=seq?std::min(hi,s0+l):c.irange(lo,hi); oob|=ix[l]+S<0||ix[l]+S>=n; } c.d << "index_and_shift<" << S << "> extent " << n << " indices " << tx(ix);
  Pack<T,N> a(T(-1)), b(T(-2)); ekat::index_and_shift<S>(v,ix,a,b); for (int l=0;l<N;++l) { VP_CHECK(a[l]==v(ix[l]),"lane " << l << " is " << tx(a[l]) << ", element " << ix[l] << " is " << tx((T)v(ix[l]))); int j=ix[l]+S; if (j>=0 && j<n) VP_CHECK(b[l]==v(j),"shifted lane " << l << " is " << tx(b[l]) << ", element " << j << " is " << tx((T)v(j))); else VP_CHECK(b[l]!=b[l] || b[l]==std::numeric_limits<T>::max(),"shifted lane " << l << " has no element, but the value " << tx(b[l])); }
  c.nontrivial(N>1); c.label("neighbour missing",oob);
}
VP_PROP(index_and_shift, 40000, 500000, "index_and_shift by -3..3 on arrays of 1-20 elements; in debug builds also where the neighbour does not exist; non-trivial: several lanes") {
  auto go=[&](auto n){ constexpr int N=decltype(n)::value; switch (c.below(7)) { case 0: shifted<double,N,1>(c); break; case 1: shifted<double,N,-1>(c); break; case 2: shifted<double,N,2>(c); break; case 3: shifted<double,N,-3>(c); break; case 4: shifted<int,N,1>(c); break; case 5: shifted<int,N,-2>(c); break; default: shifted<double,N,0>(c); } };
  switch (c.below(3)) { case 0: go(std::integral_constant<int,1>()); break; case 1: go(std::integral_constant<int,4>()); break; default: go(std::integral_constant<int,16>()); } }
template<typename T, int N> static void diffs (vp::Case& c) {
  int n=c.irange(1,8); View<Pack<T,N>*> v("v",n); std::vector<T> f; for (int i=0;i<n;++i) { v(i)=pack<T,N>(c,1000,false); for (int l=0;l<N;++l) f.push_back(v(i)[l]); } int end=c.chance(1,3)?c.irange(1,n):n, M=end*N; c.d << "adjacent differences of " << n << " packs of " << N << " end " << end;
  auto fwd=[&](int j, int m)->T{ T a=j+1<m?f[j+1]:T(0); return a-f[j]; }; auto bwd=[&](int j)->T{ T a=j>0?f[j-1]:T(0); return f[j]-a; };
  auto close=[](T a, T b){ return a==b; };
  for (int i=0;i<end;++i) { auto a=ekat::adj_diff<true>(v,i,end); auto b=ekat::adj_diff<false>(v,i,end); for (int l=0;l<N;++l) { VP_CHECK(close(a[l],fwd(i*N+l,M)),"forward difference of lane " << l << " of pack " << i << " is " << tx(a[l]) << ", expected " << tx(fwd(i*N+l,M))); VP_CHECK(close(b[l],bwd(i*N+l)),"backward difference of lane " << l << " of pack " << i << " is " << tx(b[l]) << ", expected " << tx(bwd(i*N+l))); } }
  { int i=c.irange(0,n-1); auto a=ekat::adj_diff<true>(v,i); auto b=ekat::adj_diff<false>(v,i); for (int l=0;l<N;++l) VP_CHECK(close(a[l],fwd(i*N+l,n*N)) && close(b[l],bwd(i*N+l)),"difference at pack " << i << " with the default end: lane " << l); typename View<Pack<T,N>*>::const_type cv(v); auto d=ekat::adj_diff<true>(cv,i,end>i?end:n); (void)d; }
  auto s=ekat::scalarize(v); for (int j=0;j<M;++j) { VP_CHECK(close(ekat::adj_diff<true>(s,j,M),fwd(j,M)) && close(ekat::adj_diff<false>(s,j,M),bwd(j)),"difference of scalars at " << j << ": " << tx((T)ekat::adj_diff<true>(s,j,M)) << "," << tx((T)ekat::adj_diff<false>(s,j,M))); VP_CHECK(close(ekat::adj_diff<true>(s,j),fwd(j,n*N)) && close(ekat::adj_diff<false>(s,j),bwd(j)),"difference of scalars at " << j << " with the default end"); }
  auto fn=[&](int i){ return f[i]*T(2); }; auto fp=[&](int i){ return v(i)*T(2); }; { int j=c.irange(0,M-1); VP_CHECK(close(ekat::adj_diff<true>(fn,j,M),(j+1<M?f[j+1]*T(2):T(0))-f[j]*T(2)) && close(ekat::adj_diff<false>(fn,j,M),f[j]*T(2)-(j>0?f[j-1]*T(2):T(0))),"difference of a function at " << j); int i=j/N; auto a=ekat::adj_diff<true>(fp,i,end); for (int l=0;l<N;++l) { int q=i*N+l; VP_CHECK(close(a[l],(q+1<M?f[q+1]*T(2):T(0))-f[q]*T(2)),"difference of a function of packs at lane " << l << " of " << i); } }
  int q=0; for (int i=0;i<n;++i) for (int l=0;l<N;++l) VP_CHECK(v(i)[l]==f[q++],"the view changed"); c.nontrivial(n>1 && N>1); c.label("early end",end<n);
}
VP_PROP(adjacent_differences, 40000, 500000, "forward and backward differences of packed and scalar views and of functions, ends before the last pack; non-trivial: several packs of several lanes") { switch (c.below(6)) { case 0: diffs<double,1>(c); break; case 1: diffs<double,4>(c); break; case 2: diffs<int,4>(c); break; case 3: diffs<double,16>(c); break; case 4: diffs<float,2>(c); break; default: diffs<int,8>(c); } }
#endif
