// C24: broadcast views
#if !defined(VP_PART) || VP_PART==0
#define VP_MAIN
#endif
#include "vp.hpp"
#include "kk.hpp"
#include "pack_gen.hpp"
#include "ekat_kokkos_types.hpp"
#include "ekat_view_broadcast.hpp"
#if VP_IN(0)
void vp_init (int&, char**&) { kk_init(); }
void vp_fini () { Kokkos::finalize(); }
#endif
using ekat::Pack; using LR=Kokkos::LayoutRight; using LL=Kokkos::LayoutLeft; using LS=Kokkos::LayoutStride; using Dev=ekat::DefaultDevice;
template<typename T, int R> using DN=typename ekat::DataND<T,R>::type;
template<typename I, typename B, size_t... K> static decltype(auto) at_ (const B& b, const std::vector<long>& i, std::index_sequence<K...>) { return (b((I)i[K]...)); }
template<typename I, int R, typename B> static char* addr (const B& b, const std::vector<long>& i) { return (char*)&at_<I>(b,i,std::make_index_sequence<R>()); }
// the elements of a broadcast: the source element with the added indices dropped
template<int R, typename B> static void elements (vp::Case& c, B& b, const Ref& src, const std::vector<long>& want, const std::vector<int>& from, const char* w) {
  for (int k=0;k<R;++k) VP_CHECK(b.extent(k)==want[k],w << ": extent " << k << " is " << b.extent(k) << ", expected " << want[k]);
  long n=1; for (long x:want) n*=x; auto one=[&](const std::vector<long>& i){ std::vector<long> s(src.ext.size(),0); for (int k=0;k<R;++k) if (from[k]>=0) s[from[k]]=i[k]; char* p; switch (n%3) { case 0: p=addr<int,R>(b,i); break; case 1: p=addr<size_t,R>(b,i); break; default: p=addr<long,R>(b,i); } VP_CHECK(p==src.at(s),w << ": element " << itx(i) << " is " << (p-src.at(s)) << " bytes off source element " << itx(s)); };
  if (n==0) return;
  if (n<=400) each(want,one); else for (int q=0;q<120;++q) { std::vector<long> i; for (long x:want) i.push_back(q==0?0:q==1?x-1:(long)c.below((unsigned)x)); one(i); } }
struct Plan { std::vector<int> req; std::vector<long> want; std::vector<int> from; };
// a placement of the source's dimensions among those of the target, with extents for the others
static Plan plan (vp::Case& c, const std::vector<long>& se, int R) { Plan p; int left=(int)se.size(); for (int k=0;k<R;++k) { bool keep=left>0 && (left==R-k || c.chance(left,R-k)); if (keep) { int f=(int)se.size()-left--; p.from.push_back(f); p.want.push_back(se[f]); p.req.push_back(c.pick({0,-1,-1,-7})); } else { int x=c.irange(1,c.chance(1,8)?40:4); p.from.push_back(-1); p.want.push_back(x); p.req.push_back(x); } } return p; }
static std::string rtx (const std::vector<int>& r) { std::vector<long> v(r.begin(),r.end()); return itx(v); }
template<typename T, typename L, int S, int R> static void good (vp::Case& c) {
  using From=Kokkos::View<DN<T,S>,L,Dev>; using To=Kokkos::View<DN<T,R>,L,Dev>; using CTo=Kokkos::View<DN<const T,R>,L,Dev>;
  std::vector<long> e; for (int k=0;k<S;++k) e.push_back(c.size(c.chance(1,20)?0:1,S<=2?7:4)); From v=mk<From>(e); Plan p=plan(c,e,R); int how=(int)c.below(5); c.d << "rank " << S << " " << itx(e) << " to rank " << R << " request " << rtx(p.req) << " way " << how << "; "; Ref src=ref_of(v);
  switch (how) { case 0: { ekat::ViewBroadcast<To> b(v,p.req); elements<R>(c,b,src,p.want,p.from,"constructor"); break; }
    case 1: { auto b=ekat::broadcast<To>(v,p.req); auto d=b; elements<R>(c,d,src,p.want,p.from,"copy"); break; }
    case 2: { typename From::const_type cv=v; auto b=ekat::broadcast<CTo>(cv,p.req); elements<R>(c,b,src,p.want,p.from,"constant"); break; }
    case 3: { ekat::Unmanaged<From> u=v; auto b=ekat::broadcast<CTo>(u,p.req); elements<R>(c,b,src,p.want,p.from,"constant of unmanaged"); break; }
    default: { ekat::ViewBroadcast<To> b; for (int q=0;q<3;++q) { auto e2=e; for (auto& x:e2) x=c.size(1,4); From v2=mk<From>(e2); Plan p2=plan(c,e2,R); c.d << itx(e2) << " by " << rtx(p2.req) << "; "; b.setup(v2,p2.req); elements<R>(c,b,ref_of(v2),p2.want,p2.from,"set up again"); } b.setup(v,p.req); elements<R>(c,b,src,p.want,p.from,"set up at last"); } }
  // changes on either side are seen on the other
  if (R==2 && v.size()) { if constexpr (R==2 && std::is_same<T,double>::value) { auto b=ekat::broadcast<To>(v,p.req); b(0,0)=5; VP_CHECK(*v.data()==5,"a write through the broadcast is not seen"); *v.data()=6; VP_CHECK(b(0,0)==6 && b((int)(p.from[0]<0?p.want[0]-1:0),(int)(p.from[1]<0?p.want[1]-1:0))==6,"a write to the source is not seen"); } }
#ifndef NDEBUG
  if (c.chance(1,40)) { ekat::ViewBroadcast<To> b(v,p.req); int i=c.pick({-1,R,R+1,100}); c.label("extent of a dimension that does not exist"); VP_CHECK(rejected([&]{ volatile int x=b.extent(i); (void)x; }),"extent(" << i << ") of a rank " << R << " broadcast is accepted"); }
#endif
  c.nontrivial(S<R && v.size()>1); c.label("an added dimension in front",p.from[0]<0); c.label("an added dimension in between",[&]{ for (int k=1;k+1<R;++k) if (p.from[k]<0) { bool a=false,z=false; for (int q=0;q<k;++q) a|=p.from[q]>=0; for (int q=k+1;q<R;++q) z|=p.from[q]>=0; if (a&&z) return true; } return false; }()); }
template<typename T, typename L, int S> static void good_to (vp::Case& c) { switch (c.below(6)) { case 0: good<T,L,S,S>(c); break; case 1: good<T,L,S,S+1>(c); break; case 2: case 3: good<T,L,S,S+2>(c); break; case 4: good<T,L,S,6>(c); break; default: good<T,L,S,8>(c); } }
template<typename T, typename L> void good_from (vp::Case& c) { switch (c.below(4)) { case 0: good_to<T,L,1>(c); break; case 1: good_to<T,L,2>(c); break; case 2: good_to<T,L,3>(c); break; default: good_to<T,L,4>(c); } }
VP_INST(1,void good_from<double,LR>(vp::Case&)) VP_INST(2,void good_from<Pack<double,4>,LR>(vp::Case&)) VP_INST(3,void good_from<double,LL>(vp::Case&)) VP_INST(3,void good_from<short,LR>(vp::Case&))
#if VP_IN(0)
VP_PROP(broadcasts, 60000, 1000000, "sources of rank 1-4 broadcast to rank up to 8 with the added dimensions anywhere, of both memory layouts, of numbers, constants and packs; extents and addresses of elements, setting up again; non-trivial: dimensions are added to a source of several elements") { switch (c.below(4)) { case 0: good_from<double,LR>(c); break; case 1: good_from<Pack<double,4>,LR>(c); break; case 2: good_from<double,LL>(c); break; default: good_from<short,LR>(c); } }
// malformed requests
template<int S, int R> static void bad (vp::Case& c) {
  using From=Kokkos::View<DN<double,S>,LR,Dev>; using To=Kokkos::View<DN<double,R>,LR,Dev>; std::vector<long> e; for (int k=0;k<S;++k) e.push_back(c.irange(1,3)); From v=mk<From>(e);
  int n=c.chance(1,3)?c.irange(0,R+2):R, free=0; std::vector<int> q; for (int k=0;k<n;++k) { bool f=c.chance(S,R+1); free+=f; q.push_back(f?c.pick({0,-1,-3}):c.irange(1,4)); } bool ok=n==R && free==S && S>=1 && S<=R; c.d << "rank " << S << " to rank " << R << " request " << rtx(q); int how=(int)c.below(3);
  bool t=vp::throws([&]{ if (how==0) ekat::ViewBroadcast<To> b(v,q); else if (how==1) ekat::broadcast<To>(v,q); else { ekat::ViewBroadcast<To> b; b.setup(v,q); } }); VP_CHECK(t==!ok,"the request is " << (t?"rejected":"accepted")); c.nontrivial(!ok); c.label("wrong length",n!=R); c.label("too many free",n==R&&free>S); c.label("too few free",n==R&&free<S); }
VP_PROP(malformed_requests, 40000, 400000, "requests with other numbers of extents or of free dimensions, of all rank combinations; non-trivial: the request is malformed") { switch (c.below(8)) { case 0: bad<1,1>(c); break; case 1: bad<1,2>(c); break; case 2: bad<2,3>(c); break; case 3: bad<2,2>(c); break; case 4: bad<3,2>(c); break; case 5: bad<3,5>(c); break; case 6: bad<0,2>(c); break; default: bad<4,6>(c); } }
// sources whose strides may not fit: rejected, or the right elements
template<typename To, typename V> static void either (vp::Case& c, const V& v) {
  constexpr int R=(int)To::rank; constexpr int S=(int)V::rank; Ref src=ref_of(v); Plan p=plan(c,src.ext,R); c.d << "source " << src.text() << " request " << rtx(p.req); ekat::ViewBroadcast<To> b; bool t=vp::throws([&]{ b.setup(v,p.req); }); c.label("rejected",t);
  if (src.row_major(sizeof(double)) && std::is_same<typename To::array_layout,LR>::value && To::rank_dynamic==R) VP_CHECK(!t,"a contiguous source is rejected"); if (!t) { elements<R>(c,b,src,p.want,p.from,"odd source"); c.label("accepted"); } c.nontrivial(!src.row_major(sizeof(double))); (void)S; }
VP_PROP(odd_sources, 40000, 400000, "slices with gaps, explicit strides, the other memory layout, targets with fixed extents: rejected, or every element right; non-trivial: the source is not row-major contiguous") {
  int a=c.irange(1,4), b=c.irange(1,4), d=c.irange(1,4); Kokkos::View<double***,LR,Dev> g("g",a,b,d); Kokkos::View<double***,LL,Dev> l("l",a,b,d); using T1=Kokkos::View<double*,LR,Dev>; using T2=Kokkos::View<double**,LR,Dev>; using T3=Kokkos::View<double***,LR,Dev>; using T4=Kokkos::View<double****,LR,Dev>;
  int i=c.irange(0,a-1), j=c.irange(0,b-1), k=c.irange(0,d-1); int kind=(int)c.below(14); c.d << "kind " << kind << " " << a << "," << b << "," << d << ": "; auto all=Kokkos::ALL;
  switch (kind) { case 0: either<T3>(c,Kokkos::subview(g,all,j,all)); break; case 1: either<T2>(c,Kokkos::subview(g,all,j,k)); break; case 2: either<T3>(c,Kokkos::subview(g,i,all,k)); break; case 3: either<T4>(c,Kokkos::subview(g,all,all,k)); break; case 4: either<T3>(c,l); break; case 5: either<T4>(c,l); break;
    case 6: either<T2>(c,Kokkos::subview(l,all,j,k)); break; case 7: either<T3>(c,Kokkos::subview(l,i,all,all)); break; case 8: either<T4>(c,Kokkos::subview(g,all,Kokkos::pair<int,int>(0,j+1),Kokkos::pair<int,int>(k,d))); break; case 9: either<T1>(c,Kokkos::subview(g,all,j,k)); break;
    case 13: { auto v=mkpad<Kokkos::View<double**,LR,Dev>>({a,33+b}); c.label("padded"); either<T3>(c,v); break; }
    case 10: either<Kokkos::View<double**[3],LR,Dev>>(c,Kokkos::subview(g,i,all,all)); break; case 11: { Kokkos::View<double*,LR,Dev> v("v",a); either<Kokkos::View<double*[2],LR,Dev>>(c,v); break; } default: { Kokkos::View<double*[3],LR,Dev> v("v",a); if (c.b()) either<Kokkos::View<double**[3],LR,Dev>>(c,v); else either<Kokkos::View<double[2][2][3],LR,Dev>>(c,v); } } }
#endif
