// C23: subviews and reshapes
#if !defined(VP_PART) || VP_PART==0
#define VP_MAIN
#endif
#include "vp.hpp"
#include "kk.hpp"
#include "pack_gen.hpp"
#include <set>
#include "ekat_subview_utils.hpp"
#include "ekat_view_utils.hpp"
#if VP_IN(0)
void vp_init (int&, char**&) { kk_init(); }
void vp_fini () { Kokkos::finalize(); }
#endif
using ekat::Pack; using LR=Kokkos::LayoutRight; using Dev=ekat::DefaultDevice;
template<typename T, int R> using DN=typename ekat::DataND<T,R>::type;
template<typename T, int R> using View=Kokkos::View<DN<T,R>,LR,Dev>;
template<int R, typename V> static void matches (const V& v, const Ref& r, const std::string& w) {
  VP_CHECK((int)V::rank==R && r.ext.size()==R,w << ": rank is " << (int)V::rank); for (int k=0;k<R;++k) VP_CHECK((long)v.extent(k)==r.ext[k],w << ": extent " << k << " is " << v.extent(k) << ", expected " << r.ext[k]);
  each(r.ext,[&](const std::vector<long>& i){ auto* p=(char*)&el<R>(v,i); VP_CHECK(p==r.at(i),w << ": element " << itx(i) << " is " << (p-r.at(i)) << " bytes off its place"); }); }
template<int K, typename V, size_t... I> static auto lead (const V& v, const std::array<int,K>& i, std::index_sequence<I...>) { return ekat::subview(v,i[I]...); }
struct Stat { int steps=0; bool ranged=false, second=false; };
template<int R, typename V> static void walk (vp::Case& c, const V& v, const Ref& r, Stat& st, int depth);
template<int R, int K, typename V> static void take_lead (vp::Case& c, const V& v, const Ref& r, Stat& st, int depth) {
  std::array<int,K> i; Ref q; std::vector<long> at(R,0); for (int k=0;k<K;++k) { i[k]=c.irange(0,(int)r.ext[k]-1); at[k]=i[k]; } q.base=r.at(at); q.ext.assign(r.ext.begin()+K,r.ext.end()); q.str.assign(r.str.begin()+K,r.str.end());
  std::string w="subview("; for (int k=0;k<K;++k) w+=(k?",":"")+std::to_string(i[k]); w+=") of rank "+std::to_string(R); c.d << w << "; "; auto s=lead<K>(v,i,std::make_index_sequence<K>()); ++st.steps;
  if constexpr (R-K==0) { VP_CHECK((int)decltype(s)::rank==0 && (char*)&s()==q.base,w << " is not that element"); } else { matches<R-K>(s,q,w); walk<R-K>(c,s,q,st,depth+1); } }
template<int R, typename V> static void walk (vp::Case& c, const V& v, const Ref& r, Stat& st, int depth) {
  int op = depth==0 ? 1+(int)c.below(3) : (int)c.below(4); if (op==0) return;
  if (op==1) { int k=c.irange(1,R==1?1:R-1);
    if constexpr (R>=2) { if (k==1) take_lead<R,1>(c,v,r,st,depth); if constexpr (R>=3) { if (k==2) take_lead<R,2>(c,v,r,st,depth); } if constexpr (R>=4) { if (k==3) take_lead<R,3>(c,v,r,st,depth); } if constexpr (R>=5) { if (k==4) take_lead<R,4>(c,v,r,st,depth); } if constexpr (R>=6) { if (k==5) take_lead<R,5>(c,v,r,st,depth); } } else take_lead<1,1>(c,v,r,st,depth); return; }
  if (op==2) { if constexpr (R>=2) { int i=c.irange(0,(int)r.ext[1]-1); c.d << "subview_1(" << i << ") of rank " << R << "; "; Ref q=r; std::vector<long> at(R,0); at[1]=i; q.base=r.at(at); q.ext.erase(q.ext.begin()+1); q.str.erase(q.str.begin()+1); auto s=ekat::subview_1(v,i); ++st.steps; st.second=true; matches<R-1>(s,q,"subview_1("+std::to_string(i)+") of rank "+std::to_string(R)); if constexpr (R>=3) walk<R-1>(c,s,q,st,depth+1); } return; }
  int d=c.irange(0,R-1), a=c.irange(0,(int)r.ext[d]-1), b=c.irange(a+1,(int)r.ext[d]); Kokkos::pair<int,int> rg(a,b); c.d << "range [" << a << "," << b << ") of dimension " << d << " of rank " << R << "; "; Ref q=r; std::vector<long> at(R,0); at[d]=a; q.base=r.at(at); q.ext[d]=b-a; ++st.steps; st.ranged=true; std::string w="range of dimension "+std::to_string(d)+" of rank "+std::to_string(R);
  if constexpr (R==1) { matches<R>(ekat::subview(v,rg),q,w); } matches<R>(ekat::subview(v,rg,d),q,w); }
template<typename S, int R> static void chain (vp::Case& c) {
  std::vector<long> e; int cap=R<=2?12:R<=4?6:4; for (int k=0;k<R;++k) e.push_back(c.irange(1,cap)); using V=View<S,R>; bool pad=R>=2 && c.chance(1,4); if (pad && R==2) e[1]+=c.irange(20,40); V v=pad?mkpad<V>(e):mk<V>(e); c.label("padded",pad && !v.span_is_contiguous()); c.d << (pad?"padded ":"") << "rank " << R << " " << itx(e) << ": "; Stat st; bool cst=c.chance(1,4), um=c.chance(1,4); Ref r=ref_of(v);
  if (cst) walk<R>(c,typename V::const_type(v),r,st,0); else if (um) walk<R>(c,ekat::Unmanaged<V>(v),r,st,0); else walk<R>(c,v,r,st,0);
  c.nontrivial(v.size()>1); c.label("several steps",st.steps>1); c.label("range",st.ranged); c.label("second dimension",st.second); }
template<typename S> void chains (vp::Case& c) { switch (c.below(6)) { case 0: chain<S,1>(c); break; case 1: chain<S,2>(c); break; case 2: chain<S,3>(c); break; case 3: chain<S,4>(c); break; case 4: chain<S,5>(c); break; default: chain<S,6>(c); } }
VP_INST(1,void chains<double>(vp::Case&)) VP_INST(2,void chains<Pack<double,4>>(vp::Case&))
#if VP_IN(0)
VP_PROP(subview_chains, 120000, 2000000, "chains of subviews (leading indices, second dimension, ranges) of managed, constant and unmanaged views of rank 1-6 of double, int and packs: extents and the address of every element after every step; non-trivial: the parent has several elements") { switch (c.below(3)) { case 0: chains<double>(c); break; case 1: chains<Pack<double,4>>(c); break; default: chains<int>(c); } }
// writes on both sides
template<int R> static void writes (vp::Case& c) {
  std::vector<long> e; for (int k=0;k<R;++k) e.push_back(c.irange(1,5)); using V=View<int,R>; V v=mk<V>(e); long n=0; each(e,[&](const std::vector<long>& i){ el<R>(v,i)=(int)n++; }); c.d << "writes, rank " << R << " " << itx(e); std::vector<long> dir(e.size(),-1); int kind=(int)c.below(3), d=0, a=0, b=0;
  auto fill=[&](auto s, auto rank){ constexpr int Q=decltype(rank)::value; each(ref_of(s).ext,[&](const std::vector<long>& i){ el<Q>(s,i)+=1000000; }); };
  if (kind==0) { d=0; a=c.irange(0,(int)e[0]-1); b=a+1; fill(ekat::subview(v,a),std::integral_constant<int,R-1>()); } else if (kind==1) { d=1; a=c.irange(0,(int)e[1]-1); b=a+1; fill(ekat::subview_1(v,a),std::integral_constant<int,R-1>()); } else { d=c.irange(0,R-1); a=c.irange(0,(int)e[d]-1); b=c.irange(a+1,(int)e[d]); fill(ekat::subview(v,Kokkos::pair<int,int>(a,b),d),std::integral_constant<int,R>()); }
  c.d << " dimension " << d << " [" << a << "," << b << ")"; n=0; each(e,[&](const std::vector<long>& i){ bool in=i[d]>=a && i[d]<b; VP_CHECK(el<R>(v,i)==n+(in?1000000:0),"element " << itx(i) << " is " << el<R>(v,i) << (in?", it was to be changed":", it was not to be changed")); ++n; }); c.nontrivial(b-a<e[d]); }
VP_PROP(subview_writes, 20000, 300000, "writes through every element of a subview, then the whole parent compared; non-trivial: the selection is not everything") { switch (c.below(5)) { case 0: writes<2>(c); break; case 1: writes<3>(c); break; case 2: writes<4>(c); break; case 3: writes<5>(c); break; default: writes<6>(c); } }
// reshape
template<typename V> static void order (const V& v, const void* base, long n, const char* w) { constexpr int R=(int)V::rank; Ref r=ref_of(v); VP_CHECK(r.size()==n,w << ": " << r.size() << " elements, expected " << n); long q=0; each(r.ext,[&](const std::vector<long>& i){ VP_CHECK((const void*)&el<R>(v,i)==(const char*)base+q*(long)sizeof(typename V::value_type),w << ": element " << itx(i) << " is not number " << q); ++q; }); }
VP_PROP(reshapes, 40000, 400000, "views of rank 1-3 reshaped to dynamic, partly and wholly fixed extents, with chains and constant elements, slices with gaps rejected in debug builds; non-trivial: several elements") {
  int a=c.irange(1,6), b=c.irange(1,6), k=c.irange(1,4); long n=(long)a*b*6; View<double,1> v("v",n); View<double,3> w3("w",a,b,6); c.d << "reshape " << a << "," << b << ",6 kind ";
  int kind=(int)c.below(8); c.d << kind; using ekat::reshape;
  switch (kind) { case 0: { auto x=reshape<double**>(v,a*b,6); order(x,v.data(),n,"vector to matrix"); order(reshape<double*>(x,(int)n),v.data(),n,"and back"); VP_CHECK((int)x.extent(0)==a*b && x.extent(1)==6,"extents"); break; }
    case 1: { auto x=reshape<double*[6]>(v,a*b); order(x,v.data(),n,"to fixed rows"); auto y=reshape<double*[3][2]>(x,a*b); order(y,v.data(),n,"to fixed rows of two dimensions"); break; }
    case 2: { auto x=reshape<double*[2][3]>(w3,a*b); order(x,w3.data(),n,"rank 3 to fixed rows"); order(reshape<double**[6]>(x,b,a),w3.data(),n,"swapped extents"); break; }
    case 3: { View<double,1> u("u",24); order(reshape<double[4][6]>(u),u.data(),24,"to fixed extents"); order(reshape<double[2][3][4]>(reshape<double[24]>(u)),u.data(),24,"fixed to fixed"); order(reshape<double[24]>(reshape<double**>(u,k,24/k)),u.data(),24,"matrix to fixed"); break; }
    case 4: { View<const double,3> cw(w3); auto x=reshape<const double**>(cw,(int)(n/b),b); order(x,w3.data(),n,"constant"); break; }
    case 5: { auto s=ekat::subview(w3,c.irange(0,a-1)); order(reshape<double*>(s,b*6),s.data(),b*6,"a row"); break; }
    case 6: { View<Pack<double,4>,2> p("p",a,b); order(reshape<Pack<double,4>*>(p,a*b),p.data(),a*b,"packs"); order(reshape<Pack<double,4>**>(p,b,a),p.data(),a*b,"packs"); break; }
    default: { View<double,3> g("g",a,b,k); auto s=ekat::subview_1(g,c.irange(0,b-1)); bool gap=a>1 && b>1;
#ifdef NDEBUG
      if (gap) { c.nontrivial(false); return; }
#else
      VP_CHECK(rejected([&]{ auto x=reshape<double*>(v,(int)n+1); (void)x; }),"another number of elements is accepted"); if (!s.span_is_contiguous()) { c.label("slice with gaps",gap); if (rejected([&]{ auto x=reshape<double*>(s,a*k); (void)x; })) { c.nontrivial(); return; } }
#endif
      auto x=reshape<double*>(s,a*k); long q=0; each({a,k},[&](const std::vector<long>& i){ VP_CHECK(&x(q)==&s((int)i[0],(int)i[1]),"reshape of a slice: element " << q); ++q; }); } }
  c.nontrivial(n>6);
}
// random fill and host copies
template<int R, typename V> static void filled (vp::Case& c, const View<double,6>& v, const V& s, const Ref& q, vp::u64 seed) {
  std::mt19937_64 g(seed), h(seed); std::uniform_real_distribution<double> d(1,2), d2(1,2); ekat::genRandArray(s,g,d);
  std::vector<double> got, want; each(q.ext,[&](const std::vector<long>& i){ got.push_back(el<R>(s,i)); want.push_back(d2(h)); }); bool left=false; VP_CHECK(g()==h(),"the generator is in another state"); auto a=got, b=want; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); VP_CHECK(a==b,"the elements do not hold the generated numbers"); (void)left; if (std::is_same<typename V::array_layout,LR>::value) VP_CHECK(got==want,"the numbers are not in order");
  auto hc=ekat::create_host_mirror_and_copy(s); size_t k=0; for (int r=0;r<R;++r) VP_CHECK((long)hc.extent(r)==q.ext[r],"host copy: extent " << r); each(q.ext,[&](const std::vector<long>& i){ VP_CHECK(el<R>(hc,i)==got[k],"host copy: element " << itx(i)); ++k; });
  std::set<char*> in; each(q.ext,[&](const std::vector<long>& i){ in.insert(q.at(i)); }); for (size_t n=0;n<v.span();++n) { double* x=v.data()+n; VP_CHECK(in.count((char*)x) || *x==-7,"an element outside the array is changed"); } c.nontrivial(q.size()>1 && q.size()<(long)v.size()); c.label("gaps",!s.span_is_contiguous()); }
VP_PROP(random_fills, 12000, 200000, "genRandArray and host copies of views of rank 1-6 and of their subviews (leading indices, second dimension, ranges), all elements of the parent compared; non-trivial: a part of the parent of several elements") {
  std::vector<long> e; for (int k=0;k<6;++k) e.push_back(c.irange(1,4)); using V=View<double,6>; V v=mk<V>(e); for (size_t n=0;n<v.span();++n) v.data()[n]=-7; Ref r=ref_of(v); vp::u64 seed=c.draw(1000000); c.d << "fill " << itx(e); int kind=(int)c.below(6), i=c.irange(0,(int)e[0]-1), j=c.irange(0,(int)e[1]-1);
  auto at=[&](std::vector<long> x) { x.resize(6,0); return r.at(x); }; auto cut=[&](Ref q, int k){ q.ext.erase(q.ext.begin()+k); q.str.erase(q.str.begin()+k); return q; }; c.d << " kind " << kind << " " << i << "," << j;
  if (kind==0) filled<6>(c,v,v,r,seed);
  else if (kind==1) { Ref q=cut(r,1); q.base=at({0,j}); filled<5>(c,v,ekat::subview_1(v,j),q,seed); }
  else if (kind==2) { Ref q=cut(cut(r,0),0); q.base=at({i,j}); filled<4>(c,v,ekat::subview(v,i,j),q,seed); }
  else if (kind==3) { int m=c.irange(0,(int)e[2]-1); Ref q=cut(cut(r,0),1); q.base=at({i,0,m}); filled<4>(c,v,ekat::subview_1(ekat::subview(v,i),m),q,seed); }
  else if (kind==4) { int m=c.irange(0,(int)e[4]-1); Ref q=r; for (int k=0;k<3;++k) q=cut(q,0); int n=c.irange(0,(int)e[2]-1); q=cut(q,1); q.base=at({i,j,n,0,m}); filled<2>(c,v,ekat::subview_1(ekat::subview(v,i,j,n),m),q,seed); }
  else { int dim=c.irange(0,3), a=c.irange(0,(int)e[2+dim]-1), b=c.irange(a+1,(int)e[2+dim]); c.d << " dimension " << dim << " [" << a << "," << b << ")"; Ref q=cut(cut(r,0),0); q.ext[dim]=b-a; std::vector<long> x{i,j,0,0,0,0}; x[2+dim]=a; q.base=r.at(x); filled<4>(c,v,ekat::subview(ekat::subview(v,i,j),Kokkos::pair<int,int>(a,b),dim),q,seed); } }
#endif
