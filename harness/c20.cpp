// C20: pack reductions, shifts, ranges and index arithmetic
#define VP_MAIN
#include "vp.hpp"
#include "pack_gen.hpp"
#include "ekat_pack_utils.hpp"
#include <random>
void vp_init (int&, char**&) {}
void vp_fini () {}
using ekat::Pack; using ekat::Mask;
template<typename T, int N> static void reduce (vp::Case& c) {
  constexpr bool FL=std::is_floating_point<T>::value; using P=Pack<T,N>; auto p=pack<T,N>(c,1000000,false); if (FL && c.chance(1,4)) p[c.irange(0,N-1)]=(T)(c.b()?1e30:-1e30); const auto p0=p; T s=lane<T>(c,1000000,false); auto m=mask<N>(c); c.d << "Pack<" << (FL?(sizeof(T)==4?"float":"double"):(sizeof(T)==4?"int":"long")) << "," << N << "> " << tx(p) << " init " << tx(s) << " mask " << tx(m);
  T mn=p0[0],mx=p0[0]; for (int i=0;i<N;++i) { mn=std::min(mn,(T)p0[i]); mx=std::max(mx,(T)p0[i]); } VP_CHECK(ekat::min(p)==mn,"min is " << tx(ekat::min(p)) << ", expected " << tx(mn)); VP_CHECK(ekat::max(p)==mx,"max is " << tx(ekat::max(p)) << ", expected " << tx(mx));
  T a=s,b=s; for (int i=0;i<N;++i) if (m[i]) { a=std::min(a,(T)p0[i]); b=std::max(b,(T)p0[i]); } VP_CHECK(ekat::min(m,s,p)==a && ekat::max(m,s,p)==b,"masked min/max are " << tx(ekat::min(m,s,p)) << "," << tx(ekat::max(m,s,p)) << ", expected " << tx(a) << "," << tx(b));
  T sum=0, sums=s; double sc=std::abs((double)s); for (int i=0;i<N;++i) { sum+=p0[i]; sums+=p0[i]; sc+=std::abs((double)p0[i]); }
  auto near=[&](T x, T y){ if constexpr (FL) return std::abs((double)x-(double)y)<=2*N*std::numeric_limits<T>::epsilon()*sc; else return x==y; };
  VP_CHECK(same_lane((T)ekat::reduce_sum<true>(p),sum),"serial sum is " << tx(ekat::reduce_sum<true>(p)) << ", left to right it is " << tx(sum)); VP_CHECK(near(ekat::reduce_sum<false>(p),sum),"sum is " << tx(ekat::reduce_sum<false>(p)) << ", expected " << tx(sum));
  { T x=s; ekat::reduce_sum<true>(p,x); VP_CHECK(same_lane(x,sums),"serial seeded sum is " << tx(x) << ", left to right it is " << tx(sums)); } { T x=s; ekat::reduce_sum<false>(p,x); VP_CHECK(near(x,sums),"seeded sum is " << tx(x) << ", expected " << tx(sums)); }
  { T x=s; ekat::reduce_sum<P,true>(p,x); VP_CHECK(same_lane(x,sums),"serial seeded sum is " << tx(x)); T y=ekat::reduce_sum<P,true>(p); VP_CHECK(same_lane(y,sum),"serial sum is " << tx(y)); VP_CHECK(near(ekat::reduce_sum<P,false>(p),sum) && near(ekat::reduce_sum(p),sum),"default sum"); if (ekat::ekatBFB) { VP_CHECK(same_lane((T)ekat::reduce_sum(p),sum),"the sum in bit-for-bit mode is not the serial one"); } }
  VP_CHECK(same_pack(p,p0),"the pack changed"); bool in=N<=2; for (int i=1;i<N-1;++i) in|=p0[i]==mn||p0[i]==mx; c.nontrivial(in);
}
#define TYPES(f) switch (c.below(4)) { case 0: SZ(f,int) break; case 1: SZ(f,long) break; case 2: SZ(f,float) break; default: SZ(f,double) }
#define SZ(f,T) switch (c.below(6)) { case 0: f<T,1>(c); break; case 1: f<T,2>(c); break; case 2: f<T,4>(c); break; case 3: f<T,8>(c); break; case 4: f<T,16>(c); break; default: f<T,32>(c); }
VP_PROP(reductions, 150000, 3000000, "min, max, masked min and max, serial and free-order sums, with and without a seed, of packs of 1-32 int, long, float and double lanes with cancelling magnitudes; non-trivial: an extreme is at an inner lane") { TYPES(reduce) }
template<typename T, int N> static void shifts (vp::Case& c) {
  constexpr bool FL=std::is_floating_point<T>::value; using P=Pack<T,N>; auto p=pack<T,N>(c,1000000,FL), q=pack<T,N>(c,1000000,FL); T s=lane<T>(c,1000000,FL); const auto p0=p,q0=q; c.d << "Pack<T," << N << "> " << tx(p) << " neighbour " << tx(q) << " fill " << tx(s);
  lanes("shift_right(pack,pack)",ekat::shift_right(q,p),[&](int i){ return i==0?q0[N-1]:p0[i-1]; }); lanes("shift_right(scalar,pack)",ekat::shift_right(s,p),[&](int i){ return i==0?s:p0[i-1]; }); lanes("shift_left(pack,pack)",ekat::shift_left(q,p),[&](int i){ return i==N-1?q0[0]:p0[i+1]; }); lanes("shift_left(scalar,pack)",ekat::shift_left(s,p),[&](int i){ return i==N-1?s:p0[i+1]; });
  { P x(p); x=ekat::shift_left(x,x); lanes("rotation to the left",x,[&](int i){ return p0[(i+1)%N]; }); x=ekat::shift_right(x,x); lanes("rotation back",x,[&](int i){ return p0[i]; }); x=ekat::shift_right(x[0],x); lanes("shift_right(x[0],x)",x,[&](int i){ return i==0?p0[0]:p0[i-1]; }); }
  { int k=c.irange(-5,5); lanes("shift_right(int,pack)",ekat::shift_right(k,p),[&](int i){ return i==0?(T)k:p0[i-1]; }); lanes("shift_left(int,pack)",ekat::shift_left(k,p),[&](int i){ return i==N-1?(T)k:p0[i+1]; }); }
  VP_CHECK(same_pack(p,p0) && same_pack(q,q0),"an operand changed"); T st=(T)c.range(-1000000,1000000); if (FL) switch (c.below(4)) { case 0: st/=(T)8; break; case 1: st/=(T)7; break; case 2: st*=(T)(sizeof(T)==4?1000:1e12); break; default: ; } c.d << " range " << st; lanes("range",ekat::range<P>(st),[&](int i){ return st+i; });
  std::ostringstream o,e; o << p; for (int i=0;i<N;++i) e << p0[i] << ' '; VP_CHECK(o.str()==e.str(),"printed as " << o.str()); c.nontrivial(N==1 || !same_pack(p,q));
}
VP_PROP(shifts_and_ranges, 150000, 3000000, "shifts in both directions with pack, scalar and own fill values, rotations, ranges from random starts, printing; non-trivial: the two packs differ") { TYPES(shifts) }
template<int N> static void info (vp::Case& c) {
  using I=ekat::PackInfo<N>; constexpr int top=INT_MAX-2*N; int n = c.chance(1,3) ? c.irange(0,3*N+3) : c.chance(1,2) ? top-c.irange(0,2*N) : c.irange(0,top); long L=n; long np=(L+N-1)/N; c.d << "PackInfo<" << N << "> extent " << n;
  VP_CHECK(I::num_packs(n)==np,"num_packs is " << I::num_packs(n)); VP_CHECK(I::has_padding(n)==(L%N!=0),"has_padding is " << I::has_padding(n)); VP_CHECK(I::padding(n)==np*N-L,"padding is " << I::padding(n)); { long q=ekat::npack<Pack<double,N>>(n); VP_CHECK(q==np,"npack is " << q); }
  VP_CHECK((ekat::npack<Pack<int,N>>(n)==np),"npack for int"); VP_CHECK(I::last_pack_idx(n)==np-1,"last_pack_idx is " << I::last_pack_idx(n));
  if (n>0) { int le=(int)(L-(np-1)*N); VP_CHECK(I::last_vec_end(n)==le,"last_vec_end is " << I::last_vec_end(n) << ", expected " << le); std::set<long> ps{0,np-1,np/2,std::max(0L,np-2)}; for (long p:ps) VP_CHECK(I::vec_end(n,(int)p)==(p<np-1?N:le),"vec_end of pack " << p << " is " << I::vec_end(n,(int)p)); }
  int k = n>0 ? c.irange(0,n-1) : 0; VP_CHECK(I::pack_idx(k)==k/N && I::vec_idx(k)==k%N,"index " << k << " is lane " << I::vec_idx(k) << " of pack " << I::pack_idx(k)); auto pv=I::pack_vec_idx(k); VP_CHECK(pv.first==k/N && pv.second==k%N,"pack_vec_idx of " << k << " is " << pv.first << "," << pv.second);
  VP_CHECK(I::array_idx(pv.first,pv.second)==k && I::array_idx(pv)==k && I::array_idx(std::make_pair(k/N,k%N))==k,"array_idx does not lead back to " << k);
  if (n>0) { VP_CHECK(I::pack_idx(n-1)==I::last_pack_idx(n) && I::vec_idx(n-1)==I::last_vec_end(n)-1,"the last entry is not the last lane of the last pack"); VP_CHECK(I::vec_idx(k)<I::vec_end(n,I::pack_idx(k)),"entry " << k << " lies beyond the end of its pack"); }
  if (n>0 && n<=4*N) { long cnt=0; for (int p=0;p<I::num_packs(n);++p) for (int v=0;v<I::vec_end(n,p);++v) { VP_CHECK(I::array_idx(p,v)==cnt,"packs walked in order give index " << I::array_idx(p,v) << " at position " << cnt); ++cnt; } VP_CHECK(cnt==n,"packs hold " << cnt << " entries"); }
  c.nontrivial(n>0); c.label("padding",L%N!=0); c.label("small",n<=3*N);
}
VP_PROP(pack_index_arithmetic, 200000, 4000000, "extents from 0 to the largest whose padded extent is an int, for pack sizes 1-64, every function of PackInfo and npack against 64-bit arithmetic, full walks for small extents; non-trivial: the extent is positive") { switch (c.below(7)) { case 0: info<1>(c); break; case 1: info<2>(c); break; case 2: info<4>(c); break; case 3: info<8>(c); break; case 4: info<16>(c); break; case 5: info<32>(c); break; default: info<64>(c); } }
template<typename T, int N> static void gen (vp::Case& c) {
  int n=c.size(0,6); vp::u64 seed=c.below(1000); std::vector<Pack<T,N>> x(n+2,Pack<T,N>(T(-7))); std::mt19937 e1(seed), e2(seed); std::uniform_int_distribution<int> pdf(0,1000); ekat::genRandArray(x.data()+1,n,e1,pdf); c.d << "genRandArray of " << n << " packs of " << N;
  std::uniform_int_distribution<int> pdf2(0,1000); for (int i=0;i<n;++i) for (int j=0;j<N;++j) VP_CHECK(x[i+1][j]==(T)pdf2(e2),"lane " << j << " of pack " << i << " is not the next random value"); lanes("pack before the array",x[0],[&](int){ return T(-7); }); lanes("pack behind the array",x[n+1],[&](int){ return T(-7); }); c.nontrivial(n>0); }
VP_PROP(random_packs, 20000, 200000, "random filling of arrays of packs with guard packs; non-trivial: not empty") { TYPES(gen) }
