// C25: reductions inside a team
#define VP_MAIN
#include "vp.hpp"
#include "kk.hpp"
#include "pack_gen.hpp"
#include "ekat_reduction_utils.hpp"
#include "ekat_team_policy_utils.hpp"
void vp_init (int&, char**&) { kk_init(); }
void vp_fini () { Kokkos::finalize(); }
using ekat::Pack; using Dev=ekat::DefaultDevice; using Exe=typename ekat::KokkosTypes<Dev>::ExeSpace; using Member=typename ekat::KokkosTypes<Dev>::MemberType; using PF=ekat::TeamPolicyFactory<Exe>;
template<typename T> static T poison () { if constexpr (std::is_floating_point<T>::value) return std::numeric_limits<T>::quiet_NaN(); else return (T)1000000007; }
template<typename T, bool Ser, typename In> static T vred (int way, const Member& team, int b, int e, const In& in) {
  using RU=ekat::ReductionUtils<Exe,Ser>; using RD=ekat::ReductionUtils<Exe>; if (way==1 && Ser==ekat::ekatBFB) return RD::view_reduction(team,b,e,in); return RU::view_reduction(team,b,e,in); }
// one league of teams, every team with its own range over the same values; N==0: plain numbers
template<typename T, int N, bool Ser> static void reduce (vp::Case& c) {
  const int conc=Exe().concurrency(); int ts=c.b()?conc:c.irange(1,conc), league=c.b()?1:c.irange(1,6); constexpr int B=N?N:1; int len=c.chance(1,12)?c.size(0,3):c.irange(B,c.chance(1,4)?200:5*B+8); bool exact=!std::is_floating_point<T>::value || c.b(); int way=(int)c.below(4);
  std::vector<T> x(((len+B-1)/B)*B,poison<T>()); for (int i=0;i<len;++i) x[i]=exact?(T)c.range(-50,50):(T)c.uniform<double>(-1,1)*(T)(c.chance(1,8)?1e6:1);
  std::vector<int> rb(league), re(league); std::vector<bool> used(len,false); for (int l=0;l<league;++l) { int a=c.irange(0,len), b=c.irange(0,len); if (c.chance(1,4)) { a=std::min(len,B*c.size(0,len/B)); } if (c.chance(1,4)) b=std::min(len,a+c.irange(0,B)); rb[l]=std::min(a,b); re[l]=std::max(a,b); for (int i=rb[l];i<re[l];++i) used[i]=true; }
  for (int i=0;i<len;++i) if (!used[i] && c.chance(3,4)) x[i]=poison<T>(); // what is not asked for must not matter
  c.d << (Ser?"serial":"parallel") << " packs of " << N << " " << len << " values, team size " << ts << " of " << conc << ", way " << way << ":"; for (int l=0;l<league;++l) c.d << " [" << rb[l] << "," << re[l] << ")";
  std::vector<T> got(league*ts,(T)-1234); T* g=got.data(); const int *pb=rb.data(), *pe=re.data(); Kokkos::TeamPolicy<Exe> pol=ts==1 && c.b() ? PF::get_default_team_policy(league,1) : PF::get_team_policy_force_team_size(league,ts); const int pts=pol.team_size(); VP_CHECK(pts==ts && pol.league_size()==league,"the policy has " << pol.league_size() << " teams of " << pts << ", asked for " << league << " of " << ts);
  const bool again=c.b();
  if constexpr (N>0) { using P=Pack<T,N>; Kokkos::View<P*,Dev> v("v",x.size()/N); for (size_t i=0;i<x.size();++i) v(i/N)[i%N]=x[i]; Kokkos::View<const P*,Dev> cv(v);
    if (way==0) Kokkos::parallel_for(pol,KOKKOS_LAMBDA(const Member& t){ const int l=t.league_rank(); if (again) (void)vred<T,Ser>(0,t,pb[l],pe[l],v); g[l*ts+t.team_rank()]=vred<T,Ser>(0,t,pb[l],pe[l],[&](const int k)->P { return v(k); }); });
    else Kokkos::parallel_for(pol,KOKKOS_LAMBDA(const Member& t){ const int l=t.league_rank(); T r=way==1?vred<T,Ser>(1,t,pb[l],pe[l],v):vred<T,Ser>(0,t,pb[l],pe[l],cv); if (again) r=vred<T,Ser>(0,t,pb[l],pe[l],v); g[l*ts+t.team_rank()]=r; }); }
  else { Kokkos::View<T*,Dev> v("v",x.size()); for (size_t i=0;i<x.size();++i) v(i)=x[i]; Kokkos::View<const T*,Dev> cv(v);
    if (way==0) Kokkos::parallel_for(pol,KOKKOS_LAMBDA(const Member& t){ const int l=t.league_rank(); g[l*ts+t.team_rank()]=vred<T,Ser>(0,t,pb[l],pe[l],[&](const int k){ return v(k); }); });
    else if (way==2) Kokkos::parallel_for(pol,KOKKOS_LAMBDA(const Member& t){ const int l=t.league_rank(); g[l*ts+t.team_rank()]=ekat::ReductionUtils<Exe,Ser>::template parallel_reduce<T>(t,pb[l],pe[l],[&](const int k, T& s){ s+=v(k); }); });
    else Kokkos::parallel_for(pol,KOKKOS_LAMBDA(const Member& t){ const int l=t.league_rank(); T r=vred<T,Ser>(way,t,pb[l],pe[l],cv); if (again) r=vred<T,Ser>(0,t,pb[l],pe[l],v); g[l*ts+t.team_rank()]=r; }); }
  bool inside=false; long most=0;
  for (int l=0;l<league;++l) { T want=0; long double mag=0; for (int i=rb[l];i<re[l];++i) { want+=x[i]; mag+=std::abs((long double)x[i]); } long n=re[l]-rb[l]; most=std::max(most,n); inside=inside||(n<B && rb[l]%B && re[l]%B && rb[l]/B==re[l]/B);
    for (int r=0;r<ts;++r) { T q=got[l*ts+r]; if (Ser || exact) VP_CHECK(vp::same_val(q,want,Ser),"team " << l << " thread " << r << ": the sum of [" << rb[l] << "," << re[l] << ") is " << tx(q) << ", expected " << tx(want)); else { long double tol=(n+8)*mag*std::numeric_limits<T>::epsilon(); long double ex=0; for (int i=rb[l];i<re[l];++i) ex+=x[i]; VP_CHECK(std::abs((long double)q-ex)<=tol,"team " << l << " thread " << r << ": the sum of [" << rb[l] << "," << re[l] << ") is " << tx(q) << ", expected " << (double)ex); }
      VP_CHECK(vp::same_val(q,got[l*ts],true),"team " << l << ": thread " << r << " has " << tx(q) << ", thread 0 has " << tx(got[l*ts])); } }
  c.nontrivial(most>1); c.label("inside one pack",inside); c.label("several threads",ts>1); c.label("empty range",[&]{ for (int l=0;l<league;++l) if (rb[l]==re[l]) return true; return false; }());
}
template<typename T, bool Ser> static void sizes (vp::Case& c) { switch (c.below(6)) { case 0: reduce<T,0,Ser>(c); break; case 1: reduce<T,1,Ser>(c); break; case 2: reduce<T,2,Ser>(c); break; case 3: reduce<T,4,Ser>(c); break; case 4: reduce<T,8,Ser>(c); break; default: reduce<T,16,Ser>(c); } }
VP_PROP_ND(sums_in_order, 50000, 1000000, "serialized reductions: leagues of teams, each team with its own range over plain numbers and packs of 1-16 in views, constant views and functions; the result on every thread against the left-to-right sum, bit for bit, with poison at what is not asked for; non-trivial: a range of several entries") { switch (c.below(3)) { case 0: sizes<double,true>(c); break; case 1: sizes<float,true>(c); break; default: sizes<int,true>(c); } }
VP_PROP_ND(sums, 50000, 1000000, "team-parallel reductions over the same inputs; exact on whole numbers, otherwise within rounding, identical on all threads; non-trivial: a range of several entries") { switch (c.below(3)) { case 0: sizes<double,false>(c); break; case 1: sizes<float,false>(c); break; default: sizes<int,false>(c); } }
// results of other kinds: products of pairs accumulated, counts, packs as values
VP_PROP_ND(general_reductions, 20000, 200000, "parallel_reduce with functions that add products, count or add packs, both modes; non-trivial: several entries") {
  const int conc=Exe().concurrency(); int ts=c.irange(1,conc); int b=c.irange(-5,20), e=b+c.size(0,40); int kind=(int)c.below(3); bool ser=c.b(); c.d << "kind " << kind << " [" << b << "," << e << ") team size " << ts << (ser?" serial":""); auto pol=PF::get_team_policy_force_team_size(1,ts);
  auto val=[](int k){ return (k*37%19)-9; };
  if (kind==0) { std::vector<long> r(ts,-1); long* g=r.data(); Kokkos::parallel_for(pol,KOKKOS_LAMBDA(const Member& t){ auto f=[&](const int k, long& s){ s+=(long)val(k)*val(k+3); }; g[t.team_rank()]=ser?ekat::ReductionUtils<Exe,true>::parallel_reduce<long>(t,b,e,f):ekat::ReductionUtils<Exe,false>::parallel_reduce<long>(t,b,e,f); }); long w=0; for (int k=b;k<e;++k) w+=(long)val(k)*val(k+3); for (long q:r) VP_CHECK(q==w,"the sum of products is " << q << ", expected " << w); }
  else if (kind==1) { std::vector<int> r(ts,-1); int* g=r.data(); Kokkos::parallel_for(pol,KOKKOS_LAMBDA(const Member& t){ auto f=[&](const int k, int& s){ if (val(k)>0) ++s; }; g[t.team_rank()]=ser?ekat::ReductionUtils<Exe,true>::parallel_reduce<int>(t,b,e,f):ekat::ReductionUtils<Exe,false>::parallel_reduce<int>(t,b,e,f); }); int w=0; for (int k=b;k<e;++k) w+=val(k)>0; for (int q:r) VP_CHECK(q==w,"the count is " << q << ", expected " << w); }
  else { using P=Pack<double,4>; std::vector<P> r(ts,P(-1)); P* g=r.data(); Kokkos::parallel_for(pol,KOKKOS_LAMBDA(const Member& t){ auto f=[&](const int k, P& s){ P x; for (int i=0;i<4;++i) x[i]=val(k+i); s+=x; }; g[t.team_rank()]=ser?ekat::ReductionUtils<Exe,true>::parallel_reduce<P>(t,b,e,f):ekat::ReductionUtils<Exe,false>::parallel_reduce<P>(t,b,e,f); }); P w(0); for (int k=b;k<e;++k) for (int i=0;i<4;++i) w[i]+=val(k+i); for (auto& q:r) VP_CHECK(same_pack(q,w),"the sum of packs is " << tx(q) << ", expected " << tx(w)); }
  c.nontrivial(e-b>1); }
