// C29, the classes for GPUs: compiled for this host with its threads as the "GPU"
#define VP_MAIN
#include "vp.hpp"
#include "kk.hpp"
#include <chrono>
#include <algorithm>
#undef KOKKOS_ENABLE_OPENMP
namespace Kokkos { using Serial=OpenMP; }
#ifdef VP_POLICIES   // a space of its own: the teams of this host are limited to 64 threads
struct Gpu : Kokkos::OpenMP {};
template<> class Kokkos::TeamPolicy<Gpu> { int l, t; public: using member_type=int; TeamPolicy (int a, int b) : l(a), t(b) {} int league_size () const { return l; } int team_size () const { return t; } };
namespace ekat { using EkatGpuSpace=Gpu; }
#else
namespace ekat { using EkatGpuSpace=Kokkos::OpenMP; }
#endif
#define EKAT_ENABLE_GPU
#include "ekat_team_policy_utils.hpp"
#include <atomic>
#include <thread>
void vp_init (int&, char**&) { kk_init(); }
void vp_fini () { Kokkos::finalize(); }
using Exe=ekat::EkatGpuSpace; using Policy=Kokkos::TeamPolicy<Exe>; using PF=ekat::TeamPolicyFactory<Exe>;
#ifdef VP_POLICIES
VP_PROP(gpu_policies, 4000, 60000, "the policies of the factory for GPUs: leagues, team sizes in whole warps up to 128, powers of two for scans; non-trivial: more than one warp") {
  int league=c.irange(1,500), nk=c.chance(1,3)?c.pick({1,31,32,33,63,64,65,96,97,127,128,129,160}):c.irange(1,300), k=(int)c.below(3); if (k==2) nk=std::min(nk,128); c.d << "kind " << k << ", " << league << ", " << nk; Policy p=k==0?PF::get_default_team_policy(league,nk):k==1?PF::get_thread_range_parallel_scan_team_policy(league,nk):PF::get_team_policy_force_team_size(league,nk);
  int want=nk; if (k==0) { want=0; while (want<nk) want+=32; want=std::min(want,128); } if (k==1) { int p2=1; while (2*p2<=nk) p2*=2; want=std::min(128,std::max(32,p2)); } VP_CHECK(p.league_size()==league && p.team_size()==want,"the policy has " << p.league_size() << " teams of " << p.team_size() << ", expected " << league << " of " << want); c.nontrivial(want>32); c.label("not a whole number of warps",nk%32!=0); }
#else
using Member=Policy::member_type;
static void dally (int n) { for (int i=0;i<n;++i) std::this_thread::yield(); if (n>6) std::this_thread::sleep_for(std::chrono::microseconds(5*n)); }
template<typename T> static void run (vp::Case& c) {
  const int conc=Exe().concurrency(), most=std::is_same<T,float>::value?conc:conc/2; int ts=c.b()?1:c.irange(1,most), can=most/ts, league=c.chance(1,3)?c.irange(1,can):c.chance(1,2)?c.irange(1,3*can+1):c.irange(1,12*can); if (c.chance(1,20)) league=c.irange(50,400); double over=c.pick({1.0,1.0,1.25,1.5,2.0,3.7,100.0}); bool few=c.chance(1,12); if (few) over=c.pick({0.99,0.5,0.0});
  c.d << conc << " threads, " << league << " teams of " << ts << ", factor " << over << (most==conc?"":", double"); using TU=ekat::TeamUtils<T,Exe>; Policy pol(league,ts); if (few) { VP_CHECK(vp::throws([&]{ TU t(pol,over); }),"a factor of " << over << " is accepted"); c.label("refused"); return; }
  TU a(pol,over), tu; if (c.b()) tu=a; else { TU o(Policy(c.irange(1,3),1)); tu=o; tu=a; } const int nc=tu.get_num_concurrent_teams(), ns=tu.get_num_ws_slots(), w=std::min(can,league), s=league>w?(int)std::min((double)league,over*w):w; VP_CHECK(nc==w && tu.get_max_concurrent_threads()==most && ns==s,"concurrent teams " << nc << ", threads " << tu.get_max_concurrent_threads() << ", slots " << ns << "; expected " << w << ", " << most << ", " << s);
  const bool share=league>ns; int delay=c.below(3)?0:(int)c.below(30), rounds=c.irange(1,3); std::vector<int> idx((size_t)league*ts); std::vector<std::atomic<int>> owner(ns), count(league); std::vector<std::atomic<long>> data(ns); std::atomic<int> clash{0}, ca{-1}, cs{-1}, stale{0};
  for (int q=0;q<rounds;++q) { for (auto& o:owner) o=-1; for (auto& x:count) x=0; std::fill(idx.begin(),idx.end(),-1); int* pi=idx.data(); auto *po=owner.data(), *pc=count.data(); auto *pcl=&clash, *pa=&ca, *ps=&cs, *pst=&stale; auto* pd=data.data();
    Kokkos::parallel_for(pol,[=] (const Member& t) { const int l=t.league_rank(); const int ws=tu.get_workspace_idx(t); pi[l*ts+t.team_rank()]=ws; bool ok=ws>=0 && ws<ns; ++pc[l];
      if (t.team_rank()==0 && ok) { int o=po[ws].exchange(l); if (o!=-1 && !(*pcl)++) { *pa=o; *ps=ws; } pd[ws]=l; } t.team_barrier();
      // the threads come to the release one by one; the last one still uses the slot
      if (delay) dally((l*7+t.team_rank()*3)%(delay+1)); if (ok && pd[ws]!=l) ++*pst; if (t.team_rank()==ts-1 && ok) { int o=po[ws].exchange(-1); if (o!=l && !(*pcl)++) { *pa=o; *ps=ws; } } tu.release_workspace_idx(t,ws); });
    for (int l=0;l<league;++l) { VP_CHECK(count[l]==ts,"team " << l << " ran on " << count[l] << " threads"); for (int r=0;r<ts;++r) { int k=idx[l*ts+r]; VP_CHECK(k>=0 && k<ns,"team " << l << " thread " << r << " got index " << k << " of " << ns); VP_CHECK(k==idx[l*ts],"team " << l << ": thread " << r << " got index " << k << ", thread 0 got " << idx[l*ts]); } if (!share) for (int m=0;m<l;++m) VP_CHECK(idx[l*ts]!=idx[m*ts],"teams " << m << " and " << l << " share an index though there is one for each"); }
    VP_CHECK(clash==0,"team " << ca << " and another hold index " << cs << " at the same time"); VP_CHECK(stale==0,"what a team wrote to its slot was changed while it held the slot"); }
  c.nontrivial(share && conc>1); c.label("sharing",share); c.label("teams of several",ts>1); c.label("more teams than threads",league>conc); c.label("factor above one",over>1 && share); }
VP_PROP_ND(gpu_indices, 4000, 80000, "team policies and overprovision factors for the classes for GPUs run on this host's threads: reported numbers, indices while teams hold them, more teams than slots; non-trivial: slots are shared") { if (c.b()) run<double>(c); else run<float>(c); }
#endif
