// C29: concurrent teams and their workspace indices
#define VP_MAIN
#include "vp.hpp"
#include "kk.hpp"
#include "ekat_team_policy_utils.hpp"
#include <atomic>
#include <thread>
void vp_init (int&, char**&) { kk_init(); }
void vp_fini () { Kokkos::finalize(); }
using Dev=ekat::DefaultDevice; using Exe=typename ekat::KokkosTypes<Dev>::ExeSpace; using Policy=typename ekat::KokkosTypes<Dev>::TeamPolicy; using Member=typename ekat::KokkosTypes<Dev>::MemberType; using PF=ekat::TeamPolicyFactory<Exe>;
// a bounded wait that lets the other threads get ahead
static void dally (int n) { for (int i=0;i<n;++i) std::this_thread::yield(); if (n>6) std::this_thread::sleep_for(std::chrono::microseconds(5*n)); }
static Policy policy_of (vp::Case& c, int& ts, int& league, std::string& how) {
  const int conc=Exe().concurrency(); ts=c.b()?c.irange(1,conc):c.irange(1,std::min(conc,3)); int tm=std::max(1,conc/ts); league=c.chance(1,3)?c.irange(1,tm):c.chance(1,2)?c.irange(1,3*tm+1):c.irange(1,12*tm);
  switch (c.below(5)) { case 0: ts=1; how="default"; return PF::get_default_team_policy(league,c.irange(1,99)); case 1: ts=1; how="scan"; return PF::get_thread_range_parallel_scan_team_policy(league,c.irange(1,99)); case 2: { how="plain"; return Policy(league,ts); } case 3: { int k=c.irange(1,4); how="chunks of "+std::to_string(k); return Policy(league,ts).set_chunk_size(k); } default: how="forced"; return PF::get_team_policy_force_team_size(league,ts); } }
template<typename T> static void run (vp::Case& c) {
  const int conc=Exe().concurrency(); int ts, league; std::string how; Policy pol=policy_of(c,ts,league,how); c.d << conc << " threads, " << how << " policy, " << league << " teams of " << ts; VP_CHECK(pol.league_size()==league && pol.team_size()==ts,"the policy has " << pol.league_size() << " teams of " << pol.team_size());
  double over=c.pick({1.0,1.25,2.0}); using TU=ekat::TeamUtils<T,Exe>; TU a(pol,over), tu; if (c.b()) { tu=a; } else { TU other(Policy(c.irange(1,3),1)); tu=other; tu=a; }
  int nc=tu.get_num_concurrent_teams(), mt=tu.get_max_concurrent_threads(), ns=tu.get_num_ws_slots();
  VP_CHECK(nc>=1 && nc<=league && (long)nc*ts<=conc,"concurrent teams: " << nc); VP_CHECK(mt>=1 && mt<=conc,"concurrent threads: " << mt); VP_CHECK(ns>=nc && ns<=league && ns<=conc,"slots: " << ns << ", concurrent teams " << nc);
  // the work of a team is given by its number; who runs it is up to the schedule
  int delay=c.below(3)?0:(int)c.below(30); int rounds=c.irange(1,3); std::vector<int> idx((size_t)league*ts), idx2((size_t)league*ts); std::vector<std::atomic<int>> owner(conc+8), count(league); std::atomic<int> running{0}, peak{0}, clash{0}, ca{-1}, cb{-1}, cs{-1}; int mxpeak=0;
  for (int q=0;q<rounds;++q) { for (auto& o:owner) o=-1; for (auto& x:count) x=0; running=0; peak=0; std::fill(idx.begin(),idx.end(),-1); std::fill(idx2.begin(),idx2.end(),-1); int *pi=idx.data(), *pj=idx2.data(); auto *po=owner.data(), *pc=count.data(); auto *pr=&running, *pp=&peak, *pcl=&clash, *pa=&ca, *pb=&cb, *ps=&cs;
    Kokkos::parallel_for(pol,[=] (const Member& t) { const int l=t.league_rank(); const int ws=tu.get_workspace_idx(t); pi[l*ts+t.team_rank()]=ws; bool ok=ws>=0 && ws<conc+8; ++pc[l];
      if (t.team_rank()==0) { int r=++*pr, p=pp->load(); while (r>p && !pp->compare_exchange_weak(p,r)) {} if (ok) { int o=po[ws].exchange(l); if (o>=0 && o!=l) { if (!(*pcl)++) { *pa=o; *pb=l; *ps=ws; } } } }
      t.team_barrier(); if (delay) dally((l*7+t.team_rank()*3)%(delay+1)); pj[l*ts+t.team_rank()]=tu.get_workspace_idx(t); t.team_barrier();
      if (t.team_rank()==0) { if (ok) { int o=po[ws].exchange(-1); if (o!=l) { if (!(*pcl)++) { *pa=o; *pb=l; *ps=ws; } } } --*pr; } t.team_barrier(); tu.release_workspace_idx(t,ws); });
    for (int l=0;l<league;++l) { VP_CHECK(count[l]==ts,"team " << l << " ran on " << count[l] << " threads"); for (int r=0;r<ts;++r) { int w=idx[l*ts+r]; VP_CHECK(w>=0 && w<ns,"team " << l << " thread " << r << " got index " << w << " of " << ns); VP_CHECK(w==idx[l*ts],"team " << l << ": thread " << r << " got index " << w << ", thread 0 got " << idx[l*ts]); VP_CHECK(idx2[l*ts+r]==w,"team " << l << " thread " << r << ": the index changes from " << w << " to " << idx2[l*ts+r]); } }
    VP_CHECK(clash==0,"teams " << ca << " and " << cb << " hold index " << cs << " at the same time"); VP_CHECK(peak<=nc,"" << peak << " teams ran at once, " << nc << " reported"); mxpeak=std::max(mxpeak,(int)peak); }
  c.nontrivial(league>1 && conc>1); c.label("several teams at once",mxpeak>1); c.label("threads left over",conc%ts!=0); c.label("more teams than slots",league>ns); c.label("fewer teams than could run",league<conc/ts); }
VP_PROP_ND(indices, 12000, 200000, "team policies of all kinds, team sizes 1 to all threads (not only divisors) and 1 to many teams, with and without waits inside the teams; every thread's index before and after, who holds each index at the time, teams seen running at once against the numbers reported; non-trivial: several teams and threads") { if (c.b()) run<double>(c); else run<float>(c); }
VP_PROP_ND(unset, 300, 2000, "objects that were never given a policy; every case counts") {
  ekat::TeamUtils<double,Exe> tu; (void)c.b(); c.d << "no policy"; c.nontrivial();
#ifndef NDEBUG
  int k=(int)c.below(3); VP_CHECK(vp::throws([&]{ if (k==0) tu.get_num_concurrent_teams(); else if (k==1) tu.get_max_concurrent_threads(); else tu.get_num_ws_slots(); }),"accessor " << k << " of an object without a policy is accepted");
#endif
}
