// C27: linear interpolation
#define VP_MAIN
#include "vp.hpp"
#include "kk.hpp"
#include "ekat_lin_interp.hpp"
#include "ekat_subview_utils.hpp"
#include "ekat_team_policy_utils.hpp"
void vp_init (int&, char**&) { kk_init(); }
void vp_fini () { Kokkos::finalize(); }
using Dev=ekat::DefaultDevice; using KT=ekat::KokkosTypes<Dev>; using Exe=typename KT::ExeSpace; using PF=ekat::TeamPolicyFactory<Exe>; using ld=long double;
template<typename T> struct Info { using S=T; enum { n=1 }; }; template<typename S_, int N> struct Info<ekat::Pack<S_,N>> { using S=S_; enum { n=N }; };
// columns of elements of type E (a scalar or a pack), km meaningful entries each, the rest junk
template<typename E> struct Cols { using S=typename Info<E>::S; int nc, km, len; Kokkos::View<E**,Kokkos::LayoutRight,Kokkos::HostSpace> v; Cols (int ncol, int k, int unit, S junk) : nc(ncol), km(k), len((k+unit-1)/unit*unit), v("v",ncol,len/Info<E>::n) { for (int i=0;i<nc;++i) for (int j=0;j<len;++j) at(i,j)=junk; } S& at (int i, int j) const { return reinterpret_cast<S*>(v.data())[(long)i*len+j]; } };
template<typename S> struct Grid { std::vector<S> x1, x2; };
template<typename S> static std::string vec (const std::vector<S>& v) { std::string s="["; for (size_t i=0;i<v.size();++i) { if (i>=6 && v.size()>8) { s+=" ... "+std::to_string(v.size())+" values"; break; } s+=(i?", ":"")+vp::fp((double)v[i]); } return s+"]"; }
template<typename S> static Grid<S> grid (vp::Case& c, int km1, int km2) {
  Grid<S> g; int mode=(int)c.below(5); S x=c.pick({(S)0,(S)-1,(S)3.5,(S)-100,(S)1e4}); S scale=c.pick({(S)1,(S)1e-3,(S)50}); for (int k=0;k<km1;++k) { g.x1.push_back(x); S h; switch (mode) { case 0: h=1; break; case 1: h=c.uniform<S>((S)0.01,1)*scale; break; case 2: h=c.chance(1,3)?(S)0:c.uniform<S>((S)0.01,1); break; case 3: h=(S)std::ldexp(1.0,c.irange(-8,8)); break; default: h=c.uniform<S>((S)0.1,1)*scale; } S y=x+h; x=y>x?y:std::max<S>(std::nextafter(x,std::numeric_limits<S>::infinity()),x+(S)1e-5); }
  S w=g.x1[km1-1]-g.x1[0]; for (int j=0;j<km2;++j) { int k=(int)c.below(km1), q=std::min(k+1,km1-1); S p; switch (c.below(9)) { case 0: p=g.x1[k]; break; case 1: p=g.x1[k]+(g.x1[q]-g.x1[k])/2; break; case 2: p=g.x1[0]-c.uniform<S>(0,2)*w; break; case 3: p=g.x1[km1-1]+c.uniform<S>(0,2)*w; break; case 4: p=std::nextafter(g.x1[k],std::numeric_limits<S>::infinity()); break; case 5: p=std::nextafter(g.x1[k],-std::numeric_limits<S>::infinity()); break; case 6: p=c.b()?g.x1[0]:g.x1[km1-1]; break; default: p=g.x1[k]+(g.x1[q]-g.x1[k])*c.uniform<S>(0,1); } g.x2.push_back(p); }
  if (c.b()) std::sort(g.x2.begin(),g.x2.end()); return g; }
template<typename S> static void verify (const Grid<S>& g, const std::vector<S>& y1, const S* y2, const std::string& how) {
  const S u=std::numeric_limits<S>::epsilon(); const int n=(int)g.x1.size(); for (size_t j=0;j<g.x2.size();++j) { S x=g.x2[j]; int k=0; while (k+1<n && g.x1[k+1]<=x) ++k; auto where=[&]{ std::ostringstream o; o << how << ": target " << j << " at " << vp::fp((double)x) << ", source points " << vec(g.x1) << " values " << vec(y1) << ": " << vp::fp((double)y2[j]); return o.str(); };
    if (x==g.x1[k]) { VP_CHECK(y2[j]==y1[k],where() << ", the value at that source point is " << vp::fp((double)y1[k])); continue; } int a=std::min(k,n-2), b=a+1; ld t=((ld)x-g.x1[a])/((ld)g.x1[b]-g.x1[a]); ld y=(ld)y1[a]+t*((ld)y1[b]-y1[a]); ld tol=8*u*(fabsl((ld)y1[a])+fabsl((ld)y1[b]))*(1+fabsl(t))+1e-30L; VP_CHECK(fabsl((ld)y2[j]-y)<=tol,where() << ", the line through points " << a << " and " << b << " gives " << vp::fp((double)y)); } }
// E1, E2, E3, E4: element types of the arrays given
template<typename S, int N, typename E1, typename E2, typename E3, typename E4> static void run (vp::Case& c, const char* tn) {
  using LI=ekat::LinInterp<S,N>; using Member=typename LI::MemberType; const int conc=Exe().concurrency(); const int unit=std::max({N,(int)Info<E1>::n,(int)Info<E2>::n,(int)Info<E3>::n,(int)Info<E4>::n});
  int ncol=c.irange(1,c.b()?3:9), km1=c.chance(1,4)?c.irange(2,4):c.irange(2,40), km2=c.chance(1,4)?c.irange(1,3):c.irange(1,40); S junk=c.pick({(S)0,(S)std::nan(""),(S)-1e30,(S)1e30}); c.d << tn << ", " << conc << " threads, " << ncol << " columns, " << km1 << " source and " << km2 << " target points, junk " << vp::fp((double)junk) << ";";
  LI li0(ncol,km1,km2), other(c.irange(1,3),c.irange(2,9),c.irange(1,9)); LI li=c.b()?li0:other; if (c.b()) li=li0; else li=li0; VP_CHECK(li.km1_pack()==(km1+N-1)/N && li.km2_pack()==(km2+N-1)/N,"packs: " << li.km1_pack() << ", " << li.km2_pack()); VP_CHECK(li.policy().league_size()==ncol,"the policy has " << li.policy().league_size() << " teams");
  Cols<E1> x1(ncol,km1,unit,junk); Cols<E2> x2(ncol,km2,unit,junk); Cols<E3> y1(ncol,km1,unit,junk); Cols<E4> y2(ncol,km2,unit,(S)-5); std::vector<Grid<S>> gs(ncol); std::vector<std::vector<S>> ys(ncol); std::vector<char> ready(ncol,0);
  int nk=c.irange(1,4), reuse=0, nsetup=0, nint=0; bool outside=false;
  for (int q=0;q<nk;++q) { int pm=(int)c.below(4); std::vector<int> plan(ncol,0), perm(ncol); for (int i=0;i<ncol;++i) perm[i]=i; if (pm>=2) for (int i=ncol-1;i>0;--i) std::swap(perm[i],perm[c.below(i+1)]); int rep=c.irange(1,2); // 0 nothing, 1 set up, 2 interpolate, 3 both
    for (int i=0;i<ncol;++i) { plan[i]=q==0?c.irange(0,3):c.irange(0,3); if (plan[i]==2 && !ready[i]) plan[i]=3; if (plan[i]&1) { gs[i]=grid<S>(c,km1,km2); if (ready[i]) ++reuse; ready[i]=1; ++nsetup; for (int k=0;k<km1;++k) x1.at(i,k)=gs[i].x1[k]; for (int k=0;k<km2;++k) x2.at(i,k)=gs[i].x2[k]; for (int k=0;k<km2;++k) outside|=gs[i].x2[k]<gs[i].x1[0]||gs[i].x2[k]>gs[i].x1[km1-1]; } ys[i].clear(); int ym=(int)c.below(4); S a=c.uniform<S>(-3,3), b=c.uniform<S>(-3,3); for (int k=0;k<km1;++k) { S v=ym==0?a:ym==1?a+b*(gs[i].x1.empty()?(S)k:gs[i].x1[k]):c.uniform<S>(-100,100); ys[i].push_back(v); y1.at(i,k)=v; } for (int k=0;k<y2.len;++k) y2.at(i,k)=(S)-5; }
    std::vector<char> mem0((char*)x1.v.data(),(char*)(x1.v.data()+x1.v.size())), mem1((char*)x2.v.data(),(char*)(x2.v.data()+x2.v.size())), mem2((char*)y1.v.data(),(char*)(y1.v.data()+y1.v.size()));
    static const char* pn[]={"own policy","team policy","team policy with columns","one team, columns over threads"}; int ts=c.irange(1,conc); c.d << " " << pn[pm] << (pm?" of "+std::to_string(ts)+" threads":std::string()) << ":"; for (int i=0;i<ncol;++i) c.d << " " << plan[i]; const int* pl=plan.data(); const int* pp=perm.data(); auto vx1=x1.v; auto vx2=x2.v; auto vy1=y1.v; auto vy2=y2.v; int rk=(int)c.below(3); bool barrier=c.b();
    Kokkos::View<const E1**,Kokkos::LayoutRight,Kokkos::HostSpace> cx1(vx1); Kokkos::View<const E2**,Kokkos::LayoutRight,Kokkos::HostSpace> cx2(vx2); Kokkos::View<const E3**,Kokkos::LayoutRight,Kokkos::HostSpace> cy1(vy1);
    if (pm==3) { auto pol=PF::get_team_policy_force_team_size(1,ts); int league=1; (void)league; Kokkos::parallel_for(pol,KOKKOS_LAMBDA(const Member& t){ Kokkos::parallel_for(Kokkos::TeamThreadRange(t,ncol),[&] (int k) { int i=pp[k]; for (int r=0;r<rep;++r) { if (pl[i]&1) li.setup(t,Kokkos::ThreadVectorRange(t,li.km2_pack()),ekat::subview(cx1,i),ekat::subview(vx2,i),i); if (pl[i]&2) li.lin_interp(t,Kokkos::ThreadVectorRange(t,li.km2_pack()),ekat::subview(vx1,i),ekat::subview(cx2,i),ekat::subview(cy1,i),ekat::subview(vy2,i),i); } }); }); }
    else { auto pol=pm==0?li.policy():PF::get_team_policy_force_team_size(ncol,ts); Kokkos::parallel_for(pol,KOKKOS_LAMBDA(const Member& t){ int i=pp[t.league_rank()], col=pm==2?i:-1; for (int r=0;r<rep;++r) {
      if (pl[i]&1) { if (rk==0) li.setup(t,ekat::subview(vx1,i),ekat::subview(vx2,i),col); else if (rk==1) li.setup(t,Kokkos::TeamVectorRange(t,li.km2_pack()),ekat::subview(cx1,i),ekat::subview(cx2,i),col); else li.setup(t,Kokkos::TeamThreadRange(t,li.km2_pack()),ekat::subview(vx1,i),ekat::subview(cx2,i),col); }
      if (barrier) t.team_barrier();
      if (pl[i]&2) { if (rk==0) li.lin_interp(t,ekat::subview(vx1,i),ekat::subview(vx2,i),ekat::subview(vy1,i),ekat::subview(vy2,i),col); else if (rk==1) li.lin_interp(t,Kokkos::TeamVectorRange(t,li.km2_pack()),ekat::subview(cx1,i),ekat::subview(cx2,i),ekat::subview(cy1,i),ekat::subview(vy2,i),col); else li.lin_interp(t,Kokkos::TeamThreadRange(t,li.km2_pack()),ekat::subview(vx1,i),ekat::subview(vx2,i),ekat::subview(cy1,i),ekat::subview(vy2,i),col); } } }); }
    VP_CHECK(!memcmp(mem0.data(),x1.v.data(),mem0.size()) && !memcmp(mem1.data(),x2.v.data(),mem1.size()) && !memcmp(mem2.data(),y1.v.data(),mem2.size()),"an input changed");
    for (int i=0;i<ncol;++i) { std::string how=std::string(tn)+", kernel "+std::to_string(q)+" ("+pn[pm]+"), column "+std::to_string(i); if (plan[i]&2) { ++nint; verify(gs[i],ys[i],&y2.at(i,0),how); } else for (int k=0;k<y2.len;++k) VP_CHECK(y2.at(i,k)==(S)-5,how << ": the output of a column that was not interpolated changed"); } }
  c.nontrivial(nint>0); c.label("grid replaced",reuse>0); c.label("targets outside",outside); c.label("padding",km1%unit||km2%unit); }
#define P(S,N) ekat::Pack<S,N>
VP_PROP_ND(double_columns, 12000, 250000, "columns on random increasing source grids (uniform, clustered, one unit in the last place apart), targets at, between, below and above the points, junk in the padding, random, linear and constant values, all ranges and column arguments, set up again and used again over several kernels, packs of several sizes inside and outside; reference: line through the bracketing points in extended precision; non-trivial: some column is interpolated") {
  switch (c.below(6)) { case 0: run<double,1,P(double,1),P(double,1),P(double,1),P(double,1)>(c,"packs of 1"); break; case 1: run<double,4,P(double,4),P(double,4),P(double,4),P(double,4)>(c,"packs of 4"); break; case 2: run<double,4,double,double,double,double>(c,"scalars, packs of 4 inside"); break; case 3: run<double,2,P(double,8),P(double,4),double,P(double,2)>(c,"mixed, packs of 2 inside"); break; case 4: run<double,8,P(double,2),P(double,8),P(double,4),P(double,1)>(c,"mixed, packs of 8 inside"); break; default: run<double,1,double,P(double,2),P(double,1),P(double,4)>(c,"mixed, packs of 1 inside"); } }
VP_PROP_ND(float_columns, 6000, 120000, "the same with float") { switch (c.below(3)) { case 0: run<float,1,float,float,float,float>(c,"float"); break; case 1: run<float,8,P(float,8),P(float,8),P(float,8),P(float,8)>(c,"float packs of 8"); break; default: run<float,4,P(float,4),float,P(float,4),P(float,4)>(c,"float, packs of 4"); } }
