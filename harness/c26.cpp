// C26: tridiagonal solvers
#define VP_MAIN
#include "vp.hpp"
#include "kk.hpp"
#include <mutex>
#include <condition_variable>
#include <thread>
// A team whose threads run one after the other from barrier to barrier, in a given order; stands in for the Kokkos team member
struct Sched { int n; std::mutex m; std::condition_variable cv; int turn=-1; std::vector<int> order; std::vector<char> done, waiting; std::vector<std::vector<int>> orders; int phase=0; bool diverged=false; std::function<void(int)> at_phase;
  explicit Sched (int k) : n(k), done(k,0), waiting(k,0) {}
  void next () { // called with the lock by the thread that gives up its turn
    for (int i:order) if (!done[i] && !waiting[i]) { turn=i; cv.notify_all(); return; }
    bool any=false, all=true; for (int i=0;i<n;++i) { any|=waiting[i]!=0; all&=waiting[i]!=0; } if (any && !all) diverged=true; if (!any) { turn=-2; cv.notify_all(); return; }
    std::fill(waiting.begin(),waiting.end(),0); ++phase; order=orders[phase%orders.size()]; for (int i:order) if (!done[i]) { turn=i; break; } cv.notify_all(); }
  void barrier (int r) { std::unique_lock<std::mutex> l(m); waiting[r]=1; next(); cv.wait(l,[&]{ return turn==r && !waiting[r]; }); }
  template<typename F> void run (F&& f) { order=orders[0]; std::vector<std::thread> t; for (int r=0;r<n;++r) t.emplace_back([&,r]{ { std::unique_lock<std::mutex> l(m); cv.wait(l,[&]{ return turn==r; }); } f(r); std::unique_lock<std::mutex> l(m); done[r]=1; next(); }); { std::unique_lock<std::mutex> l(m); turn=order[0]; cv.notify_all(); } for (auto& x:t) x.join(); } };
struct Mock { Sched* s; int r; int team_rank () const { return r; } int team_size () const { return s->n; } int league_rank () const { return 0; } int league_size () const { return 1; } void team_barrier () const { s->barrier(r); } };
namespace Kokkos { struct MockSingle { const Mock& t; }; inline MockSingle PerTeam (const Mock& t) { return {t}; } template<typename F> void single (const MockSingle& s, const F& f) { if (s.t.r==0) f(); }
  struct MockRange { const Mock& t; int b, e; }; inline MockRange TeamVectorRange (const Mock& t, int n) { return {t,0,n}; } inline MockRange TeamThreadRange (const Mock& t, int n) { return {t,0,n}; } inline MockRange TeamVectorRange (const Mock& t, int b, int e) { return {t,b,e}; } inline MockRange TeamThreadRange (const Mock& t, int b, int e) { return {t,b,e}; }
  // contiguous chunks, as the host back ends do
  template<typename F> void parallel_for (const MockRange& r, const F& f) { int n=r.t.s->n, len=r.e-r.b, c=(len+n-1)/n; for (int i=r.b+r.t.r*c;i<std::min(r.e,r.b+(r.t.r+1)*c);++i) f(i); } }
// A number that records which thread reads and writes it between which barriers
struct Rec; struct Log { const char *lo[4]={}, *hi[4]={}; int n=0; int thread=0; Sched* s=nullptr; struct Acc { int phase=-1, w=-1, r1=-1, r2=-1; double v=0; bool wconf=false; }; std::vector<Acc> acc[4]; std::string bad;
  void add (const void* p, size_t bytes, size_t elem) { lo[n]=(const char*)p; hi[n]=lo[n]+bytes; acc[n].assign(bytes/elem,Acc()); ++n; }
  bool find (const void* p, int& k, long& i); void read (const Rec* p); void write (const Rec* p, double v); };
static thread_local int my_rank=0; static Log* log_=nullptr;
struct Rec { double v=0; Rec () {} Rec (double x) : v(x) {} Rec (int x) : v(x) {} Rec (const Rec& o) : v(o.get()) {} Rec& operator= (const Rec& o) { put(o.get()); return *this; }
  double get () const { if (log_) log_->read(this); return v; } void put (double x) { if (log_) log_->write(this,x); v=x; }
  Rec& operator+= (const Rec& o) { put(get()+o.get()); return *this; } Rec& operator-= (const Rec& o) { put(get()-o.get()); return *this; } Rec& operator*= (const Rec& o) { put(get()*o.get()); return *this; } Rec& operator/= (const Rec& o) { put(get()/o.get()); return *this; }
  Rec operator- () const { return Rec(-get()); } Rec operator+ () const { return Rec(get()); } };
static inline Rec operator+ (const Rec& a, const Rec& b) { return Rec(a.get()+b.get()); } static inline Rec operator- (const Rec& a, const Rec& b) { return Rec(a.get()-b.get()); } static inline Rec operator* (const Rec& a, const Rec& b) { return Rec(a.get()*b.get()); } static inline Rec operator/ (const Rec& a, const Rec& b) { return Rec(a.get()/b.get()); }
static inline bool operator== (const Rec& a, const Rec& b) { return a.get()==b.get(); } static inline bool operator!= (const Rec& a, const Rec& b) { return a.get()!=b.get(); } static inline bool operator< (const Rec& a, const Rec& b) { return a.get()<b.get(); }
static const char* arrn[]={"dl","d","du","X"};
bool Log::find (const void* p, int& k, long& i) { const char* c=(const char*)p; for (k=0;k<n;++k) if (c>=lo[k] && c<hi[k]) { i=(c-lo[k])/(long)sizeof(Rec); return true; } return false; }
void Log::read (const Rec* p) { int k; long i; if (!find(p,k,i)) return; Acc& a=acc[k][i]; if (a.phase!=s->phase) { a=Acc(); a.phase=s->phase; } if (a.w>=0 && a.w!=my_rank && bad.empty()) { std::ostringstream o; o << "thread " << my_rank << " reads element " << i << " of " << arrn[k] << " that thread " << a.w << " writes, with no barrier in between (barrier interval " << a.phase << ")"; bad=o.str(); } if (a.r1<0 || a.r1==my_rank) a.r1=my_rank; else a.r2=my_rank; }
void Log::write (const Rec* p, double v) { int k; long i; if (!find(p,k,i)) return; Acc& a=acc[k][i]; if (a.phase!=s->phase) { a=Acc(); a.phase=s->phase; } int other=a.r1>=0 && a.r1!=my_rank?a.r1:a.r2>=0 && a.r2!=my_rank?a.r2:-1; if (other>=0 && bad.empty()) { std::ostringstream o; o << "thread " << my_rank << " writes element " << i << " of " << arrn[k] << " that thread " << other << " reads, with no barrier in between (barrier interval " << a.phase << ")"; bad=o.str(); }
  if (a.w>=0 && a.w!=my_rank && !vp::same_bits(a.v,v) && bad.empty()) { std::ostringstream o; o << "threads " << a.w << " and " << my_rank << " both write element " << i << " of " << arrn[k] << ", with no barrier in between (barrier interval " << a.phase << ")"; bad=o.str(); } a.w=my_rank; a.v=v; }
#include "ekat_tridiag.hpp"
#include "ekat_pack.hpp"
#include "ekat_pack_kokkos.hpp"
#include "ekat_team_policy_utils.hpp"
#include "ekat_subview_utils.hpp"
void vp_init (int&, char**&) { kk_init(); }
void vp_fini () { Kokkos::finalize(); }
using Dev=ekat::DefaultDevice; using Exe=typename ekat::KokkosTypes<Dev>::ExeSpace; using PF=ekat::TeamPolicyFactory<Exe>; using Member=typename ekat::KokkosTypes<Dev>::MemberType;
template<typename T> using V1=Kokkos::View<T*,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryTraits<Kokkos::Unmanaged>>; template<typename T> using V2=Kokkos::View<T**,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
// n equations, p matrices (1, or one per right-hand side), m right-hand sides; element (i,j) at i*p+j, i*m+j
// g: rows of the rank-2 arrays start every g times the number of columns
struct Prob { int n, p, m; std::vector<double> dl, d, du, b; double amp=1; int g[4]={1,1,1,1}; };
enum { Team, Serial, CR, BFB }; static const char* kn[]={"thomas in a team","thomas","cr","bfb"};
// formats: 0: vectors; 1: one matrix, several right-hand sides; 2: one matrix each; 3: one matrix as rank-2 arrays of one column
template<typename T> struct Info { using S=T; enum { n=1 }; static S& lane (T& x, int) { return x; } }; template<typename S_, int N> struct Info<ekat::Pack<S_,N>> { using S=S_; enum { n=N }; static S& lane (ekat::Pack<S_,N>& x, int k) { return x[k]; } };
template<typename T> struct Buf { enum { G=6 }; long n; int cols, gap; std::vector<T> v; explicit Buf (long k=0, int c=1, int g=1) : n(k*g), cols(c), gap(g), v(n+2*G) { for (auto& x:v) for (int l=0;l<Info<T>::n;++l) Info<T>::lane(x,l)=(typename Info<T>::S)-7.25; } T* data () { return v.data()+G; } bool intact () { for (long k=0;k<(long)v.size();++k) if (k<G || k>=n+G || (k-G)%(cols*gap)>=cols) for (int l=0;l<Info<T>::n;++l) if (Info<T>::lane(v[k],l)!=(typename Info<T>::S)-7.25) return false; return true; } };
template<typename T> static V2<T> rows2 (Buf<T>& b, int n) { if (b.gap==1) return V2<T>(b.data(),n,b.cols); Kokkos::View<T***,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryTraits<Kokkos::Unmanaged>> v(b.data(),n,b.gap,b.cols); return ekat::subview_1(v,0); }
template<typename DT, typename XT> struct Store { Buf<DT> dl, d, du; Buf<XT> x; int n, pp, mp; };
template<typename T> static void putv (Buf<T>& b, int n, int cols, const std::vector<double>& v, double pad, int g) { const int N=Info<T>::n, pc=(cols+N-1)/N; b=Buf<T>((long)n*pc,pc,g); for (int i=0;i<n;++i) for (int j=0;j<pc*N;++j) Info<T>::lane(b.data()[i*pc*g+j/N],j%N)=(typename Info<T>::S)(j<cols?v[(size_t)i*cols+j]:pad); }
template<typename DT, typename XT> static Store<DT,XT> store (const Prob& q, double pad) { Store<DT,XT> s; s.n=q.n; s.pp=(q.p+Info<DT>::n-1)/Info<DT>::n; s.mp=(q.m+Info<XT>::n-1)/Info<XT>::n; putv(s.dl,q.n,q.p,q.dl,pad,q.g[0]); putv(s.d,q.n,q.p,q.d,pad,q.g[1]); putv(s.du,q.n,q.p,q.du,pad,q.g[2]); putv(s.x,q.n,q.m,q.b,pad,q.g[3]); return s; }
template<typename DT, typename XT, typename M> static void solve (const M& t, Store<DT,XT>& s, int kind, int fmt) {
  constexpr bool same=(int)Info<DT>::n==(int)Info<XT>::n, ds=std::is_same<DT,typename Info<DT>::S>::value && !std::is_class<DT>::value, xs=std::is_same<XT,typename Info<XT>::S>::value; constexpr bool sc=(int)Info<DT>::n==1 && std::is_same<DT,typename Info<DT>::S>::value; (void)ds;
  const int n=s.n; V1<DT> dl1(s.dl.data(),n), d1(s.d.data(),n), du1(s.du.data(),n); V2<DT> dl2=rows2(s.dl,n), d2=rows2(s.d,n), du2=rows2(s.du,n); V1<XT> x1(s.x.data(),n); V2<XT> x2=rows2(s.x,n);
  namespace tri=ekat::tridiag;
  if (kind==Team) { if constexpr (sc) tri::thomas(t,dl1,d1,du1,x2); }
  else if (kind==Serial) { if (t.team_rank()==0) { if (fmt==0) { if constexpr (sc) tri::thomas(dl1,d1,du1,x1); } else if (fmt==1) { if constexpr (sc) tri::thomas(dl1,d1,du1,x2); } else if constexpr (same) tri::thomas(dl2,d2,du2,x2); } }
  else if (kind==CR) { if constexpr (sc && xs) { if (fmt==0) tri::cr(t,dl1,d1,du1,x1); else if (fmt==1) tri::cr(t,dl1,d1,du1,x2); else tri::cr(t,dl2,d2,du2,x2); } }
  else { if (fmt==1) { if constexpr (sc) tri::bfb(t,dl1,d1,du1,x2); } else if (fmt==2) { if constexpr (same) tri::bfb(t,dl2,d2,du2,x2); } else { if constexpr (sc) tri::bfb(t,dl2,d2,du2,x2); } } }
template<typename DT, typename XT> static std::vector<double> take (Store<DT,XT>& s, int m, const std::string& how) { VP_CHECK(s.dl.intact() && s.d.intact() && s.du.intact() && s.x.intact(),how << ": wrote outside an array"); std::vector<double> r; const int N=Info<XT>::n; for (int i=0;i<s.n;++i) for (int j=0;j<m;++j) r.push_back((double)Info<XT>::lane(s.x.data()[i*s.mp*s.x.gap+j/N],j%N)); return r; }
template<typename DT, typename XT> static std::vector<std::vector<double>> run (const std::vector<Prob>& ps, int kind, int fmt, int ts, double pad, const std::string& how) {
  std::vector<Store<DT,XT>> st; for (auto& q:ps) st.push_back(store<DT,XT>(q,pad)); auto* p=st.data(); Kokkos::parallel_for(PF::get_team_policy_force_team_size((int)ps.size(),ts),KOKKOS_LAMBDA(const Member& t){ solve(t,p[t.league_rank()],kind,fmt); });
  std::vector<std::vector<double>> r; for (size_t k=0;k<ps.size();++k) r.push_back(take(st[k],ps[k].m,how)); return r; }
using ld=long double;
// amplification of errors: the largest entry of inverse(|D|-|off|) |D| e, a bound for all matrices with these absolute values
static double amp_of (const Prob& q, int j) { const int n=q.n; std::vector<ld> d(n), x(n), u(n); for (int i=0;i<n;++i) { ld D=fabsl((ld)q.d[i*q.p+j]), L=i?fabsl((ld)q.dl[i*q.p+j]):0; u[i]=i+1<n?fabsl((ld)q.du[i*q.p+j]):0; d[i]=D; x[i]=D; if (i) { ld f=L/d[i-1]; d[i]-=f*u[i-1]; x[i]+=f*x[i-1]; } if (!(d[i]>0)) return INFINITY; } ld mx=0; for (int i=n-1;i>=0;--i) { if (i+1<n) x[i]+=u[i]*x[i+1]; x[i]/=d[i]; mx=std::max(mx,x[i]); } return (double)mx; }
static Prob problem (vp::Case& c, bool flt, int n, int p, int m, std::string& note) {
  Prob q; q.n=n; q.p=p; q.m=m; auto rd=[&](double x){ return flt?(double)(float)x:x; }; int mode=c.weighted({6,2,2,2}); bool scaled=c.chance(1,3), holes=c.chance(1,4); int sd=flt?10:40; static const char* mn[]={"random","second difference","barely dominant","diagonal"}; note+=std::string(mn[mode])+(scaled?" scaled":"")+(holes?" with zeros":"");
  q.dl.resize((size_t)n*p); q.d=q.du=q.dl; const double junk=c.pick({0.0,1.0,std::nan(""),-1e30,(double)INFINITY}); double fac=1+std::pow(2.0,-c.irange(0,flt?6:14)); // dominance
  for (int j=0;j<p;++j) for (int i=0;i<n;++i) { double l,u,d; if (mode==1) { l=u=-1; d=2; } else { l=c.uniform<double>(-2,2); u=c.uniform<double>(-2,2); if (holes) { if (c.chance(1,3)) l=0; if (c.chance(1,3)) u=0; } if (mode==3) l=u=0; double s=fabs(l)+fabs(u); d=mode==2?s*fac:s+c.uniform<double>(0.05,3); if (mode==2 && d==0) d=1; if (c.chance(1,3)) d=-d; }
    l=rd(l); u=rd(u); double need=(i?fabs(l):0)+(i+1<n?fabs(u):0); d=rd(d); if (fabs(d)<need) d=rd((d<0?-1:1)*need*(flt?1.0001:1.0000001)); if (scaled) { double f=std::ldexp(1.0,c.irange(-sd,sd)); l*=f; u*=f; d*=f; } if (i==0) l=junk; if (i==n-1) u=junk; q.dl[i*p+j]=l; q.d[i*p+j]=d; q.du[i*p+j]=u; }
  double bs=c.pick({1.0,1.0,1e-3,1e6}); for (int i=0;i<n;++i) for (int j=0;j<m;++j) { double x=c.chance(1,10)?0:c.uniform<double>(-1,1)*bs; q.b.push_back(rd(x)); }
  if (scaled) for (int i=0;i<n;++i) for (int j=0;j<m;++j) { double f=fabs(q.d[i*p+(p>1?j:0)]); int e; std::frexp(f,&e); q.b[i*m+j]=rd(std::ldexp(q.b[i*m+j],e)); }
  double a=1; for (int j=0;j<p;++j) a=std::max(a,amp_of(q,j)); q.amp=a; return q; }
// Solution and residuals, in extended precision
static bool check (const Prob& q, const std::vector<double>& x, double u, bool direct, const std::string& how) {
  const int n=q.n; bool useful=false; double lg=2; for (int k=1;k<n;k*=2) ++lg;
  for (int j=0;j<q.m;++j) { const int aj=q.p>1?j:0; auto L=[&](int i){ return (ld)q.dl[i*q.p+aj]; }; auto D=[&](int i){ return (ld)q.d[i*q.p+aj]; }; auto U=[&](int i){ return (ld)q.du[i*q.p+aj]; }; auto X=[&](int i){ return (ld)x[i*q.m+j]; };
    std::vector<ld> d(n), y(n); for (int i=0;i<n;++i) { d[i]=D(i); y[i]=q.b[i*q.m+j]; if (i) { ld f=L(i)/d[i-1]; d[i]-=f*U(i-1); y[i]-=f*y[i-1]; } } ld mx=0; for (int i=n-1;i>=0;--i) { if (i+1<n) y[i]-=U(i)*y[i+1]; y[i]/=d[i]; mx=std::max(mx,fabsl(y[i])); }
    double tol=40*lg*u*q.amp; for (int i=0;i<n;++i) { ld e=fabsl(X(i)-y[i]); VP_CHECK(e<=tol*mx+1e-35L,how << ": equation " << i << " of " << n << ", right-hand side " << j << " of " << q.m << ": " << vp::fp(x[i*q.m+j]) << ", the solution is " << vp::fp((double)y[i])); } if (tol<0.1 && mx>0) useful=true;
    if (direct) for (int i=0;i<n;++i) { ld r=(ld)q.b[i*q.m+j]-D(i)*X(i), s=fabsl(D(i)*X(i)); if (i) { r-=L(i)*X(i-1); s+=fabsl(L(i)*X(i-1)); } if (i+1<n) { r-=U(i)*X(i+1); s+=fabsl(U(i)*X(i+1)); } VP_CHECK(fabsl(r)<=60*u*s+1e-33L,how << ": equation " << i << " of " << n << ", right-hand side " << j << " of " << q.m << " is left with a residual of " << vp::fp((double)r) << " for terms of " << vp::fp((double)s)); } }
  return useful; }
static int rows (vp::Case& c) { switch (c.below(4)) { case 0: return c.irange(1,5); case 1: { int k=1<<c.below(8); return std::max(1,k+c.irange(-2,2)); } default: return c.irange(1,70); } }
template<typename DT, typename XT> static void any (vp::Case& c, int kind, int fmt, const char* tn) {
  const int conc=Exe().concurrency(); const bool flt=std::is_same<typename Info<DT>::S,float>::value || std::is_same<typename Info<XT>::S,float>::value; const double u=flt?6e-8:1.2e-16; int ts=kind==Serial?c.irange(1,std::min(2,conc)):c.irange(1,conc); int league=c.chance(1,4)?c.irange(2,5):1; std::vector<Prob> ps; std::string note; int m=fmt==0?1:c.chance(1,6)?(fmt!=3 && c.chance(1,4)?0:1):c.irange(2,c.chance(1,4)?20:6);
  int n=rows(c); for (int k=0;k<league;++k) { if (k && c.b()) n=rows(c); note+=(k?", ":""); ps.push_back(problem(c,flt,n,fmt==2?m:1,m,note)); note+=" of "+std::to_string(n); if (fmt>0 && c.chance(1,4)) { auto& g=ps.back().g; if (fmt==2) for (int a=0;a<3;++a) g[a]=c.irange(1,3); g[3]=c.irange(1,3); note+=", rows "+std::to_string(g[0])+","+std::to_string(g[1])+","+std::to_string(g[2])+","+std::to_string(g[3])+" times apart"; } }
  double pad=c.pick({1.0,0.0,std::nan("")}); std::string how=std::string(kn[kind])+" ("+tn+", format "+std::to_string(fmt)+")"; c.d << how << " on " << ts << " of " << conc << " threads, " << league << " systems with " << m << " right-hand sides: " << note;
  auto r=run<DT,XT>(ps,kind,fmt,ts,pad,how); bool useful=false; for (size_t k=0;k<ps.size();++k) useful|=check(ps[k],r[k],u,kind!=CR,how); c.nontrivial(useful && n>1); c.label("not a power of two",(n&(n-1))!=0); c.label("more threads than right-hand sides",ts>m); c.label("several teams",league>1); c.label("rows with gaps",ps[0].g[0]+ps[0].g[1]+ps[0].g[2]+ps[0].g[3]>4); c.label(kn[kind]); }
template<typename S> static void solvers (vp::Case& c, const char* tn, const char* pn) {
  using P=ekat::Pack<S,sizeof(S)==4?2:4>; using P1=ekat::Pack<S,1>; int kind=c.weighted({2,2,5,2}); int fmt=kind==Team?1:kind==BFB?c.irange(1,3):c.irange(0,2); bool packed=c.b();
  if (kind==CR || fmt==0) any<S,S>(c,kind,fmt,tn); else if (fmt==2) { if (!packed) any<S,S>(c,kind,fmt,tn); else if (c.chance(1,5)) any<P1,P1>(c,kind,fmt,"Pack of 1"); else any<P,P>(c,kind,fmt,pn); } else { if (!packed) any<S,S>(c,kind,fmt,tn); else if (c.chance(1,5)) any<S,P1>(c,kind,fmt,"Pack of 1"); else any<S,P>(c,kind,fmt,pn); } }
VP_PROP_ND(double_systems, 24000, 400000, "every solver and problem format on diagonally dominant systems with 0-20 right-hand sides (random, second difference, barely dominant, zeros, widely scaled rows, junk in the unused corners), scalar and packed, any team size; residuals and solution in extended precision; non-trivial: more than one equation and an error bound below 10%") { solvers<double>(c,"double","Pack<double,4>"); }
VP_PROP_ND(float_systems, 12000, 200000, "the same with float") { solvers<float>(c,"float","Pack<float,2>"); }
VP_PROP_ND(mixed_systems, 6000, 100000, "coefficients and right-hand sides of different precision; non-trivial as above") { int kind=(int)c.below(4); int fmt=kind==Team||kind==BFB?1:c.irange(0,1); if (c.b()) any<float,double>(c,kind,fmt,"float/double"); else any<double,float>(c,kind,fmt,"double/float"); }
template<typename S> static void bfb (vp::Case& c) {
  const int conc=Exe().concurrency(); const bool flt=sizeof(S)==4; bool one=c.b(); int m=c.irange(1,12), n=rows(c); std::string note; std::vector<Prob> ps{problem(c,flt,n,one?1:m,m,note)}; c.d << (flt?"float":"double") << ", " << n << " equations, " << m << " right-hand sides, " << (one?"one matrix":"one matrix each") << ", " << note; std::vector<double> ref; std::string refn;
  auto same=[&](const std::vector<double>& x, const std::string& w){ if (ref.empty()) { ref=x; refn=w; } else for (size_t k=0;k<x.size();++k) VP_CHECK(vp::same_bits(x[k],ref[k]),"bfb with " << w << ": element " << k << " is " << vp::fp(x[k]) << ", with " << refn << " it is " << vp::fp(ref[k])); };
  std::vector<int> tss{1,conc,c.irange(1,conc)}; for (int ts:tss) { std::string w=std::to_string(ts)+" threads"; if (one) { same(run<S,S>(ps,BFB,1,ts,1,w)[0],"scalars, "+w); same(run<S,S>(ps,BFB,3,ts,1,w)[0],"scalars, one column, "+w); same(run<S,ekat::Pack<S,2>>(ps,BFB,1,ts,1,w)[0],"packs of 2, "+w); same(run<S,ekat::Pack<S,4>>(ps,BFB,3,ts,1,w)[0],"packs of 4, "+w); same(run<S,ekat::Pack<S,8>>(ps,BFB,1,ts,0,w)[0],"packs of 8, "+w); }
    else { same(run<S,S>(ps,BFB,2,ts,1,w)[0],"scalars, "+w); same(run<ekat::Pack<S,1>,ekat::Pack<S,1>>(ps,BFB,2,ts,1,w)[0],"packs of 1, "+w); same(run<ekat::Pack<S,2>,ekat::Pack<S,2>>(ps,BFB,2,ts,1,w)[0],"packs of 2, "+w); same(run<ekat::Pack<S,4>,ekat::Pack<S,4>>(ps,BFB,2,ts,1,w)[0],"packs of 4, "+w); same(run<ekat::Pack<S,8>,ekat::Pack<S,8>>(ps,BFB,2,ts,0,w)[0],"packs of 8, "+w); } }
  if (!one) { std::vector<double> cols; // each system by itself
    std::vector<double> y((size_t)n*m); for (int j=0;j<m;++j) { Prob q; q.n=n; q.p=q.m=1; for (int i=0;i<n;++i) { q.dl.push_back(ps[0].dl[i*m+j]); q.d.push_back(ps[0].d[i*m+j]); q.du.push_back(ps[0].du[i*m+j]); q.b.push_back(ps[0].b[i*m+j]); } auto x=run<S,S>({q},BFB,2,1,1,"alone")[0]; for (int i=0;i<n;++i) y[i*m+j]=x[i]; } same(y,"each system alone"); }
  c.nontrivial(n>1 && m>1); c.label("one matrix",one); }
VP_PROP_ND(bit_for_bit, 2500, 40000, "the bit-for-bit variant on one system with scalars and packs of several sizes, all formats and team sizes, and column by column: identical bits; non-trivial: several equations and right-hand sides") { if (c.b()) bfb<double>(c); else bfb<float>(c); }
#ifdef VP_SCHED
VP_PROP_ND(schedules, 2500, 60000, "the team solvers run on up to 12 threads of a stand-in for a team that runs them one after the other between barriers, in random orders, with every access to the arrays recorded: no two threads touch an element in the same barrier interval with one of them changing it, all threads meet at the same barriers, and the solution is right; non-trivial: several threads and equations") {
  int kind=c.pick({(int)Team,(int)CR,(int)CR,(int)CR,(int)BFB}); int fmt=kind==Team?1:kind==BFB?c.irange(1,3):c.irange(0,2); int n=c.b()?c.irange(1,20):rows(c); if (n>100) n=100; int m=fmt==0?1:fmt!=3 && c.chance(1,15)?0:c.irange(1,6), k=c.irange(1,12); std::string note; Prob q=problem(c,false,n,fmt==2?m:1,m,note); Sched s(k); for (int i=0;i<8;++i) { std::vector<int> o(k); for (int j=0;j<k;++j) o[j]=j; int w=(int)c.below(3); if (w==0) std::reverse(o.begin(),o.end()); else if (w==1) for (int j=k-1;j>0;--j) std::swap(o[j],o[c.below(j+1)]); s.orders.push_back(o); }
  std::string how=std::string(kn[kind])+" (format "+std::to_string(fmt)+")"; c.d << how << " on " << k << " threads, " << n << " equations, " << m << " right-hand sides, " << note; for (auto& o:s.orders) { c.d << " ["; for (int x:o) c.d << x << " "; c.d << "]"; }
  auto st=store<Rec,Rec>(q,1); Log lg; lg.s=&s; auto reg=[&](Buf<Rec>& b){ lg.add(b.data(),b.n*sizeof(Rec),sizeof(Rec)); }; reg(st.dl); reg(st.d); reg(st.du); reg(st.x); log_=&lg; s.run([&](int r){ my_rank=r; Mock t{&s,r}; solve(t,st,kind,fmt); }); log_=nullptr;
  VP_CHECK(!s.diverged,how << ": some threads finish while others wait at a barrier"); VP_CHECK(lg.bad.empty(),how << ": " << lg.bad); std::vector<double> x; for (int i=0;i<n;++i) for (int j=0;j<m;++j) x.push_back(st.x.data()[i*m+j].v); VP_CHECK(st.dl.intact() && st.d.intact() && st.du.intact() && st.x.intact(),how << ": wrote outside an array"); check(q,x,1.2e-16,kind!=CR,how); c.nontrivial(n>1 && k>1); c.label("more threads than right-hand sides",k>m); c.label(kn[kind]); }
#endif
