// C28: workspaces
#if !defined(VP_PART) || VP_PART==0
#define VP_MAIN
#endif
#include "vp.hpp"
#include "kk.hpp"
#include "ekat_pack.hpp"
#include "ekat_workspace.hpp"
#include <thread>
#include <regex>
struct NullBuf : std::streambuf { int overflow (int ch) override { return ch; } std::streamsize xsputn (const char*, std::streamsize n) override { return n; } };
static NullBuf nullbuf;
#if VP_IN(0)
void vp_init (int&, char**&) { kk_init(); std::cout.rdbuf(&nullbuf); }
void vp_fini () { Kokkos::finalize(); }
#endif
using Dev=ekat::DefaultDevice; using Exe=typename ekat::KokkosTypes<Dev>::ExeSpace; using PF=ekat::TeamPolicyFactory<Exe>; using ekat::Unmanaged;
template<typename S> using V1=typename ekat::KokkosTypes<Dev>::template view_1d<S>;
namespace unit_test { struct UnitWrap { template<typename W> static int used (const W& w) {
#ifndef NDEBUG
  return w.get_num_used();
#else
  (void)w; return -1;
#endif
} }; }
enum Kind { Take, Many, Refs, Contig, Macro, AndReset, Release, RelMany, RelMacro, Reset, Look, Print, Again, NKind };
static const char* kname[]={"take","take_many","take_many_refs","take_many_contiguous","take_macro_block","take_many_and_reset","release","release_many_contiguous","release_macro_block","reset","look","print","get_workspace again"};
constexpr int MAXH=72;
struct Op { Kind k; int s=0, n=1, h[4]={-1,-1,-1,-1}, name[4]={0,0,0,0}, who=-1, wait=0; int used=0; };
struct Hold { int slot, n, s, group, pos; bool macro; int name; };
struct Err { std::atomic<int> n{0}; int team=-1, rank=-1, op=-1, h=-1, what=0; long at=0; };
static const char* names[]={"a","bb","temperature","x1","qv","a much longer name that is still short of the limit of characters","zz","work",
  "A","ab","abc","b","t","temp","temperature_1","temperature_2","x","x2","x10","q","qc","qv_","1","0","-","w o r k","Work","work2","n1","n2","n3","n4","n5","n6","n7","n8","%s",
  "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq","qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqr"};
constexpr int NN=sizeof(names)/sizeof(names[0]);
static void dally (int n) { for (int i=0;i<n;++i) std::this_thread::yield(); if (n>8) std::this_thread::sleep_for(std::chrono::microseconds(n)); }
// what is written to element k of array h of a team (never the value debug builds fill with)
static inline unsigned char pat (int team, int h, long k) { unsigned x=(unsigned)(team*131+h*31+k*7+5); return (unsigned char)(1+(x^(x>>8))%120); }
// the history of one team: generated with a model of the free list
struct Model { int M; std::vector<int> freel; std::map<int,Hold> held; int nh=0, used=0, peak=0, ngroup=0; explicit Model (int m) : M(m) { clear(); } void clear () { freel.clear(); for (int i=0;i<M;++i) freel.push_back(i); held.clear(); used=0; }
  int run () const { int r=0; while (r<(int)freel.size() && freel[r]==freel[0]+r) ++r; return r; } };
struct Script { std::vector<Op> ops; int peak=0; std::vector<std::pair<int,int>> bookings; std::map<int,std::array<int,2>> counts; int kinds=0, ooo=0; };
static Script script (vp::Case& c, int M, int nops, int ns, bool dirty_start, bool clean_end, bool slow) {
  Script r; Model m(M); std::set<int> ks; auto add=[&](Op o){ if (slow && c.chance(1,2)) { o.who=(int)c.below(8); o.wait=c.irange(1,12); } o.used=m.used; m.peak=std::max(m.peak,m.used); ks.insert(o.k); r.ops.push_back(o); };
  auto book=[&](int nm, int w){ r.counts[nm][w]++; }; auto drop_all=[&]{ for (auto& x:m.held) book(x.second.name,1); };
  auto grab=[&](Op& o, int i, int slot, int n, int group, int pos, bool macro){ int h=m.nh++; o.h[i]=h; o.name[i]=(int)c.below(c.b()?8:NN); m.held[h]=Hold{slot,n,o.s,group,pos,macro,o.name[i]}; book(o.name[i],0); };
  if (dirty_start) { Op o; if (c.b()) { o.k=Reset; m.clear(); add(o); } else { o.k=AndReset; o.n=c.irange(1,std::min(4,M)); o.s=(int)c.below(ns); m.clear(); int g=m.ngroup++; for (int i=0;i<o.n;++i) { m.freel.erase(m.freel.begin()); grab(o,i,i,1,g,i,false); } m.used=o.n; add(o); } }
  for (int q=0;q<nops;++q) { if (m.nh>MAXH-8) break; Op o; o.s=(int)c.below(ns); int room=(int)m.freel.size(); int k=c.weighted({8,4,2,4,3,1,10,3,3,1,3,1,1}); o.k=(Kind)k;
    switch (o.k) { case Take: if (room<1) continue; { int s=m.freel[0]; m.freel.erase(m.freel.begin()); grab(o,0,s,1,-1,0,false); m.used+=1; break; }
      case Many: case Refs: case Contig: { int mx=o.k==Contig?m.run():room; if (mx<1) continue; if (o.k==Refs) o.s=0; o.n=c.irange(1,std::min(o.k==Refs?3:4,mx)); int g=m.ngroup++; bool adj=m.run()>=o.n; for (int i=0;i<o.n;++i) { int s=m.freel[0]; m.freel.erase(m.freel.begin()); grab(o,i,s,1,adj?g:-1,i,false); } m.used+=o.n; break; }
      case Macro: { int mx=m.run(); if (mx<1) continue; o.n=c.irange(1,mx); int s=m.freel[0]; m.freel.erase(m.freel.begin(),m.freel.begin()+o.n); grab(o,0,s,o.n,-1,0,true); m.used+=o.n; break; }
      case AndReset: { o.n=c.irange(1,std::min(4,M)); drop_all(); m.clear(); int g=m.ngroup++; for (int i=0;i<o.n;++i) { m.freel.erase(m.freel.begin()); grab(o,i,i,1,g,i,false); } m.used=o.n; break; }
      case Release: { std::vector<int> hs; for (auto& x:m.held) if (!x.second.macro) hs.push_back(x.first); if (hs.empty()) continue; int h=c.pick(hs); if (h!=m.held.rbegin()->first) ++r.ooo; o.h[0]=h; Hold x=m.held[h]; o.s=x.s; m.held.erase(h); m.freel.insert(m.freel.begin(),x.slot); m.used-=1; book(x.name,1); break; }
      case RelMany: { std::vector<std::vector<int>> runs; for (auto& x:m.held) if (x.second.group>=0) { std::vector<int> run{x.first}; Hold a=x.second; for (auto& y:m.held) if (y.second.group==a.group && y.second.pos==a.pos+1) { run.push_back(y.first); a=y.second; if (run.size()==4) break; } runs.push_back(run); } if (runs.empty()) continue; auto run=c.pick(runs); o.n=c.b()?(int)run.size():c.irange(1,(int)run.size()); o.s=m.held[run[0]].s; if (run[o.n-1]!=m.held.rbegin()->first) ++r.ooo; for (int i=o.n-1;i>=0;--i) { o.h[i]=run[i]; Hold x=m.held[run[i]]; m.freel.insert(m.freel.begin(),x.slot); book(x.name,1); } for (int i=0;i<o.n;++i) m.held.erase(o.h[i]); m.used-=o.n; break; }
      case RelMacro: { std::vector<int> hs; for (auto& x:m.held) if (x.second.macro) hs.push_back(x.first); if (hs.empty()) continue; int h=c.pick(hs); if (h!=m.held.rbegin()->first) ++r.ooo; Hold x=m.held[h]; o.h[0]=h; o.s=x.s; o.n=x.n; m.held.erase(h); for (int i=x.n-1;i>=0;--i) m.freel.insert(m.freel.begin(),x.slot+i); m.used-=x.n; book(x.name,1); break; }
      case Reset: drop_all(); m.clear(); break;
      default: break; }
    add(o); }
  if (clean_end) { if (c.b() || m.held.empty()) { if (!m.held.empty() || c.chance(1,4)) { Op o; o.k=Reset; drop_all(); m.clear(); add(o); } } else while (!m.held.empty()) { Op o; int h=m.held.rbegin()->first; Hold x=m.held[h]; o.k=x.macro?RelMacro:Release; o.h[0]=h; o.s=x.s; o.n=x.n; m.held.erase(h); for (int i=x.n-1;i>=0;--i) m.freel.insert(m.freel.begin(),x.slot+i); m.used-=x.n; book(x.name,1); add(o); } }
  // A stack leaves the free list in its first order only by a reset; other teams start where this one ends
  if (clean_end) { bool order=true; for (int i=0;i<M;++i) order=order&&m.freel[i]==i; if (!order) { Op o; o.k=Reset; m.clear(); add(o); } }
  r.peak=m.peak; r.kinds=(int)ks.size(); return r; }
static std::string text (const Op& o) { std::ostringstream s; s << kname[o.k]; if (o.k==Contig||o.k==Many||o.k==Refs||o.k==Macro||o.k==AndReset||o.k==RelMany||o.k==RelMacro) s << "<" << o.n << ">"; bool first=true; for (int i=0;i<4;++i) if (o.h[i]>=0) { s << (first?" ":",") << "#" << o.h[i]; first=false; } if (o.k<=AndReset && o.s) s << " as type " << o.s; if (o.who>=0) s << " (wait " << o.who << ":" << o.wait << ")"; return s.str(); }
template<typename T> struct Types { using A=T; using B=T; using C=T; };
template<> struct Types<double> { using A=double; using B=int; using C=char; };
template<> struct Types<int> { using A=int; using B=float; using C=short; };
template<> struct Types<ekat::Pack<double,2>> { using A=ekat::Pack<double,2>; using B=double; using C=int; };
template<> struct Types<float> { using A=float; using B=int; using C=char; };
struct HT { char* p; long bytes; int n; int s; bool macro; };
struct Run { const Op* ops; const int *lo, *hi; long size; int tsz; char** ptr; long* ext; Err* err; int ts; };
static void fail (const Run& r, int team, int rank, int op, int h, int what, long at) { if (r.err->n++==0) { r.err->team=team; r.err->rank=rank; r.err->op=op; r.err->h=h; r.err->what=what; r.err->at=at; } }
// one thread's view of the history
template<typename T, typename Member, typename WS> struct Player {
  const Run& r; const Member& t; WS& ws; HT* ht; int l, rank; const Op* o; int oi;
  void put (int h, char* p, long ext, int s, long es, bool macro, int n) { r.ptr[((long)l*r.ts+rank)*MAXH+h]=p; r.ext[((long)l*r.ts+rank)*MAXH+h]=ext; HT& x=ht[h]; x.p=p; x.bytes=macro?n*r.size*r.tsz:ext*es; x.n=n; x.s=s; x.macro=macro; for (long k=rank;k<x.bytes;k+=r.ts) x.p[k]=(char)pat(l,h,k); }
  void look (int h) { HT& x=ht[h]; if (!x.p) return; for (long k=rank;k<x.bytes;k+=r.ts) if ((unsigned char)x.p[k]!=pat(l,h,k)) { fail(r,l,rank,oi,h,1,k); return; } }
  template<typename S, typename V> void got (int i, const V& v) { put(o->h[i],(char*)v.data(),(long)v.extent(0),o->s,sizeof(S),false,1); named(i,v); }
  template<typename V> void named (int i, const V& v) {
#ifndef NDEBUG
    if (rank==0 && std::string(ws.get_name(v))!=names[o->name[i]]) fail(r,l,rank,oi,o->h[i],2,0);
#else
    (void)i; (void)v;
#endif
  }
  template<typename S> Unmanaged<V1<S>> view (int h) { return Unmanaged<V1<S>>((S*)ht[h].p,r.size*r.tsz/(long)sizeof(S)); }
  template<typename S, size_t N> void many () { Unmanaged<V1<S>> v[N]; Kokkos::Array<const char*,N> nm; typename ekat::KokkosTypes<Dev>::template view_1d_ptr_array<S,N> p; for (size_t i=0;i<N;++i) { nm[i]=names[o->name[i]]; p[i]=&v[i]; }
    if (o->k==Many) ws.template take_many<N,S>(nm,p); else if (o->k==Contig) ws.template take_many_contiguous_unsafe<N,S>(nm,p); else ws.template take_many_and_reset<N,S>(nm,p); for (size_t i=0;i<N;++i) got<S>((int)i,v[i]); }
  template<typename S, size_t N> void relmany () { Unmanaged<V1<S>> v[N]; typename ekat::KokkosTypes<Dev>::template view_1d_ptr_array<S,N> p; for (size_t i=0;i<N;++i) { look(o->h[i]); v[i]=view<S>(o->h[i]); p[i]=&v[i]; ht[o->h[i]].p=nullptr; } ws.template release_many_contiguous<N,S>(p); }
  template<typename S> void as () {
    switch (o->k) { case Take: got<S>(0,ws.template take<S>(names[o->name[0]])); break;
      case Many: case Contig: case AndReset: switch (o->n) { case 1: many<S,1>(); break; case 2: many<S,2>(); break; case 3: many<S,3>(); break; default: many<S,4>(); } break;
      case Refs: if constexpr (std::is_same<S,T>::value) { Unmanaged<V1<S>> a,b,c; if (o->n==1) ws.take_many_refs({{names[o->name[0]]}},a); else if (o->n==2) ws.take_many_refs({{names[o->name[0]],names[o->name[1]]}},a,b); else ws.take_many_refs({{names[o->name[0]],names[o->name[1]],names[o->name[2]]}},a,b,c); got<S>(0,a); if (o->n>1) got<S>(1,b); if (o->n>2) got<S>(2,c); } break;
      case Macro: { auto v=ws.template take_macro_block<S>(names[o->name[0]],o->n); named(0,v); put(o->h[0],(char*)v.data(),(long)v.extent(0),o->s,sizeof(S),true,o->n); break; }
      case Release: { look(o->h[0]); auto v=view<S>(o->h[0]); ht[o->h[0]].p=nullptr; ws.release(v); break; }
      case RelMany: switch (o->n) { case 1: relmany<S,1>(); break; case 2: relmany<S,2>(); break; case 3: relmany<S,3>(); break; default: relmany<S,4>(); } break;
      case RelMacro: { look(o->h[0]); auto v=view<S>(o->h[0]); ht[o->h[0]].p=nullptr; ws.template release_macro_block<S>(v,o->n); break; }
      default: break; } }
  void step () { if (o->who>=0 && o->who%r.ts==rank) dally(o->wait); if (o->k==Reset||o->k==AndReset) for (int h=0;h<MAXH;++h) { look(h); ht[h].p=nullptr; } 
    if (o->k==Reset) ws.reset(); else if (o->k==Look) { for (int h=0;h<MAXH;++h) look(h); } else if (o->k==Print) ws.print(); else if (o->s==0) as<typename Types<T>::A>(); else if (o->s==1) as<typename Types<T>::B>(); else as<typename Types<T>::C>();
#ifndef NDEBUG
    if (rank==0 && unit_test::UnitWrap::used(ws)!=o->used) fail(r,l,rank,oi,-1,3,unit_test::UnitWrap::used(ws));
#endif
  } };
template<typename T, typename Member, typename WS> static void play (const Run& r, const Member& t, WS& ws, HT* ht, int& i) { const int l=t.league_rank(); for (;i<r.hi[l];++i) { if (r.ops[i].k==Again) { ++i; return; } Player<T,Member,WS> p{r,t,ws,ht,l,t.team_rank(),&r.ops[i],i-r.lo[l]}; p.step(); } }
template<typename T> void histories (vp::Case& c, bool single) {
  using WSM=ekat::WorkspaceManager<T,Dev>; using Member=typename WSM::MemberType; const int conc=Exe().concurrency();
  int ts=single?1:c.b()?c.irange(1,conc):c.irange(1,std::min(conc,3)); int M=c.irange(1,9); int size=c.chance(1,3)?c.irange(1,4):c.irange(1,40); if (sizeof(T)==4) size+=size%2; int league=single?1:c.chance(1,3)?c.irange(1,2):c.irange(1,std::max(2,2*conc/ts+1)); bool own=c.chance(1,3); bool slow=ts>1 && c.chance(1,2); int kernels=c.irange(1,2); bool defer=c.b();
  c.d << conc << " threads, " << league << " teams of " << ts << ", " << M << " arrays of " << size << " elements of " << sizeof(T) << " bytes" << (own?", own memory":"") << (defer?", set up later":"") << "; ";
  auto pol=PF::get_team_policy_force_team_size(league,ts); ekat::TeamUtils<T,Exe> tu(pol); const int slots=tu.get_num_ws_slots(); const int bytes=WSM::get_total_bytes_needed(size,M,pol); VP_CHECK(bytes>=(long)slots*M*size*(long)sizeof(T),"bytes needed: " << bytes); constexpr int G=64; std::vector<char> mem(own?bytes+2*G+16:0,(char)0x5a); char* base=own?mem.data()+G:nullptr; if (own) while ((uintptr_t)base%16) ++base;
  WSM w; if (defer) { if (own) w.setup((T*)base,size,M,pol); else w.setup(size,M,pol); } else { if (own) w=WSM((T*)base,size,M,pol); else w=WSM(size,M,pol); }
  int ooo=0, nops=0, peak=0, kindsn=0; std::map<std::string,std::array<int,2>> counts; bool dirty=false;
  for (int q=0;q<kernels;++q) {
    if (q && (dirty || c.b())) { c.d << "| reset_internals "; w.reset_internals(); counts.clear(); peak=0; }
    bool dirty_start=c.chance(1,4), clean_end=!(league<=slots && c.chance(1,4)); dirty=!clean_end; std::vector<Op> ops; std::vector<int> lo, hi; std::vector<Script> sc; for (int l=0;l<league;++l) { Script s=script(c,M,c.irange(1,single?30:14),3,dirty_start,clean_end,slow); ooo+=s.ooo; kindsn=std::max(kindsn,s.kinds); nops+=(int)s.ops.size(); peak=std::max(peak,s.peak); for (auto& x:s.counts) { counts[names[x.first]][0]+=x.second[0]; counts[names[x.first]][1]+=x.second[1]; } lo.push_back((int)ops.size()); ops.insert(ops.end(),s.ops.begin(),s.ops.end()); hi.push_back((int)ops.size()); c.d << "team " << l << ":"; for (auto& o:s.ops) c.d << " " << text(o) << ";"; c.d << " "; sc.push_back(s); }
    std::vector<char*> ptr((size_t)league*ts*MAXH,nullptr); std::vector<long> ext(ptr.size(),-1); Err err; Run r{ops.data(),lo.data(),hi.data(),size,(int)sizeof(T),ptr.data(),ext.data(),&err,ts}; const Run* pr=&r;
    Kokkos::parallel_for(pol,KOKKOS_LAMBDA(const Member& t){ HT ht[MAXH]; for (int h=0;h<MAXH;++h) ht[h].p=nullptr; int i=pr->lo[t.league_rank()]; do { auto ws=w.get_workspace(t,"team"); using WS=typename WSM::Workspace; play<T,Member,WS>(*pr,t,ws,ht,i); if (i>=pr->hi[t.league_rank()]) { Player<T,Member,WS> p{*pr,t,ws,ht,t.league_rank(),t.team_rank(),nullptr,-1}; for (int h=0;h<MAXH;++h) p.look(h); } } while (i<pr->hi[t.league_rank()]); });
    if (err.n) { std::string o=err.op>=0?text(ops[lo[err.team]+err.op]):"the end"; if (err.what==1) VP_FAIL("kernel " << q << " team " << err.team << " thread " << err.rank << " at " << o << " (operation " << err.op << "): byte " << err.at << " of array #" << err.h << " changed while it was held"); if (err.what==2) VP_FAIL("kernel " << q << " team " << err.team << ": get_name of #" << err.h << " after " << o << " (operation " << err.op << ")"); VP_FAIL("kernel " << q << " team " << err.team << ": get_num_used is " << err.at << " after " << o << " (operation " << err.op << "), expected " << ops[lo[err.team]+err.op].used); }
    // the arrays handed out, against the history
    std::vector<std::map<long,int>> dummy; std::map<char*,int> region; for (int l=0;l<league;++l) { std::map<int,std::pair<char*,char*>> held; auto P=[&](int rk, int h){ return ptr[((long)l*ts+rk)*MAXH+h]; };
      for (int i=lo[l];i<hi[l];++i) { const Op& o=ops[i]; std::string at="kernel "+std::to_string(q)+" team "+std::to_string(l)+" "+text(o)+" (operation "+std::to_string(i-lo[l])+")"; if (o.k==Reset||o.k==AndReset) held.clear(); if (o.k==Release||o.k==RelMany||o.k==RelMacro) for (int h:o.h) held.erase(h);
        if (o.k<=AndReset) for (int j=0;j<4;++j) if (o.h[j]>=0) { int h=o.h[j]; using TT=Types<T>; long es=o.s==0?sizeof(typename TT::A):o.s==1?sizeof(typename TT::B):sizeof(typename TT::C); long want=size*(long)sizeof(T)/es; for (int rk=0;rk<ts;++rk) { VP_CHECK(P(rk,h)==P(0,h),at << ": thread " << rk << " has #" << h << " " << (P(rk,h)-P(0,h)) << " bytes away from where thread 0 has it"); VP_CHECK(ext[((long)l*ts+rk)*MAXH+h]==want,at << ": #" << h << " has " << ext[((long)l*ts+rk)*MAXH+h] << " elements, expected " << want); }
            char* a=P(0,h); char* b=a+(o.k==Macro?(long)o.n*size*(long)sizeof(T):want*es); if (own) VP_CHECK(a>=base && b<=base+bytes,at << ": #" << h << " is at " << (a-base) << " of " << bytes << " bytes"); for (auto& x:held) VP_CHECK(b<=x.second.first || x.second.second<=a,at << ": #" << h << " overlaps #" << x.first); held[h]={a,b}; } } }
    if (own) for (char& x:mem) if (&x<base || &x>=base+bytes) VP_CHECK(x==(char)0x5a,"kernel " << q << ": wrote outside the memory given"); }
#ifndef NDEBUG
  if (c.chance(1,6)) { std::ostringstream o; std::streambuf* old=std::cout.rdbuf(o.rdbuf()); w.report(); std::cout.rdbuf(old); c.label("report"); std::string t=o.str(); int hw=-1; std::regex rh("high-water ([0-9]+)"), rs("'([^']*)' was used by [0-9]+ wsindices with ([0-9]+) takes and ([0-9]+) releases"); for (std::sregex_iterator i(t.begin(),t.end(),rh), e;i!=e;++i) hw=std::max(hw,atoi((*i)[1].str().c_str())); VP_CHECK(hw==peak,"the high-water mark reported is " << hw << ", expected " << peak); std::map<std::string,std::array<int,2>> got; for (std::sregex_iterator i(t.begin(),t.end(),rs), e;i!=e;++i) got[(*i)[1].str()]={atoi((*i)[2].str().c_str()),atoi((*i)[3].str().c_str())}; for (auto& x:counts) VP_CHECK(got.count(x.first) && got[x.first]==x.second,"the report counts " << (got.count(x.first)?got[x.first][0]:-1) << " takes and " << (got.count(x.first)?got[x.first][1]:-1) << " releases of " << x.first << ", expected " << x.second[0] << " and " << x.second[1]); }
#endif
  c.nontrivial(nops>=4 && kindsn>=3); c.label("released out of order",ooo>0); c.label("full",peak==M); c.label("more teams than slots",league>slots); c.label("several threads per team",ts>1); c.label("more than one kernel",kernels>1); }
VP_INST(1,void histories<double>(vp::Case&,bool)) VP_INST(1,void histories<int>(vp::Case&,bool)) VP_INST(2,void histories<char>(vp::Case&,bool)) VP_INST(2,void histories<ekat::Pack<double,2>>(vp::Case&,bool))
#if VP_IN(0)
VP_PROP_ND(team_histories, 8000, 150000, "leagues of teams, each with its own history of all kinds of takes, releases in any order and resets, with arrays taken as several types, in managed and given memory, over one or two kernels with waits in single threads: addresses, sizes and contents of all arrays, counts and names; non-trivial: a history of at least four operations of three kinds") { switch (c.below(4)) { case 0: histories<double>(c,false); break; case 1: histories<int>(c,false); break; case 2: histories<ekat::Pack<double,2>>(c,false); break; default: histories<char>(c,false); } }
VP_PROP_ND(one_thread_histories, 20000, 400000, "longer histories of a single team of one thread; non-trivial: at least four operations of three kinds") { switch (c.below(5)) { case 0: histories<double>(c,true); break; case 1: histories<float>(c,true); break; case 2: histories<short>(c,true); break; case 3: histories<int>(c,true); break; default: histories<char>(c,true); } }
#endif
