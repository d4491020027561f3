// C33: helpers for kernels against the standard library, in the host configuration and in the one for GPUs (compiled for this
// host), kernel checks observed in child processes, and type facts of scalars, packs, masks and unmanaged views.
#define VP_MAIN
#include "vp.hpp"
#include <Kokkos_Core.hpp>
#ifdef VP_GPU
#define EKAT_ENABLE_GPU
#endif
#include "ekat_kokkos_str_utils.hpp"
#include "ekat_math_utils.hpp"
#include "ekat_upper_bound.hpp"
#undef EKAT_ENABLE_GPU
#ifndef VP_GPU
#include "ekat_pack.hpp"
#include "ekat_kokkos_meta.hpp"
#endif
#include <algorithm>
#include <cmath>
#include <cstring>
#include <sys/resource.h>
void vp_init (int&, char**&) {}
void vp_fini () {}
// ---- strings -----------------------------------------------------------------------------------------------------------------
static std::string text (vp::Case& c) { int n=c.chance(1,8)?c.irange(20,300):c.irange(0,8); std::string s; int kind=(int)c.below(3); for (int i=0;i<n;++i) s+=kind==0?(char)c.pick({'a','b'}):kind==1?(char)c.range(1,255):(char)c.pick({1,127,128,255}); return s; }
struct Mem { std::unique_ptr<char[]> p; size_t n; Mem (size_t k, char fill) : p(new char[k]), n(k) { std::memset(p.get(),fill,k); } };   // exactly as long as it must be
VP_PROP(strings, 40000, 800000, "lengths, copies and comparisons of strings in blocks of exactly their size, all byte values: against std::strlen, strcpy, strcmp; non-trivial: a non-empty string") {
  std::string s=text(c), t=c.chance(2,3)?s:text(c); if (!t.empty() && c.chance(1,2)) { size_t k=c.below(t.size()); switch (c.below(3)) { case 0: t[k]=(char)c.range(1,255); break; case 1: t.resize(k); break; default: t+=text(c); } }
  c.d << vp::quote(s) << " and " << vp::quote(t); Mem a(s.size()+1,0), b(t.size()+1,0); std::memcpy(a.p.get(),s.c_str(),s.size()+1); std::memcpy(b.p.get(),t.c_str(),t.size()+1);
  size_t l=ekat::impl::strlen(a.p.get()); VP_CHECK(l==s.size(),"strlen gives " << l << " for " << s.size());
  auto sg=[](int x){ return x<0?-1:x>0?1:0; }; int w=sg(std::strcmp(s.c_str(),t.c_str())), g=sg(ekat::impl::strcmp(a.p.get(),b.p.get())), r=sg(ekat::impl::strcmp(b.p.get(),a.p.get())); VP_CHECK(g==w && r==-w,"strcmp gives sign " << g << " and " << r << " the other way, expected " << w);
  Mem d(s.size()+1+9,'#'); ekat::impl::strcpy(d.p.get()+4,a.p.get()); bool ok=true; for (size_t k=0;k<d.n;++k) ok&=d.p[k]==(k>=4&&k<4+s.size()+1?s.c_str()[k-4]:'#'); VP_CHECK(ok,"strcpy wrote something else");
  VP_CHECK(!std::memcmp(a.p.get(),s.c_str(),s.size()+1) && !std::memcmp(b.p.get(),t.c_str(),t.size()+1),"an operand changed"); c.nontrivial(!s.empty()); c.label("equal",s==t); c.label("bytes above 127",std::any_of(s.begin(),s.end(),[](char x){ return (unsigned char)x>127; })); }
// ---- numbers -----------------------------------------------------------------------------------------------------------------
template<typename T> static T value (vp::Case& c, bool small) { if constexpr (std::is_floating_point<T>::value) { if (small) return (T)c.irange(-3,3)/(T)2; for (;;) { T x=c.real<T>(); if (x==x) return x; } } else { if (small) return std::is_signed<T>::value?(T)c.irange(-3,3):(T)c.irange(0,6); return c.b()?(T)c.draw(~0ull):c.pick(std::vector<T>{std::numeric_limits<T>::min(),std::numeric_limits<T>::max(),(T)0,(T)1,(T)-1}); } }
template<typename T> static void extremes (vp::Case& c) {
  bool small=c.b(); T a=value<T>(c,small), b=c.chance(1,4)?a:value<T>(c,small); std::ostringstream o; o << +a << ", " << +b; c.d << o.str(); T mn=ekat::impl::min(a,b), mx=ekat::impl::max(a,b); VP_CHECK(mn==std::min(a,b) && mx==std::max(a,b),"min, max of " << o.str() << " are " << +mn << ", " << +mx);
  int n=c.irange(1,c.chance(1,4)?60:6); std::vector<T> v; for (int k=0;k<n;++k) v.push_back(value<T>(c,small)); int lo=c.chance(1,4)?c.irange(0,n):0, hi=c.chance(1,4)?c.irange(lo,n):n; std::unique_ptr<T[]> x(new T[hi-lo]); std::copy(v.begin()+lo,v.begin()+hi,x.get());
  const T* p=x.get(); long got=ekat::impl::max_element(p,p+(hi-lo))-p, want=std::max_element(p,p+(hi-lo))-p; o.str(""); for (int k=0;k<hi-lo;++k) o << " " << +p[k]; c.d << ";" << o.str(); VP_CHECK(got==want,"the largest of" << o.str() << " is said to be number " << got << " instead of " << want);
  std::sort(x.get(),x.get()+(hi-lo)); T y=hi>lo&&c.chance(2,3)?x[c.below((size_t)(hi-lo))]:value<T>(c,small); got=ekat::upper_bound(p,p+(hi-lo),y)-p; want=std::upper_bound(p,p+(hi-lo),y)-p; VP_CHECK(got==want,"the upper bound of " << +y << " among" << o.str() << " (sorted) is " << got << " instead of " << want);
  bool fin=ekat::impl::isfinite(a), nan=ekat::impl::is_nan(a); VP_CHECK(fin==(std::is_floating_point<T>::value?std::isfinite((double)a)||(sizeof(T)>4?false:std::isfinite(a)):true) && !nan,"isfinite(" << +a << ")=" << fin << " is_nan=" << nan);
  c.nontrivial(hi-lo>1); c.label("repeated maximum",hi-lo>1 && std::count(p,p+(hi-lo),p[hi-lo-1])>1); c.label("nothing to search",hi==lo); }
VP_PROP(numbers, 60000, 1200000, "min, max, max_element, upper_bound on int, long, short, unsigned, float, double arrays with repeated and extreme values against std; non-trivial: at least two elements") { switch (c.below(7)) { case 0: extremes<int>(c); break; case 1: extremes<long>(c); break; case 2: extremes<short>(c); break; case 3: extremes<unsigned>(c); break; case 4: extremes<float>(c); break; case 5: extremes<unsigned long>(c); break; default: extremes<double>(c); } }
template<typename T> static void special (vp::Case& c) { T x=c.chance(1,3)?c.pick(std::vector<T>{std::numeric_limits<T>::infinity(),-std::numeric_limits<T>::infinity(),std::numeric_limits<T>::quiet_NaN(),-std::numeric_limits<T>::quiet_NaN(),std::numeric_limits<T>::max(),std::numeric_limits<T>::denorm_min()}):c.real<T>(); c.d << x; bool f=ekat::impl::isfinite(x), n=ekat::impl::is_nan(x); VP_CHECK(f==std::isfinite(x) && n==std::isnan(x),"isfinite(" << x << ")=" << f << ", is_nan=" << n);
  T a=c.real<T>(), b=c.b()?c.real<T>():a*(T)(1+c.irange(-3,3)*(double)std::numeric_limits<T>::epsilon()); if (a!=a||b!=b) return; T got=ekat::impl::rel_diff(a,b), want=std::abs(b-a)/std::abs(a); VP_CHECK((got!=got && want!=want) || got==want,"rel_diff(" << a << "," << b << ")=" << got << ", expected " << want); c.nontrivial(a!=b && std::isfinite(a) && std::isfinite(b)); c.label("not finite",!f); }
VP_PROP(finiteness, 30000, 600000, "isfinite, is_nan and rel_diff on special and ordinary floats and doubles; non-trivial: two different finite values") { if (c.b()) special<float>(c); else special<double>(c); }
template<typename I, typename J> static void limits_ (vp::Case& c) { bool any=c.chance(1,4); auto v=[&]{ return any?value<I>(c,false):std::is_signed<I>::value?(I)c.range(-100000,100000):(I)c.range(0,200000); }; I a=v(), b=c.chance(1,5)?a:v(); J s=(J)c.irange(1,c.b()?4:64); c.d << +a << " " << +b << " / " << +s; I lo=77, hi=77; ekat::impl::set_min_max(a,b,lo,hi); VP_CHECK(lo==std::min(a,b) && hi==std::max(a,b),"limits " << +lo << ", " << +hi);
  ekat::impl::set_min_max(a,b,lo,hi,s); I wl=(I)(std::min(a,b)/s), wh=(I)(std::max(a,b)/s); VP_CHECK(lo==wl && hi==wh,"limits over " << +s << ": " << +lo << ", " << +hi << ", expected " << +wl << ", " << +wh); c.nontrivial(a!=b && s>1); c.label("descending",a>b); }
VP_PROP(index_limits, 20000, 400000, "set_min_max with and without a vector size, both orders; non-trivial: different limits and a size above one") { switch (c.below(4)) { case 0: limits_<int,int>(c); break; case 1: limits_<long,int>(c); break; case 2: limits_<unsigned long,unsigned long>(c); break; default: limits_<int,short>(c); } }
// ---- checks ------------------------------------------------------------------------------------------------------------------
struct Out { bool aborted=false, ended=false; int status=0; std::string text; };
template<typename F> static Out child (F&& f) { Out o; int fd[2]; if (pipe(fd)) VP_FAIL("no pipe"); fflush(stdout); fflush(stderr); pid_t p=fork();
  if (p==0) { rlimit l{0,0}; setrlimit(RLIMIT_CORE,&l); ::close(fd[0]); dup2(fd[1],1); int n=open("/dev/null",O_WRONLY); dup2(n,2); setvbuf(stdout,nullptr,_IONBF,0); signal(SIGABRT,SIG_DFL); int r=0; try { r=f(); } catch (...) { _exit(99); } _exit(r); }
  ::close(fd[1]); char b[4096]; ssize_t k; while ((k=read(fd[0],b,sizeof b))>0 || (k<0 && errno==EINTR)) if (k>0) o.text.append(b,(size_t)k); ::close(fd[0]); int st=0; while (waitpid(p,&st,0)<0 && errno==EINTR) {} o.aborted=WIFSIGNALED(st)&&WTERMSIG(st)==SIGABRT; o.ended=WIFEXITED(st); o.status=WIFEXITED(st)?WEXITSTATUS(st):-1; return o; }
VP_PROP(kernel_checks, 1500, 30000, "sequences of kernel checks of all kinds with conditions that hold or not: the first violated one stops the program, naming its condition and message, and no other does; every condition is evaluated once; non-trivial: a check after the first") {
  int n=c.irange(1,6), bad=c.chance(2,3)?c.irange(0,n-1):n; std::vector<int> kind; std::string d; for (int k=0;k<n;++k) { int q=c.irange(0,6); if (q==4 && k!=bad) q=1; kind.push_back(q); d+=std::string(k?" ":"")+std::to_string(q)+(k==bad?"!":""); } std::string msg=c.pick(std::vector<std::string>{"","some message","100% of %s %d","two\nlines",std::string(300,'m')}); c.d << d << " " << vp::quote(msg.substr(0,20));
#ifdef NDEBUG
  const bool dbg=false;
#else
  const bool dbg=true;
#endif
  int stop=bad<n && (dbg || kind[bad]<2 || kind[bad]==4 || kind[bad]==5)?bad:n, evals=0; for (int k=0;k<n && k<=stop;++k) evals+=kind[k]<2||kind[k]==5?1:kind[k]!=4?(dbg?1:0):0;
  Out o=child([&]{ int evaluated=0; auto holds=[&](bool x){ ++evaluated; return x; }; (void)holds; const int s5=n+5, d2=n+2, n7=1; (void)s5; (void)d2; (void)n7; for (int k=0;k<n;++k) { const bool good=k!=bad; switch (kind[k]) {
      case 0: if (good) EKAT_KERNEL_REQUIRE(holds(true)); else EKAT_KERNEL_REQUIRE(holds(good)); break;
      case 1: EKAT_KERNEL_REQUIRE_MSG(holds(good),msg.c_str()); break;
      case 2: EKAT_KERNEL_ASSERT(holds(good)); break;
      case 3: EKAT_KERNEL_ASSERT_MSG(holds(good) && k<100,msg.c_str()); break;
      case 5: EKAT_KERNEL_REQUIRE_MSG(holds(good) && n%s5==n%d2,msg.c_str()); break;   // a condition that looks like a format
      case 6: EKAT_KERNEL_ASSERT(n%n7==0 && holds(good) && msg!="%f\n%%"); break;
      default: EKAT_KERNEL_ERROR_MSG(msg.c_str()); } (void)good; } return 10+evaluated; });
  if (stop==n) { VP_CHECK(o.ended && o.status==10+evals,(o.aborted?"aborted":"ended")<< " with " << o.status << ", expected that nothing happens and " << evals << " conditions are evaluated"); VP_CHECK(o.text.empty(),"printed " << vp::quote(o.text)); }
  else { VP_CHECK(o.aborted,"not stopped (status " << o.status << ") although check " << stop << " is violated"); std::string cond=kind[stop]==3?"holds(good) && k<100":kind[stop]==4?"":kind[stop]==5?"holds(good) && n%s5==n%d2":kind[stop]==6?"n%n7==0 && holds(good) && msg!=\"%f\\n%%\"":"holds(good)"; VP_CHECK(o.text.find(cond)!=std::string::npos,"the condition " << cond << " is not named: " << vp::quote(o.text)); if (kind[stop]%2==1 || kind[stop]==4) VP_CHECK(o.text.find(msg)!=std::string::npos,"the message is missing: " << vp::quote(o.text)); }
  c.nontrivial(n>1); c.label("stopped",stop<n); c.label("violated assertion in an optimized build",bad<n && stop==n); }
#ifndef VP_GPU
// ---- types -------------------------------------------------------------------------------------------------------------------
struct Fact { std::string what; bool holds; bool nt; };
template<typename A, typename B> constexpr bool same=std::is_same<A,B>::value;
template<typename Q, typename V, typename S, bool simd, bool fp, bool spec> static void traits1 (std::vector<Fact>& f, const std::string& n, bool nt) { using X=ekat::ScalarTraits<Q>; f.push_back({"value_type of "+n,same<typename X::value_type,V>,nt}); f.push_back({"scalar_type of "+n,same<typename X::scalar_type,S>,nt}); f.push_back({"is_simd of "+n,X::is_simd==simd,nt}); f.push_back({"is_floating_point of "+n,X::is_floating_point==fp,nt}); f.push_back({"specialized of "+n,X::specialized==spec,nt}); }
template<typename V, typename S, bool simd, bool fp, bool spec> static void traits (std::vector<Fact>& f, const std::string& n) { traits1<V,V,S,simd,fp,spec>(f,n,simd);
#define Q_(t) traits1<t,V,S,simd,fp,spec>(f,std::string(#t)+" with "+n,true);
  Q_(const V) Q_(volatile V) Q_(const volatile V) Q_(V&) Q_(const V&) Q_(V&&) Q_(const V&&) Q_(volatile V&)
}
template<typename T> static void plain (std::vector<Fact>& f, const std::string& n) { constexpr bool fp=std::is_floating_point<T>::value; traits<T,T,false,fp,false>(f,n); constexpr T x=ekat::invalid<T>(); f.push_back({"invalid of "+n,fp?x!=x:x==std::numeric_limits<T>::max(),true}); }
template<typename T, int N> static void pack (std::vector<Fact>& f, const std::string& n) { using P=ekat::Pack<T,N>; constexpr bool fp=std::is_floating_point<T>::value; std::string m="Pack<"+n+","+std::to_string(N)+">"; traits<P,T,true,fp,true>(f,m); P x=ekat::invalid<P>(); bool ok=true; for (int k=0;k<N;++k) ok&=fp?x[k]!=x[k]:x[k]==std::numeric_limits<T>::max(); f.push_back({"invalid of "+m,ok,true}); f.push_back({"n of "+m,P::n==N,true}); f.push_back({"scalar of "+m,same<typename P::scalar,T>,true}); }
template<int N> static void packs (std::vector<Fact>& f) { pack<int,N>(f,"int"); pack<long,N>(f,"long"); pack<float,N>(f,"float"); pack<double,N>(f,"double"); using M=ekat::Mask<N>; traits<M,typename M::type,true,false,true>(f,"Mask<"+std::to_string(N)+">"); f.push_back({"n of the mask",M::n==N,true}); }
template<typename D, typename L, unsigned M> static void view (std::vector<Fact>& f, const std::string& n) { using V=Kokkos::View<D,L,Kokkos::HostSpace::device_type,Kokkos::MemoryTraits<M>>; using U=ekat::Unmanaged<V>; using MT=typename U::traits::memory_traits; std::string m=n+" with traits "+std::to_string(M);
  f.push_back({"data type of an unmanaged "+m,same<typename U::traits::data_type,typename V::traits::data_type> && same<typename U::traits::value_type,typename V::traits::value_type>,true}); f.push_back({"layout of an unmanaged "+m,same<typename U::traits::array_layout,L>,true}); f.push_back({"device of an unmanaged "+m,same<typename U::traits::device_type,typename V::traits::device_type>,true});
  auto bit=[](unsigned b){ return (M&b)!=0; }; f.push_back({"traits of an unmanaged "+m,MT::is_unmanaged && bool(MT::is_random_access)==bit(Kokkos::RandomAccess) && bool(MT::is_atomic)==bit(Kokkos::Atomic) && bool(MT::is_restrict)==bit(Kokkos::Restrict) && bool(MT::is_aligned)==bit(Kokkos::Aligned),true}); f.push_back({"mask of "+m,(unsigned)ekat::MemoryTraitsMask<V>::value==M,true}); f.push_back({"unmanaged twice "+m,same<ekat::Unmanaged<U>,U>,true}); }
template<unsigned... M> static void views (std::vector<Fact>& f, std::integer_sequence<unsigned,M...>) { (view<double**,Kokkos::LayoutRight,M>(f,"double**"),...); (view<const int*,Kokkos::LayoutLeft,M>(f,"const int*"),...); (view<float*[3],Kokkos::LayoutStride,M>(f,"float*[3]"),...); (view<ekat::Pack<double,4>***,Kokkos::LayoutRight,M>(f,"Pack***"),...); }
static const std::vector<Fact>& facts () { static std::vector<Fact> f; if (f.empty()) { plain<int>(f,"int"); plain<short>(f,"short"); plain<char>(f,"char"); plain<unsigned char>(f,"unsigned char"); plain<unsigned>(f,"unsigned"); plain<long>(f,"long"); plain<unsigned long>(f,"unsigned long"); plain<long long>(f,"long long"); plain<float>(f,"float"); plain<double>(f,"double"); traits<bool,bool,false,false,false>(f,"bool"); packs<1>(f); packs<2>(f); packs<4>(f); packs<8>(f); packs<16>(f); packs<32>(f); views(f,std::make_integer_sequence<unsigned,32>()); } return f; }
VP_PROP(type_facts, 20000, 40000, "scalar traits of plain types, packs and masks under all qualifiers, invalid values, unmanaged view types for all memory traits; non-trivial: qualified or vector types") { const auto& f=facts(); size_t k=c.below(f.size()); c.d << f[k].what; VP_CHECK(f[k].holds,f[k].what << " is not as specified"); c.nontrivial(f[k].nt); }
#endif
