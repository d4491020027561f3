// Shared by the Kokkos harnesses: start-up, calls that are to be rejected, element addresses
#ifndef KK_HPP
#define KK_HPP
#include "vp.hpp"
#include <Kokkos_Core.hpp>
#include <sys/resource.h>
#include <array>
#include <random>
static void kk_init () { int t=atoi(getenv("OMP_NUM_THREADS")?getenv("OMP_NUM_THREADS"):"1"); Kokkos::InitializationSettings s; s.set_num_threads(t); s.set_disable_warnings(true); Kokkos::initialize(s); }
// true if f throws or stops the program in the orderly way (abort), false if it returns; anything else (a memory error) is a failure
template<typename F> static bool rejected (F&& f) {
  fflush(stdout); fflush(stderr); pid_t p=fork();
  if (p==0) { rlimit l{0,0}; setrlimit(RLIMIT_CORE,&l); int n=open("/dev/null",O_WRONLY); dup2(n,1); dup2(n,2); signal(SIGABRT,SIG_DFL); try { f(); } catch (...) { _exit(42); } _exit(0); }
  int st=0; while (waitpid(p,&st,0)<0 && errno==EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st)==0) return false; if (WIFEXITED(st) && WEXITSTATUS(st)==42) return true; if (WIFSIGNALED(st) && WTERMSIG(st)==SIGABRT) return true;
  VP_FAIL("the call ends with " << (WIFSIGNALED(st)?"signal ":"status ") << (WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st)));
}
// an array as base, extents and strides (in bytes)
struct Ref { char* base=nullptr; std::vector<long> ext, str;
  long size () const { long n=1; for (long e:ext) n*=e; return n; }
  char* at (const std::vector<long>& i) const { char* p=base; for (size_t k=0;k<i.size();++k) p+=i[k]*str[k]; return p; }
  bool row_major (long elem) const { long s=elem; for (int k=(int)ext.size()-1;k>=0;--k) { if (ext[k]>1 && str[k]!=s) return false; s*=ext[k]; } return true; }
  std::string text () const { std::string s="["; for (size_t k=0;k<ext.size();++k) s+=(k?",":"")+std::to_string(ext[k]); s+="] strides ["; for (size_t k=0;k<str.size();++k) s+=(k?",":"")+std::to_string(str[k]); return s+"]"; } };
template<typename V> static Ref ref_of (const V& v) { Ref r; r.base=(char*)v.data(); for (unsigned k=0;k<(unsigned)V::rank;++k) { r.ext.push_back((long)v.extent(k)); r.str.push_back((long)v.stride(k)*(long)sizeof(typename V::value_type)); } return r; }
// calls f with every index of the extents
template<typename F> static void each (const std::vector<long>& ext, F&& f) { std::vector<long> i(ext.size(),0); for (long e:ext) if (e<=0) return; for (;;) { f(i); int k=(int)ext.size()-1; while (k>=0 && ++i[k]==ext[k]) i[k--]=0; if (k<0) return; } }
static inline std::string itx (const std::vector<long>& i) { std::string s="("; for (size_t k=0;k<i.size();++k) s+=(k?",":"")+std::to_string(i[k]); return s+")"; }
// element access with a vector of indices
template<typename V, size_t... K> static decltype(auto) el_ (const V& v, const std::vector<long>& i, std::index_sequence<K...>) { return v((int)i[K]...); }
template<int R, typename V> static decltype(auto) el (const V& v, const std::vector<long>& i) { return el_(v,i,std::make_index_sequence<R>()); }
// view made by a vector of extents
template<typename V, size_t... K> static V mk_ (const std::vector<long>& e, std::index_sequence<K...>) { return V("v",(size_t)e[K]...); }
template<typename V, size_t... K> static V mkpad_ (const std::vector<long>& e, std::index_sequence<K...>) { return V(Kokkos::view_alloc("v",Kokkos::AllowPadding),(size_t)e[K]...); }
template<typename V, int D=V::rank_dynamic> static V mkpad (const std::vector<long>& e) { return mkpad_<V>(e,std::make_index_sequence<D>()); } // rows may have gaps
template<typename V, int D=V::rank_dynamic> static V mk (const std::vector<long>& e) { return mk_<V>(e,std::make_index_sequence<D>()); }
#endif
