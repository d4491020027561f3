// Shared by the pack harnesses: generators of lane values, texts, lane-wise comparison
#ifndef PACK_GEN_HPP
#define PACK_GEN_HPP
#include "vp.hpp"
#include "ekat_pack.hpp"
template<typename T> static std::string tx (const T& x) { if constexpr (std::is_floating_point<T>::value) return vp::fp(x); else return std::to_string(x); }
template<typename T, int N> static std::string tx (const ekat::Pack<T,N>& p) { std::string s="("; for (int i=0;i<N;++i) s+=(i?",":"")+tx(p[i]); return s+")"; }
template<int N> static std::string tx (const ekat::Mask<N>& m) { std::string s; for (int i=0;i<N;++i) s+=m[i]?'1':'0'; return s; }
// a lane value; integers within +-lim
template<typename T> static T lane (vp::Case& c, long lim, bool extremes) {
  if constexpr (std::is_floating_point<T>::value) { T x=c.real<T>(extremes); if (!extremes) { if (!(std::abs((double)x)<=lim)) x=(T)1; } return x; }
  else return (T)(c.b()?c.range(-9,9):c.range(-lim,lim));
}
template<typename T, int N> static ekat::Pack<T,N> pack (vp::Case& c, long lim, bool extremes) { ekat::Pack<T,N> p; for (int i=0;i<N;++i) p[i]=lane<T>(c,lim,extremes); return p; }
template<int N> static ekat::Mask<N> mask (vp::Case& c) { int k=(int)c.below(4); ekat::Mask<N> m(false); for (int i=0;i<N;++i) m.set(i,k==0?false:k==1?c.chance(1,4):k==2?c.b():c.chance(7,8)); return m; }
template<typename A, typename B> static bool same_lane (const A& a, const B& b) { // equal values, zeros by sign, NaNs alike
  static_assert(std::is_same<A,B>::value,"types"); if constexpr (std::is_floating_point<A>::value) return vp::same_val(a,b,true); else return a==b; }
template<typename T, int N> static bool same_pack (const ekat::Pack<T,N>& a, const ekat::Pack<T,N>& b) { for (int i=0;i<N;++i) if (!same_lane(a[i],b[i])) return false; return true; }
// every lane of got equals f(i)
template<typename T, int N, typename F> static void lanes (const char* what, const ekat::Pack<T,N>& got, F&& f) {
  for (int i=0;i<N;++i) { T want=(T)f(i); VP_CHECK(same_lane((T)got[i],want),what << ": lane " << i << " of " << N << " is " << tx(got[i]) << ", expected " << tx(want)); } }
#define SIZES(f) switch (c.below(6)) { case 0: f<1>(c); break; case 1: f<2>(c); break; case 2: f<4>(c); break; case 3: f<8>(c); break; case 4: f<16>(c); break; default: f<32>(c); }
#endif
