// C27: the search used on GPUs, which this host can run too
#define VP_MAIN
#include "vp.hpp"
#include <Kokkos_Core.hpp>
#define EKAT_ENABLE_GPU
#include "ekat_upper_bound.hpp"
#undef EKAT_ENABLE_GPU
void vp_init (int&, char**&) {}
void vp_fini () {}
template<typename T> static void search (vp::Case& c) { int n=c.irange(0,c.b()?6:40); std::vector<T> v; for (int i=0;i<n;++i) v.push_back((T)c.irange(-10,10)+(c.b()?(T)0:(T)0.5)); std::sort(v.begin(),v.end()); T x=c.chance(1,2)&&n?v[c.below(n)]:(T)c.irange(-12,12)+(c.b()?(T)0:(T)0.5); c.d << n << " sorted values, looking for " << x; const T* p=ekat::upper_bound(v.data(),v.data()+n,x); long want=std::upper_bound(v.begin(),v.end(),x)-v.begin(); VP_CHECK(p-v.data()==want,"found position " << (p-v.data()) << ", expected " << want); c.nontrivial(n>1); }
VP_PROP(device_search, 20000, 400000, "sorted arrays with repeated values against std::upper_bound; non-trivial: at least two values") { if (c.b()) search<double>(c); else search<int>(c); }
