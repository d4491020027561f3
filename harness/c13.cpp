// C13: histories of collectives on communicators and their splits, against a model that knows every rank's data.
// With MPI all ranks run the same cases; without MPI (EKAT's serial implementation) there is one rank.
#define VP_MAIN
#ifdef EKAT_ENABLE_MPI
#define VP_MPI
#endif
#include "vp.hpp"
#include "ekat_comm.hpp"
using ekat::Comm; using vp::u64;
struct Sh { std::atomic<int> arrived; }; static Sh* shm=nullptr;
static int W=0, N=1; // world rank and size
#ifdef EKAT_ENABLE_MPI
void vp_init (int& argc, char**& argv) {
  MPI_Init(&argc,&argv); MPI_Comm_rank(MPI_COMM_WORLD,&W); MPI_Comm_size(MPI_COMM_WORLD,&N);
  const char* d=getenv("VP_TMP"); std::string f=std::string(d?d:"/tmp")+"/barrier.bin";
  if (W==0) { int fd=open(f.c_str(),O_RDWR|O_CREAT|O_TRUNC,0600); if (fd<0||ftruncate(fd,4096)) abort(); close(fd); }
  MPI_Barrier(MPI_COMM_WORLD);
  int fd=open(f.c_str(),O_RDWR); shm=(Sh*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd);
  MPI_Barrier(MPI_COMM_WORLD);
}
void vp_fini () { MPI_Finalize(); }
#else
void vp_init (int&, char**&) { shm=(Sh*)calloc(1,sizeof(Sh)); }
void vp_fini () {}
#endif
struct C { Comm c; std::vector<int> members; bool owned; int me () const { for (size_t i=0;i<members.size();++i) if (members[i]==W) return (int)i; return -1; } };
// value of element i contributed by a world rank
template<typename T> static T val (u64 seed, int rank, int i, int kind) {
  u64 h = seed==0 ? (u64)(rank+i) : vp::mix(seed*1000003+rank*7919+i);
  if (std::is_same<T,bool>::value) return (T)(h&1);
  if (kind==3) return (T)((long)(h%5)-2);            // products
  if (std::is_same<T,char>::value) return (T)(h%128);
  return (T)((long)(h%201)-(seed?100:0));
}
static const char* opn[]={"MAX","MIN","SUM","PROD","LAND","LOR","BAND","BOR","LXOR","BXOR"};
static MPI_Op mop (int k) { switch(k){ case 0: return MPI_MAX; case 1: return MPI_MIN; case 2: return MPI_SUM; case 3: return MPI_PROD; case 4: return MPI_LAND; case 5: return MPI_LOR; case 6: return MPI_BAND; case 7: return MPI_BOR; case 8: return MPI_LXOR; default: return MPI_BXOR; } }
template<typename T> static T comb (int k, T a, T b) {
  if constexpr (std::is_integral<T>::value) { switch (k) { case 6: return (T)(a&b); case 7: return (T)(a|b); case 9: return (T)(a^b); } }
  switch (k) { case 0: return a<b?b:a; case 1: return b<a?b:a; case 2: return (T)(a+b); case 3: return (T)(a*b); case 4: return (T)(a&&b); case 5: return (T)(a||b); default: return (T)((!a)!=(!b)); }
}
static bool big (vp::Case& c) { return c.chance(1,60); }
template<typename T> struct Buf { // count elements between guards
  std::vector<unsigned char> m; int n; static constexpr int G=64;
  explicit Buf (int n_) : m(2*G+n_*sizeof(T),0x5a), n(n_) { for (int i=0;i<n;++i) at(i)=T(); }
  T* p () { return reinterpret_cast<T*>(m.data()+G); } T& at (int i) { return p()[i]; }
  bool guards () { for (int i=0;i<G;++i) if (m[i]!=0x5a || m[m.size()-1-i]!=0x5a) return false; return true; }
};
template<typename T> static void collective (vp::Case& c, C& k, const char* tn) {
  const int n=k.members.size(), me=k.me(), count=big(c)?c.pick({64,128,256,500,512,1000,1024,2048,4096,4095,1025}):c.size(0,40); u64 seed=c.draw(1000);
  constexpr bool chr=std::is_same<T,char>::value, bl=std::is_same<T,bool>::value, fl=std::is_floating_point<T>::value;
  int what=(int)c.below(chr?3:7); // 0 broadcast, 1,2 gather, 3,4 reduce, 5,6 scan
  int op = bl ? c.pick({4,5,8}) : fl ? (int)c.below(4) : (int)c.below(10);
  int root = what==0 ? (int)c.below(8)%n : 0; // the same choices on all ranks, whatever the size of their communicator
  c.d << (what==0?"broadcast":what<3?"all_gather":what<5?"all_reduce":"scan") << (what>0&&what%2==0?" in place":"") << "<" << tn << "> count " << count << (what>2?std::string(" ")+opn[op]:"") << (what==0?" root "+std::to_string(root):"") << "\n";
  auto v=[&](int r,int i){ return val<T>(seed,k.members[r],i,what>2?op:-1); };
  Buf<T> in(count); for (int i=0;i<count;++i) in.at(i)=v(me,i);
  auto in_ok=[&]{ for (int i=0;i<count;++i) if (in.at(i)!=v(me,i)) return false; return in.guards(); };
  auto show=[&](int i, T got, T want){ std::ostringstream o; o << opn[op] << " element " << i << " is " << +got << ", expected " << +want; return o.str(); };
  if (what==0) {
    k.c.broadcast(in.p(),count,root);
    for (int i=0;i<count;++i) VP_SOFT(in.at(i)==v(root,i),"broadcast: " << show(i,in.at(i),v(root,i)));
    VP_SOFT(in.guards(),"broadcast writes outside the buffer");
  } else if (what<3) {
    Buf<T> out(count*n);
    if (what==1) { k.c.all_gather((const T*)in.p(),out.p(),count); VP_SOFT(in_ok(),"all_gather changes its input"); }
    else { for (int i=0;i<count;++i) out.at(me*count+i)=v(me,i); k.c.all_gather(out.p(),count); }
    for (int r=0;r<n;++r) for (int i=0;i<count;++i) VP_SOFT(out.at(r*count+i)==v(r,i),"all_gather: from rank " << r << " " << show(i,out.at(r*count+i),v(r,i)));
    VP_SOFT(out.guards(),"all_gather writes outside the buffer");
  } else {
    bool red=what<5, inplace=what%2==0; Buf<T> out(count); Buf<T>& res = inplace?in:out;
    if (red) { if (inplace) k.c.all_reduce(in.p(),count,mop(op)); else k.c.all_reduce((const T*)in.p(),out.p(),count,mop(op)); }
    else     { if (inplace) k.c.scan(in.p(),count,mop(op)); else k.c.scan((const T*)in.p(),out.p(),count,mop(op)); }
    if (!inplace) VP_SOFT(in_ok(),"a reduction changes its input");
    for (int i=0;i<count;++i) { T e=v(0,i); for (int r=1;r<(red?n:me+1);++r) e=comb<T>(op,e,v(r,i));
      // a one-member logical reduction of values other than 0/1 may return the value itself
      bool logical=op==4||op==5||op==8; bool ok = res.at(i)==e || (logical && (red?n:me+1)==1 && (bool)res.at(i)==(bool)e);
      VP_SOFT(ok,(red?"all_reduce: ":"scan: ") << show(i,res.at(i),e)); }
    VP_SOFT(res.guards(),"a reduction writes outside the buffer");
  }
}
static void dispatch (vp::Case& c, C& k) {
  switch (c.weighted({4,3,2,2,2,2,1,1})) {
    case 0: collective<int>(c,k,"int"); break; case 1: collective<double>(c,k,"double"); break; case 2: collective<float>(c,k,"float"); break; case 3: collective<long>(c,k,"long"); break;
    case 4: collective<long long>(c,k,"long long"); break; case 5: collective<short>(c,k,"short"); break; case 6: collective<char>(c,k,"char"); break;
#ifdef EKAT_ENABLE_MPI
    default: collective<bool>(c,k,"bool"); break;
#else
    default: collective<int>(c,k,"int"); break;
#endif
  }
}
static void check_comm (vp::Case& c, const C& k, const char* what) {
  VP_SOFT(k.c.size()==(int)k.members.size(),what << ": size is " << k.c.size() << ", expected " << k.members.size());
  VP_SOFT(k.c.rank()==k.me(),what << ": rank is " << k.c.rank() << ", expected " << k.me());
  VP_SOFT(k.c.root_rank()>=0 && k.c.root_rank()<k.c.size(),what << ": root rank is " << k.c.root_rank());
  VP_SOFT(k.c.am_i_root()==(k.c.rank()==k.c.root_rank()),what << ": am_i_root is " << k.c.am_i_root());
}
VP_PROP(collective_histories, 12000, 300000, "histories of 1-12 broadcasts, all-gathers, all-reduces, scans (in place or not, all element types and operations, counts 0-40, now and then up to 4096), splits, resets and barriers on the world communicator and splits of splits; non-trivial: more than one rank (or the serial build) and at least two operations with count > 0") {
  std::vector<C> cs; { std::vector<int> all(N); for (int i=0;i<N;++i) all[i]=i; cs.push_back({Comm(MPI_COMM_WORLD),all,false}); }
  check_comm(c,cs[0],"world"); C self{Comm(),{W},false}; check_comm(c,self,"default communicator");
  int nops=c.size(1,12), done=0; bool split=false;
  for (int o=0;o<nops;++o) {
    // all ranks choose the communicator by its position in the history; every rank owns one communicator per split
    size_t ki=c.below(cs.size()); if (ki>=cs.size()) ki=cs.size()-1; C& k=cs[ki];
    switch (c.weighted({12,3,2,1,1})) {
      case 1: { if (cs.size()>5) break;
        int nc=c.irange(1,4); u64 s=c.draw(1000); auto color=[&](int w){ return (int)(s==0 ? w%nc : vp::mix(s*31+w)%nc)*(s%3==2?1000:1); };
        c.d << "split of " << ki << " into up to " << nc << " colors (" << s << ")\n"; std::vector<int> m; for (int w:k.members) if (color(w)==color(W)) m.push_back(w);
        C n{k.c.split(color(W)),m,true}; check_comm(c,n,"split"); cs.push_back(n); split=true; break; }
      case 2: { int late=(int)c.below(N); bool wait=c.chance(1,4); c.d << "barrier on world, rank " << late << (wait?" late":"") << "\n";
        // nobody may pass before everybody arrived
#ifdef EKAT_ENABLE_MPI
        MPI_Barrier(MPI_COMM_WORLD); if (W==0) shm->arrived=0; MPI_Barrier(MPI_COMM_WORLD);
#endif
        if (late==W && wait) usleep(2000);
        if (N==1) shm->arrived=0;
        ++shm->arrived; cs[0].c.barrier(); int a=shm->arrived; VP_SOFT(a==N,"passed the barrier when " << a << " of " << N << " ranks had arrived"); break; }
      case 3: { c.d << "reset a communicator to " << ki << "\n"; C n{Comm(),k.members,false}; n.c.reset_mpi_comm(k.c.mpi_comm()); check_comm(c,n,"reset"); VP_SOFT(n.c.mpi_comm()==k.c.mpi_comm(),"reset keeps the old communicator"); Comm cp(k.c); VP_SOFT(cp.rank()==k.c.rank() && cp.size()==k.c.size() && cp.mpi_comm()==k.c.mpi_comm(),"a copy differs"); dispatch(c,n); ++done; break; }
      case 4: dispatch(c,self); break;
      default: dispatch(c,k); ++done;
    }
  }
#ifdef EKAT_ENABLE_MPI
  for (auto& k:cs) if (k.owned) { MPI_Comm m=k.c.mpi_comm(); MPI_Comm_free(&m); }
  bool more=N>1;
#else
  bool more=true;
#endif
  c.nontrivial(more && done>=2); c.label("split",split); c.label("several ranks",N>1);
}
