// A small property-based testing engine: cases are generated from a tape of integer choices, so that
// any failing case shrinks (on the tape) and replays without the random generator.
// Properties run in forked worker processes: crashes, sanitizer reports and hangs are failures too.
#ifndef VP_HPP
#define VP_HPP

#include <algorithm>
#include <cstddef>
#include <atomic>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace vp {

using u64 = std::uint64_t;
using i64 = std::int64_t;
using u32 = std::uint32_t;

inline u64 mix (u64 x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline u64 hash_str (const std::string& s, u64 h = 1469598103934665603ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
inline double now () { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec + 1e-9*t.tv_nsec; }

struct Fail { std::string msg; };
struct Discard {};

// Printable form of any string
inline std::string quote (const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c=='"' || c=='\\') { o += '\\'; o += c; }
    else if (c=='\n') o += "\\n";
    else if (c=='\t') o += "\\t";
    else if (c<32 || c>=127) { char b[8]; snprintf(b,sizeof b,"\\x%02x",c); o += b; }
    else o += c;
  }
  return o + "\"";
}
template<typename T> std::string fp (T x) { // round-trip text of a floating point number
  char b[64];
  if constexpr (std::is_same<T,float>::value) snprintf(b,sizeof b,"%.9g",(double)x);
  else snprintf(b,sizeof b,"%.17g",(double)x);
  return b;
}
template<typename T> bool same_bits (const T& a, const T& b) { return std::memcmp(&a,&b,sizeof(T))==0; }
// equal as values, with all NaNs alike and signed zeros distinguished only on request
template<typename T> bool same_val (T a, T b, bool sign_of_zero = false) {
  if (a!=a || b!=b) return a!=a && b!=b;
  if (sign_of_zero && a==0 && b==0) return std::signbit((double)a)==std::signbit((double)b);
  return a==b;
}

constexpr u64 MAX_TAPE = 1<<16;
constexpr int MAX_LABELS = 96, MAX_SAMPLES = 6;

struct Shared {
  std::atomic<double> started;   // start of the running case, 0 if none
  std::atomic<u64> index;        // its index
  std::atomic<u32> status;       // see enum
  char prop[64];                 // its property (MPI jobs)
  u64 ntape, tape[MAX_TAPE];
  char msg[1<<14], desc[1<<15];
  u64 evals, nontrivial, discards, hits;
  int nlabels; char label[MAX_LABELS][56]; u64 label_count[MAX_LABELS];
  int nsamples; char sample[MAX_SAMPLES][1500];
};
// run.py reads the tape file of an MPI job that crashed
static_assert(offsetof(Shared,index)==8 && offsetof(Shared,prop)==20 && offsetof(Shared,ntape)==88 && offsetof(Shared,tape)==96,"layout");
enum : u32 { RUNNING=0, OK=1, FAILED=2, DISCARDED=3, CRASHED=4, HUNG=5 };

class Case {
public:
  std::ostringstream d;          // description of the case in words
  // --- the tape
  u64 draw (u64 bound) {         // uniform in [0,bound]; 0 is the simplest
    u64 v = 0;
    if (gen) {
      rng = mix(rng);
      v = bound==~u64(0) ? rng : (u64)(((__uint128_t)rng*((__uint128_t)bound+1))>>64);
    } else if (pos<in->size()) {
      v = std::min((*in)[pos],bound);
    }
    ++pos;
    record(v);
    return v;
  }
  void record (u64 v) {
    if (sh->ntape<MAX_TAPE) sh->tape[sh->ntape++] = v;
    else throw Discard{};
  }
  // Draw with a shaped distribution: f maps uniform random bits to a value in [0,bound]
  template<typename F> u64 draw_shaped (u64 bound, F&& f) {
    u64 v = 0;
    if (gen) { rng = mix(rng); v = std::min<u64>(f(rng),bound); }
    else if (pos<in->size()) v = std::min((*in)[pos],bound);
    ++pos;
    record(v);
    return v;
  }
  // --- combinators
  u64 below (u64 n) { return draw(n-1); }
  bool b () { return draw(1); }
  bool chance (int num, int den) { return draw(den-1) >= (u64)(den-num); }
  i64 range (i64 lo, i64 hi) {
    u64 span = (u64)hi-(u64)lo;
    u64 k = draw(span);
    if (lo>0 || hi<0) return hi<0 ? (i64)((u64)hi-k) : (i64)((u64)lo+k);
    u64 up = (u64)hi, dn = 0-(u64)lo, m = std::min(up,dn);
    if (k<=2*m && m<(~u64(0)>>1)) { return (k&1) ? (i64)((k+1)/2) : -(i64)(k/2); }
    return up>dn ? (i64)(k-m) : -(i64)(k-m);
  }
  int irange (int lo, int hi) { return (int)range(lo,hi); }
  // a size in [lo,hi], mostly small, sometimes up to hi
  int size (int lo, int hi) {
    return lo + (int)draw_shaped(hi-lo,[&](u64 r)->u64{
      u64 n = hi-lo+1; u64 kind = r&7; u64 x = mix(r);
      u64 cap = kind<3 ? std::min<u64>(n,5) : kind<6 ? std::min<u64>(n,(u64)std::sqrt((double)n)*2+3) : n;
      return x%cap;
    });
  }
  template<typename T> const T& pick (const std::vector<T>& v) { return v[below(v.size())]; }
  template<typename T> T pick (std::initializer_list<T> v) { return *(v.begin()+below(v.size())); }
  size_t weighted (std::initializer_list<int> w) { // index; put the simplest first
    int tot=0; for (int x:w) tot+=x;
    u64 r = draw_shaped(w.size()-1,[&](u64 bits)->u64{
      int k = (int)(bits%tot); u64 i=0; for (int x:w) { if (k<x) return i; k-=x; ++i; } return 0;
    });
    return r;
  }
  std::string str (const std::string& alphabet, int lo, int hi) {
    int n = size(lo,hi); std::string s;
    for (int i=0;i<n;++i) s += alphabet[below(alphabet.size())];
    return s;
  }
  // A real number: simple values, random ones over many magnitudes, optionally extremes
  template<typename T> T real (bool extremes = false) {
    switch (weighted({5,4,4,extremes?3:0})) {
      case 0: return (T)range(-8,8);
      case 1: return (T)range(-1000,1000)/(T)8;
      case 2: {
        double m = (double)range(-(i64(1)<<53),i64(1)<<53)/(double)(i64(1)<<53);
        int e = (int)range(-20,20);
        return (T)std::ldexp(m,e);
      }
      default: {
        const T mx=std::numeric_limits<T>::max(), mn=std::numeric_limits<T>::min(), dn=std::numeric_limits<T>::denorm_min();
        const T inf=std::numeric_limits<T>::infinity(), ep=std::numeric_limits<T>::epsilon();
        return pick<T>({(T)0,(T)-0.0,mx,-mx,mn,-mn,dn,-dn,inf,-inf,(T)1+ep,(T)1-ep/2,std::sqrt(mx),std::numeric_limits<T>::quiet_NaN()});
      }
    }
  }
  template<typename T> T uniform (T lo, T hi) {
    T u = (T)((double)draw((u64(1)<<40)-1)/(double)(u64(1)<<40));
    return lo + u*(hi-lo);
  }
  // --- verdicts and statistics
  void nontrivial (bool x = true) { if (x) nt = true; }
  void label (const std::string& l, bool on = true) { if (on) labels.insert(l); }
  void soft (const std::string& m) { if (soft_msg.empty()) soft_msg = m; }
  void discard () { throw Discard{}; }
  bool generating () const { return gen; }

  // --- engine side
  Shared* sh = nullptr;
  bool gen = true, nt = false;
  u64 rng = 0, pos = 0;
  const std::vector<u64>* in = nullptr;
  std::set<std::string> labels;
  std::string soft_msg;
};

struct Prop {
  std::string name, rule;
  u64 quick, thorough;
  void (*fn)(Case&);
  bool nondet = false;
};
inline std::vector<Prop>& props () { static std::vector<Prop> p; return p; }
struct Reg { Reg (const char* n, u64 q, u64 t, const char* r, void(*f)(Case&), bool nd) { props().push_back({n,r,q,t,f,nd}); } };

#define VP_CAT2(a,b) a##b
#define VP_CAT(a,b) VP_CAT2(a,b)
// VP_PROP(name, cases in the quick tier, in the thorough tier, rule) { body using vp::Case& c }
#define VP_PROP_(name,q,t,rule,nd) static void vp_body_##name (vp::Case& c); \
  static vp::Reg vp_reg_##name (#name,q,t,rule,vp_body_##name,nd); static void vp_body_##name (vp::Case& c)
#define VP_PROP(name,q,t,rule) VP_PROP_(name,q,t,rule,false)
#define VP_PROP_ND(name,q,t,rule) VP_PROP_(name,q,t,rule,true)
#define VP_FAIL(m) do { std::ostringstream vp_o; vp_o << m; throw vp::Fail{vp_o.str()}; } while(0)
#define VP_CHECK(cond,m) do { if (!(cond)) { std::ostringstream vp_o; vp_o << m << "  [" #cond "]"; throw vp::Fail{vp_o.str()}; } } while(0)
#define VP_SOFT(cond,m) do { if (!(cond)) { std::ostringstream vp_o; vp_o << m << "  [" #cond "]"; c.soft(vp_o.str()); } } while(0)

// True if f throws a standard exception
template<typename F> bool throws (F&& f, std::string* what = nullptr) {
  try { f(); } catch (const std::exception& e) { if (what) *what = e.what(); return true; }
  return false;
}

} // namespace vp

// Called in the process that runs cases, before the first / after the last one
void vp_init (int& argc, char**& argv);
void vp_fini ();

// A harness may be compiled in parts: part 0 has the main program and the properties, the others hold instantiations
#ifdef VP_PART
#define VP_INST(k,...) VP_INST_(k,__VA_ARGS__)
#define VP_INST_(k,...) VP_INST_##k(__VA_ARGS__)
#if VP_PART==1
#define VP_INST_1(...) template __VA_ARGS__;
#else
#define VP_INST_1(...) extern template __VA_ARGS__;
#endif
#if VP_PART==2
#define VP_INST_2(...) template __VA_ARGS__;
#else
#define VP_INST_2(...) extern template __VA_ARGS__;
#endif
#if VP_PART==3
#define VP_INST_3(...) template __VA_ARGS__;
#else
#define VP_INST_3(...) extern template __VA_ARGS__;
#endif
#define VP_IN(k) (VP_PART==(k))
#else
#define VP_INST(k,...)
#define VP_IN(k) 1
#endif

#ifdef VP_MAIN
namespace vp {

struct Opts {
  std::string tier = "quick", out, replay, only, tapefile, label;
  u64 seed = 1; int workers = 8; double timeout = 20, scale = 1, shrink_s = 40, budget = 0, deadline = 0;
  bool verbose = false;
};
inline Opts& opts () { static Opts o; return o; }

inline void put (char* dst, size_t n, const std::string& s) {
  size_t k = std::min(n-1,s.size()); std::memcpy(dst,s.data(),k); dst[k]=0;
}

struct DistinctSet { // lock-free, shared between workers
  std::atomic<u64>* t = nullptr; u64 n = 0;
  void init (u64 cases) {
    if (t) munmap((void*)t,n*8);
    n = 1024; while (n<3*cases) n*=2;
    t = (std::atomic<u64>*)mmap(nullptr,n*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    if (t==MAP_FAILED) { perror("mmap"); exit(2); }
  }
  bool insert (u64 h) {
    if (h==0) h=1;
    for (u64 i=h&(n-1), k=0; k<n; i=(i+1)&(n-1), ++k) {
      u64 e=0;
      if (t[i].compare_exchange_strong(e,h)) return true;
      if (e==h) return false;
    }
    return false;
  }
};
inline DistinctSet& distinct () { static DistinctSet d; return d; }

// Runs one case; statistics only when generating
inline u32 run_case (const Prop& p, Shared* sh, bool gen, u64 seed, const std::vector<u64>* tape, bool stats) {
  Case c;
  c.sh = sh; c.gen = gen; c.rng = seed; c.in = tape;
  sh->ntape = 0; sh->msg[0]=0; sh->desc[0]=0;
  sh->status = RUNNING;
  sh->started = now();
  u32 st = OK;
  try {
    p.fn(c);
    if (!c.soft_msg.empty()) { put(sh->msg,sizeof sh->msg,c.soft_msg); st = FAILED; }
  } catch (const Fail& f) {
    put(sh->msg,sizeof sh->msg,f.msg); st = FAILED;
  } catch (const Discard&) {
    st = DISCARDED;
  } catch (const std::exception& e) {
    put(sh->msg,sizeof sh->msg,std::string("unexpected exception: ")+e.what()); st = FAILED;
  } catch (...) {
    put(sh->msg,sizeof sh->msg,"unexpected exception of unknown type"); st = FAILED;
  }
  std::string desc = c.d.str();
  put(sh->desc,sizeof sh->desc,desc);
  if (stats) {
    ++sh->evals;
    if (st==DISCARDED) ++sh->discards;
    for (const auto& l : c.labels) {
      int i=0; while (i<sh->nlabels && l!=sh->label[i]) ++i;
      if (i==sh->nlabels && i<MAX_LABELS) { put(sh->label[i],56,l); sh->label_count[i]=0; ++sh->nlabels; }
      if (i<MAX_LABELS) ++sh->label_count[i];
    }
    if (c.nt && st==OK) {
      ++sh->nontrivial;
      u64 h = 88172645463325252ull;
      for (u64 i=0;i<sh->ntape;++i) h = mix(h^sh->tape[i]);
      if (distinct().insert(h)) ++sh->hits;
      if (sh->nsamples<MAX_SAMPLES && (sh->nontrivial&(sh->nontrivial-1))==0 && sh->nontrivial>2)
        put(sh->sample[sh->nsamples++],1500,desc.empty()?std::string("(no text)"):desc);
    }
  }
  sh->started = 0;
  sh->status = st;
  return st;
}

inline u64 case_seed (const Prop& p, u64 index) {
  return mix(mix(opts().seed*0x9e3779b97f4a7c15ull+17)^mix(hash_str(p.name))^mix(index*2654435761ull+1));
}

struct Failure {
  bool any = false;
  u32 kind = OK;
  u64 index = 0; int worker = 0, nworkers = 1;
  std::vector<u64> tape;
  std::string msg, desc, log;
  u64 seq_from = 0; bool sequence = false; // reproduces only after the cases seq_from, seq_from+step, ... of the run
  bool reproduced = false;
  u64 shrink_runs = 0;
};

inline std::string json (const std::string& s) {
  std::string o="\"";
  for (unsigned char c : s) {
    if (c=='"'||c=='\\') { o+='\\'; o+=c; }
    else if (c=='\n') o+="\\n";
    else if (c<32||c>=127) { char b[8]; snprintf(b,sizeof b,"\\u%04x",c); o+=b; }
    else o+=c;
  }
  return o+"\"";
}

struct Stats {
  u64 evals=0, nontrivial=0, discards=0, hits=0; std::map<std::string,u64> labels; std::vector<std::string> samples;
  void add (const Shared* s) {
    evals+=s->evals; nontrivial+=s->nontrivial; discards+=s->discards; hits+=s->hits;
    for (int i=0;i<s->nlabels;++i) labels[s->label[i]]+=s->label_count[i];
    for (int i=0;i<s->nsamples && samples.size()<8;++i) samples.push_back(s->sample[i]);
  }
};

inline void write_result (std::ostream& o, const Prop& p, const Stats& st, const Failure& f, double secs, bool first) {
  o << (first?"":",\n") << " {\"prop\":" << json(p.name) << ",\"rule\":" << json(p.rule)
    << ",\"evaluations\":" << st.evals << ",\"nontrivial\":" << st.nontrivial << ",\"distinct\":" << st.hits
    << ",\"discards\":" << st.discards << ",\"secs\":" << secs << ",\"labels\":{";
  bool ff=true; for (auto& l : st.labels) { o << (ff?"":",") << json(l.first) << ":" << l.second; ff=false; }
  o << "},\"samples\":["; ff=true;
  for (auto& s : st.samples) { o << (ff?"":",") << json(s); ff=false; }
  o << "],\"failure\":";
  if (!f.any) o << "null";
  else {
    o << "{\"kind\":" << json(f.kind==FAILED?"fail":f.kind==HUNG?"hang":"crash") << ",\"reproduced\":" << (f.reproduced?"true":"false")
      << ",\"index\":" << f.index << ",\"msg\":" << json(f.msg) << ",\"desc\":" << json(f.desc) << ",\"log\":" << json(f.log)
      << ",\"sequence\":" << (f.sequence?"true":"false") << ",\"seq_from\":" << f.seq_from << ",\"nworkers\":" << f.nworkers
      << ",\"shrink_runs\":" << f.shrink_runs << ",\"tape\":[";
    for (size_t i=0;i<f.tape.size();++i) o << (i?",":"") << f.tape[i];
    o << "]}";
  }
  o << "}";
}

// The shrinker: test(tape) runs a candidate and returns true if it still fails the same way; on success
// it leaves in 'tape' the choices the case actually used.
template<typename Test>
void shrink (std::vector<u64>& best, Test&& test, std::function<bool()> out_of_budget) {
  auto trial = [&](std::vector<u64> cand)->bool {
    if (out_of_budget()) return false;
    if (cand==best) return false;
    std::vector<u64> used = cand;
    if (!test(used)) return false;
    // accept only if simpler: shorter, or same length and lexicographically smaller
    if (used.size()<best.size() || (used.size()==best.size() && used<best)) { best=used; return true; }
    return false;
  };
  bool progress = true;
  while (progress && !out_of_budget()) {
    progress = false;
    for (size_t len = std::min<size_t>(best.size(),64); len>=1; len/=2) {           // delete chunks
      for (size_t i=best.size(); i-- > 0 && !out_of_budget(); ) {
        if (i+len>best.size()) continue;
        auto cnd=best; cnd.erase(cnd.begin()+i,cnd.begin()+i+len);
        if (trial(cnd)) { progress=true; }
      }
    }
    for (size_t len = 16; len>=1; len/=4) {                                           // zero chunks
      for (size_t i=0; i+len<=best.size() && !out_of_budget(); i+=len) {
        auto cnd=best; bool any=false;
        for (size_t k=i;k<i+len;++k) { any |= cnd[k]!=0; cnd[k]=0; }
        if (any && trial(cnd)) progress=true;
      }
    }
    for (size_t i=0;i<best.size() && !out_of_budget();++i) {                          // lower values
      u64 lo=0;
      while (i<best.size() && best[i]>lo && !out_of_budget()) {
        u64 mid = lo+(best[i]-lo)/2;
        auto cnd=best; cnd[i]=mid;
        if (trial(cnd)) progress=true; else { if (mid+1>best[i]) break; lo=mid+1; }
      }
    }
    for (size_t i=0;i<best.size() && !out_of_budget();++i) {                          // lower a count and drop what it counted
      for (size_t k=1;k<=4 && i<best.size() && best[i]>0;++k)
        for (size_t j=i+1;j+k<=best.size() && j<i+40 && best[i]>0 && !out_of_budget();++j) {
          auto cnd=best; --cnd[i]; cnd.erase(cnd.begin()+j,cnd.begin()+j+k);
          if (trial(cnd)) { progress=true; break; }
        }
    }
  }
}

} // namespace vp

#ifndef VP_MPI
namespace vp {

inline Shared* new_shared () {
  auto p = (Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  if (p==MAP_FAILED) { perror("mmap"); exit(2); }
  return p;
}
static int g_argc; static char** g_argv;

struct Logs { // the output of the code under test goes to a small file, kept for the report of a crash
  static std::string path (int w) { return std::string(getenv("VP_TMP")?getenv("VP_TMP"):"/tmp")+"/vp_log_"+std::to_string(getppid_or_self())+"_"+std::to_string(w); }
  static pid_t& owner () { static pid_t p=0; return p; }
  static pid_t getppid_or_self () { return owner(); }
  static void redirect (int w) {
    if (opts().verbose) return;
    int fd=open(path(w).c_str(),O_RDWR|O_CREAT|O_TRUNC|O_APPEND,0600);
    if (fd<0) fd=open("/dev/null",O_RDWR);
    dup2(fd,1); dup2(fd,2); if (fd>2) close(fd);
  }
  static void reset () { if (!opts().verbose) { struct stat st; if (fstat(1,&st)==0 && S_ISREG(st.st_mode) && st.st_size>0) { if (ftruncate(1,0)) {} } } }
  static std::string tail (int w) {
    std::ifstream f(path(w)); std::stringstream ss; ss << f.rdbuf(); auto s=ss.str();
    // sanitizer reports start with the interesting part
    auto p=s.find("ERROR: "); auto q=s.find("runtime error:"); auto k=std::min(p,q);
    if (k!=std::string::npos) { k = k>80?k-80:0; return s.substr(k,1800); }
    return s.size()>1500 ? s.substr(s.size()-1500) : s;
  }
  static void remove (int w) { unlink(path(w).c_str()); }
};

#ifdef VP_GCOV   // tools/coverage.py
extern "C" void __gcov_dump ();
[[noreturn]] inline void end_worker (int rc) { __gcov_dump(); _exit(rc); }
#else
[[noreturn]] inline void end_worker (int rc) { _exit(rc); }
#endif

[[noreturn]] inline void worker_main (const Prop& p, Shared* sh, int w, u64 from, u64 step, u64 total) {
  Logs::redirect(w);
  int argc=g_argc; char** argv=g_argv;
  vp_init(argc,argv);
  for (u64 i=from;i<total;i+=step) {
    if (opts().deadline>0 && now()>opts().deadline) break;
    sh->index = i;
    if ((i/step)%64==0) Logs::reset();
    u32 st = run_case(p,sh,true,case_seed(p,i),nullptr,true);
    if (st==FAILED) { fflush(nullptr); end_worker(3); }
  }
  vp_fini();
  fflush(nullptr);
  end_worker(0);
}

struct Server { // runs candidate tapes
  const Prop& p; Shared* sh; pid_t pid=-1; int to=-1, from=-1; u64 runs=0;
  Server (const Prop& p_) : p(p_), sh(new_shared()) {}
  ~Server () { stop(); munmap(sh,sizeof(Shared)); Logs::remove(99); }
  void stop () { if (pid>0) { kill(pid,SIGKILL); waitpid(pid,nullptr,0); close(to); close(from); } pid=-1; }
  void start () {
    int a[2],b[2]; if (pipe(a)||pipe(b)) { perror("pipe"); exit(2); }
    fflush(nullptr);
    pid=fork();
    if (pid==0) {
      close(a[1]); close(b[0]);
      Logs::redirect(99);
      int argc=g_argc; char** argv=g_argv;
      vp_init(argc,argv);
      char ch;
      std::vector<u64> tape;
      while (read(a[0],&ch,1)==1) {
        Logs::reset();
        tape.assign(sh->tape,sh->tape+sh->ntape);
        char st = (char)run_case(p,sh,false,0,&tape,false);
        if (write(b[1],&st,1)!=1) break;
      }
      _exit(0);
    }
    close(a[0]); close(b[1]); to=a[1]; from=b[0];
  }
  u32 run (std::vector<u64>& tape, double timeout, bool fresh) {
    if (fresh) stop();
    if (pid<0) start();
    ++runs;
    sh->ntape = std::min<u64>(tape.size(),MAX_TAPE);
    std::copy(tape.begin(),tape.begin()+sh->ntape,sh->tape);
    sh->msg[0]=0; sh->desc[0]=0;
    char ch='r'; 
    signal(SIGPIPE,SIG_IGN);
    if (write(to,&ch,1)!=1) { stop(); return CRASHED; }
    pollfd pf{from,POLLIN,0};
    double t0=now(); int r;
    do { r=poll(&pf,1,(int)(1000*std::max(0.0,timeout-(now()-t0)))); } while (r<0 && errno==EINTR);
    u32 st;
    if (r==0) { st=HUNG; stop(); }
    else if (read(from,&ch,1)==1) st=(u32)ch;
    else { st=CRASHED; int ws=0; waitpid(pid,&ws,0); pid=-1; close(to); close(from);
           std::string m = WIFSIGNALED(ws) ? "killed by signal "+std::to_string(WTERMSIG(ws)) : "exited with code "+std::to_string(WEXITSTATUS(ws));
           put(sh->msg,sizeof sh->msg,m); }
    tape.assign(sh->tape,sh->tape+sh->ntape);
    return st;
  }
};

// Re-runs the cases from, from+step, ..., idx of a worker in a fresh process; true if case idx fails
inline bool run_sequence (const Prop& p, u64 from, u64 step, u64 idx, u32 kind, Shared* sh) {
  opts().deadline=0;
  std::memset((void*)sh,0,sizeof(Shared));
  fflush(nullptr);
  pid_t pid=fork();
  if (pid==0) { worker_main(p,sh,98,from,step,idx+1); }
  int ws; double stuck=0;
  while (true) {
    pid_t r=waitpid(pid,&ws,WNOHANG);
    if (r==pid) break;
    double s=sh->started;
    if (s>0 && now()-s>3*opts().timeout) { kill(pid,SIGKILL); waitpid(pid,&ws,0); stuck=1; break; }
    usleep(5000);
  }
  Logs::remove(98);
  if (sh->index!=idx) return false;
  if (stuck) return kind==HUNG;
  if (WIFEXITED(ws) && WEXITSTATUS(ws)==0) return false;
  if (WIFEXITED(ws) && WEXITSTATUS(ws)==3) return kind==FAILED;
  return kind==CRASHED;
}

inline void investigate (const Prop& p, Failure& f) {
  Server sv(p);
  double t0=now();
  // what happens may differ from run to run where the threads' schedule matters
  auto fails = [&](std::vector<u64>& t, bool fresh, double to)->bool { u32 s=sv.run(t,to,fresh); return s==f.kind || (p.nondet && (s==FAILED||s==CRASHED)); };
  double to = f.kind==HUNG ? 3*opts().timeout : opts().timeout, hard=t0+150;
  auto confirm = [&](const std::vector<u64>& tape, int need, int tries)->bool {
    int ok=0;
    for (int i=0;i<tries && ok<need;++i) { if (now()>hard) return false; auto t=tape; if (fails(t,true,to)) ++ok; else if (!p.nondet) return false; }
    return ok>=need;
  };
  auto orig=f.tape;
  bool single = p.nondet ? false : confirm(orig,f.kind==HUNG?2:3,f.kind==HUNG?2:3);
  if (p.nondet) { // keep trying for a while
    double tn=now();
    for (int i=0;i<400 && now()-tn<60 && !single;++i) { auto t=orig; if (fails(t,false,to)) { single=true; f.msg=sv.sh->msg; f.desc=sv.sh->desc; if (f.kind!=FAILED) f.log=Logs::tail(99); } }
  }
  if (single) {
    f.reproduced=true;
    auto best=orig;
    int reps = p.nondet ? 12 : 1;
    double bud=opts().shrink_s;
    u64 maxruns = f.kind==HUNG ? 30 : 6000;
    shrink(best,[&](std::vector<u64>& t){
      auto in=t;
      for (int r=0;r<reps;++r) { t=in; if (fails(t,false,f.kind==HUNG?opts().timeout:to)) return true; }
      return false;
    },[&]{ return now()-t0>bud || sv.runs>maxruns; });
    if (best!=orig) {
      bool ok = p.nondet ? confirm(best,1,60) : confirm(best,3,3);
      if (ok) f.tape=best;
    }
    auto t=f.tape;
    for (int i=0;i<(p.nondet?200:1) && (i==0 || now()<hard);++i) { t=f.tape; if (!fails(t,true,to) && p.nondet) continue;
      f.msg=sv.sh->msg; f.desc=sv.sh->desc;
      if (f.kind!=FAILED) f.log=Logs::tail(99);
      break; }
  } else if (!p.nondet) {
    // depends on the earlier cases of that worker: find how many of them are needed
    Shared* sh=new_shared();
    u64 step=f.nworkers, first=f.index%step;
    if (run_sequence(p,first,step,f.index,f.kind,sh) && run_sequence(p,first,step,f.index,f.kind,sh)) {
      u64 k=1, from=first;
      while (f.index>=first+k*step && now()-t0<60) {
        u64 tryfrom=f.index-k*step;
        if (run_sequence(p,tryfrom,step,f.index,f.kind,sh)) { from=tryfrom; break; }
        k*=2;
      }
      f.sequence=true; f.seq_from=from; f.reproduced=run_sequence(p,from,step,f.index,f.kind,sh);
      f.msg=sh->msg; f.desc=sh->desc;
    }
    munmap(sh,sizeof(Shared));
  }
  f.shrink_runs=sv.runs;
}

inline Failure run_prop (const Prop& p, u64 total, Stats& st) {
  int W = std::max(1,std::min<int>(opts().workers,(int)std::max<u64>(1,total/4)));
  distinct().init(total);
  std::vector<Shared*> sh(W); std::vector<pid_t> pid(W);
  for (int w=0;w<W;++w) {
    sh[w]=new_shared();
    fflush(nullptr);
    pid[w]=fork();
    if (pid[w]==0) worker_main(p,sh[w],w,w,W,total);
  }
  Failure f; int alive=W;
  while (alive>0) {
    bool any=false;
    for (int w=0;w<W;++w) if (pid[w]>0) {
      int ws; pid_t r=waitpid(pid[w],&ws,WNOHANG);
      u32 kind=OK; std::string m;
      if (r==pid[w]) {
        any=true; --alive; pid[w]=0;
        if (WIFEXITED(ws) && WEXITSTATUS(ws)==0) continue;
        kind = WIFEXITED(ws)&&WEXITSTATUS(ws)==3 ? FAILED : CRASHED;
        if (kind==CRASHED) m = WIFSIGNALED(ws) ? "killed by signal "+std::to_string(WTERMSIG(ws)) : "exited with code "+std::to_string(WEXITSTATUS(ws));
      } else {
        double s=sh[w]->started;
        if (s>0 && now()-s>opts().timeout) { kill(pid[w],SIGKILL); waitpid(pid[w],&ws,0); pid[w]=0; --alive; any=true; kind=HUNG; m="no answer after "+std::to_string(opts().timeout)+" s"; }
      }
      if (kind!=OK && !f.any) {
        f.any=true; f.kind=kind; f.worker=w; f.nworkers=W; f.index=sh[w]->index;
        f.tape.assign(sh[w]->tape,sh[w]->tape+sh[w]->ntape);
        f.msg = kind==FAILED ? std::string(sh[w]->msg) : m; f.desc=sh[w]->desc;
        if (kind!=FAILED) f.log=Logs::tail(w);
        for (int v=0;v<W;++v) if (pid[v]>0) kill(pid[v],SIGKILL);
        for (int v=0;v<W;++v) if (pid[v]>0) { waitpid(pid[v],nullptr,0); pid[v]=0; }
        alive=0;
        break;
      }
    }
    if (!any) usleep(2000);
  }
  for (int w=0;w<W;++w) { st.add(sh[w]); munmap(sh[w],sizeof(Shared)); Logs::remove(w); }
  if (f.any) investigate(p,f);
  return f;
}

inline int main_ (int argc, char** argv) {
  g_argc=1; g_argv=argv;
  auto& o=opts();
  for (int i=1;i<argc;++i) {
    std::string a=argv[i]; auto val=[&]{ return std::string(argv[++i]); };
    if (a=="--tier") o.tier=val(); else if (a=="--seed") o.seed=std::stoull(val()); else if (a=="--out") o.out=val();
    else if (a=="--replay") o.replay=val(); else if (a=="--only") o.only=val(); else if (a=="--workers") o.workers=std::stoi(val());
    else if (a=="--timeout") o.timeout=std::stod(val()); else if (a=="--scale") o.scale=std::stod(val()); else if (a=="--verbose") o.verbose=true;
    else if (a=="--budget") o.budget=std::stod(val());
    else { std::cerr << "unknown option " << a << "\n"; return 2; }
  }
  Logs::owner()=getpid();
  if (!o.replay.empty()) { // lines: "prop NAME", "tape N N N ..." or "sequence FROM STEP INDEX SEED"
    std::ifstream in(o.replay); std::string line, name; std::vector<u64> tape; bool seq=false; u64 from=0,step=1,idx=0; u32 kind=FAILED;
    while (std::getline(in,line)) {
      std::istringstream ls(line); std::string k; ls >> k;
      if (k=="prop") ls >> name;
      else if (k=="kind") { std::string s; ls >> s; kind = s=="fail"?FAILED:s=="hang"?HUNG:CRASHED; }
      else if (k=="tape") { u64 v; while (ls >> v) tape.push_back(v); }
      else if (k=="sequence") { seq=true; ls >> from >> step >> idx >> o.seed; }
    }
    for (auto& p : props()) if (p.name==name) {
      u32 st=OK; std::string msg,desc,log;
      if (seq) { Shared* sh=new_shared(); if (run_sequence(p,from,step,idx,kind,sh)) st=kind; msg=sh->msg; desc=sh->desc; }
      else {
        Server sv(p);
        for (int i=0;i<(p.nondet?300:1) && (st==OK||st==DISCARDED);++i) { auto t=tape; st=sv.run(t,3*o.timeout,true); }
        msg=sv.sh->msg; desc=sv.sh->desc; if (st==CRASHED) log=Logs::tail(99);
      }
      const char* nm[]={"RUNNING","OK","FAILED","DISCARDED","CRASHED","HUNG"};
      std::cout << "replay " << name << ": " << nm[st] << "\n" << msg << "\ncase:\n" << desc << "\n" << log << "\n";
      return st==OK||st==DISCARDED ? 0 : 1;
    }
    std::cerr << "no property " << name << "\n"; return 2;
  }
  std::ofstream of; if (!o.out.empty()) of.open(o.out);
  std::ostream& out = o.out.empty() ? std::cout : of;
  out << "[\n"; bool first=true; int rc=0; double start=now(); size_t left=props().size();
  for (auto& p : props()) {
    size_t share=left--;
    if (!o.only.empty() && p.name!=o.only) continue;
    double t0=now();
    if (o.budget>0) o.deadline=t0+std::max(3.0,(o.budget-(t0-start))/share);   // never reached on a machine of usual speed
    u64 n = (u64)std::max(1.0,o.scale*(o.tier=="quick"?p.quick:p.thorough));
    Stats st; Failure f = run_prop(p,n,st);
    if (f.any) rc=1;
    write_result(out,p,st,f,now()-t0,first); first=false; out.flush();
    if (f.reproduced && o.budget>0 && p.name.compare(0,6,"probe_")) break;   // enough for a quick check
  }
  out << "\n]\n";
  return rc;
}
} // namespace vp
#ifdef VP_OTHER_MAIN   // the harness may also be run as something else
int vp_other_main (int argc, char** argv);   // -1: not this time
int main (int argc, char** argv) { int r=vp_other_main(argc,argv); return r>=0?r:vp::main_(argc,argv); }
#else
int main (int argc, char** argv) { return vp::main_(argc,argv); }
#endif

#else // VP_MPI
#include <mpi.h>
namespace vp {
// Every rank runs the same cases (same choices); after each case the ranks agree on the verdict, so that
// they shrink in lock step. A crash or deadlock ends the job: the caller then replays the tape file.
inline int main_ (int argc, char** argv) {
  auto& o=opts();
  vp_init(argc,argv);
  for (int i=1;i<argc;++i) {
    std::string a=argv[i]; auto val=[&]{ return std::string(argv[++i]); };
    if (a=="--tier") o.tier=val(); else if (a=="--seed") o.seed=std::stoull(val()); else if (a=="--out") o.out=val();
    else if (a=="--replay") o.replay=val(); else if (a=="--only") o.only=val(); else if (a=="--tapefile") o.tapefile=val();
    else if (a=="--scale") o.scale=std::stod(val()); else if (a=="--workers"||a=="--timeout"||a=="--budget") val();
  }
  int rank,size; MPI_Comm wc; MPI_Comm_dup(MPI_COMM_WORLD,&wc); MPI_Comm_rank(wc,&rank); MPI_Comm_size(wc,&size);
  Shared* sh=nullptr;
  if (rank==0 && !o.tapefile.empty()) {
    int fd=open(o.tapefile.c_str(),O_RDWR|O_CREAT|O_TRUNC,0600);
    if (fd<0 || ftruncate(fd,sizeof(Shared))) { perror("tapefile"); MPI_Abort(wc,2); }
    sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
  } else sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  std::string fmsg;
  auto agree = [&](u32 st)->u32 {
    int mine = st==FAILED ? 2 : st==DISCARDED ? 1 : 0, all;
    MPI_Allreduce(&mine,&all,1,MPI_INT,MPI_MAX,wc);
    if (all==2) {
      int who = mine==2 ? rank : size, first; MPI_Allreduce(&who,&first,1,MPI_INT,MPI_MIN,wc);
      char buf[2048]; std::memset(buf,0,sizeof buf); if (rank==first) put(buf,sizeof buf,"[rank "+std::to_string(rank)+"] "+sh->msg);
      MPI_Bcast(buf,sizeof buf,MPI_CHAR,first,wc); fmsg=buf;
    }
    return all==2?FAILED:all==1?DISCARDED:OK;
  };
  int rc=0;
  if (!o.replay.empty()) {
    std::ifstream in(o.replay); std::string line,name; std::vector<u64> tape; bool seq=false; u64 from=0,step=1,idx=0;
    while (std::getline(in,line)) {
      std::istringstream ls(line); std::string k; ls >> k;
      if (k=="prop") ls >> name; else if (k=="tape") { u64 v; while (ls>>v) tape.push_back(v); }
      else if (k=="sequence") { seq=true; ls >> from >> step >> idx >> o.seed; }
    }
    rc=2;
    if (rank==0 && !std::any_of(props().begin(),props().end(),[&](auto& p){ return p.name==name; })) std::cerr << "no property " << name << std::endl;
    for (auto& p : props()) if (p.name==name) {
      u32 st=OK;
      if (seq) for (u64 i=from;i<=idx;i+=step) st=agree(run_case(p,sh,true,case_seed(p,i),nullptr,false));
      else st=agree(run_case(p,sh,false,0,&tape,false));
      if (rank==0) std::cout << "replay " << name << ": " << (st==FAILED?"FAILED":"OK") << "\n" << fmsg << "\ncase:\n" << sh->desc << std::endl;
      rc = st==FAILED;
    }
  } else {
    std::ofstream of; if (rank==0 && !o.out.empty()) of.open(o.out);
    if (rank==0) of << "[\n";
    bool first=true;
    for (auto& p : props()) {
      if (!o.only.empty() && p.name!=o.only) continue;
      double t0=now();
      u64 n=(u64)std::max(1.0,o.scale*(o.tier=="quick"?p.quick:p.thorough));
      distinct().init(n);
      sh->evals=sh->nontrivial=sh->discards=sh->hits=0; sh->nlabels=sh->nsamples=0;
      put(sh->sample[0],1500,"");
      Failure f;
      for (u64 i=0;i<n;++i) {
        sh->index=i; put(sh->prop,64,p.name);
        u32 st=agree(run_case(p,sh,true,case_seed(p,i),nullptr,true));
        if (st==FAILED) { f.any=true; f.kind=FAILED; f.index=i; f.tape.assign(sh->tape,sh->tape+sh->ntape); f.msg=fmsg; f.desc=sh->desc; break; }
      }
      if (f.any) {
        auto fails=[&](std::vector<u64>& t)->bool { auto in=t; u32 st=agree(run_case(p,sh,false,0,&in,false)); t.assign(sh->tape,sh->tape+sh->ntape); ++f.shrink_runs; return st==FAILED; };
        bool ok=true; for (int k=0;k<3 && ok;++k) { auto t=f.tape; ok=fails(t); }
        f.reproduced=ok;
        if (ok) { auto best=f.tape; shrink(best,fails,[&]{ return f.shrink_runs>1500; }); auto t=best; if (fails(t)) { f.tape=best; f.msg=fmsg; f.desc=sh->desc; } }
        rc=1;
      }
      if (rank==0) { Stats st; st.add(sh); write_result(of,p,st,f,now()-t0,first); of.flush(); }
      first=false;
    }
    if (rank==0) of << "\n]\n";
  }
  MPI_Barrier(wc); MPI_Comm_free(&wc);
  vp_fini();
  return rc;
}
} // namespace vp
#ifdef VP_OTHER_MAIN   // the harness may also be run as something else
int vp_other_main (int argc, char** argv);   // -1: not this time
int main (int argc, char** argv) { int r=vp_other_main(argc,argv); return r>=0?r:vp::main_(argc,argv); }
#else
int main (int argc, char** argv) { return vp::main_(argc,argv); }
#endif
#endif
#endif // VP_MAIN
#endif // VP_HPP
