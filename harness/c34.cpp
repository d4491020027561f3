// C34: test programs. The binary of this harness is also a test program: run with C34_MODE in its environment it behaves like one
// built with EKAT's main (src/testing-support, compiled with main renamed), the default test session or one of its own (VP_USER).
#define VP_MAIN
#define VP_OTHER_MAIN
#include "vp.hpp"
#include <catch2/catch_all.hpp>
#include "ekat_test_utils.hpp"
#include "ekat_comm.hpp"
#include "ekat_fpe.hpp"
#ifdef EKAT_HAS_KOKKOS
#include <Kokkos_Core.hpp>
#include "ekat_kokkos_session.hpp"
#endif
#ifdef EKAT_ENABLE_MPI
#include <mpi.h>
#endif
#include <map>
#include <random>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <fenv.h>
void vp_init (int&, char**&) {}
void vp_fini () {}
#undef main
int ekat_test_main (int argc, char** argv);
// ---- the test program --------------------------------------------------------------------------------------------------------
static const char* envs (const char* n) { const char* s=getenv(n); return s?s:""; }
static int my_rank () { return atoi(envs("OMPI_COMM_WORLD_RANK")); }
static void note (const std::string& s) { FILE* f=fopen((std::string(envs("C34_LOG"))+"."+std::to_string(my_rank())).c_str(),"a"); fputs((s+"\n").c_str(),f); fclose(f); }
static int threads () {
#ifdef EKAT_HAS_KOKKOS
  return Kokkos::is_initialized()?Kokkos::DefaultExecutionSpace().concurrency():0;
#else
  return 0;
#endif
}
static std::string dump (const std::map<std::string,bool>& f, const std::map<std::string,std::string>& p, const std::map<std::string,std::vector<std::string>>& v) { std::string s; for (auto& x:f) if (x.second) s+=" "+x.first; s+=" |"; for (auto& x:p) s+=" "+x.first+"="+x.second; s+=" |"; for (auto& x:v) { s+=" "+x.first+":"; for (auto& y:x.second) s+=y+","; } return s; }
static void body (int t) {
  ekat::Comm c;
#ifdef EKAT_ENABLE_MPI
  c.reset_mpi_comm(MPI_COMM_WORLD);
#endif
  auto& ts=ekat::TestSession::get(); note("test t"+std::to_string(t)+" rank "+std::to_string(c.rank())+" of "+std::to_string(c.size())+" threads "+std::to_string(threads())+" fpe "+std::to_string(ekat::get_enabled_fpes())+" args"+dump(ts.flags,ts.params,ts.vec_params));
  std::istringstream is(envs("C34_PLAN")); int r,u,k; while (is >> r >> u >> k) if (r==my_rank() && u==t) switch (k) { case 0: CHECK(1==2); break; case 1: REQUIRE(r<0); break; case 2: throw std::runtime_error("planned"); case 3: for (int q=0;q<256;++q) CHECK(q<0); break; default: FAIL_CHECK("planned"); }
  CHECK(true); note("end t"+std::to_string(t));
}
TEST_CASE("t0","[a]") { body(0); } TEST_CASE("t1","[b]") { body(1); } TEST_CASE("t2","[a][b]") { body(2); } TEST_CASE("t3","[c]") { body(3); } TEST_CASE("t4","[c][b]") { body(4); } TEST_CASE("t5","[a]") { body(5); }
#ifdef VP_USER
void ekat_initialize_test_session (int argc, char** argv, const bool print) { std::string s="init print "+std::to_string((int)print); for (int k=1;k<argc;++k) s+=std::string(" ")+argv[k]; note(s); }
void ekat_finalize_test_session () { int f=0;
#ifdef EKAT_ENABLE_MPI
  MPI_Finalized(&f);
#endif
  note("fini "+std::to_string(f)); }
#endif
int vp_other_main (int argc, char** argv) {
  std::string m=envs("C34_MODE"); if (m.empty()) return -1;
  if (m=="tests") { int r=ekat_test_main(argc,argv); int fin=1;
#ifdef EKAT_ENABLE_MPI
    MPI_Finalized(&fin);
#endif
    note("returned finalized "+std::to_string(fin)+" threads "+std::to_string(threads())); fedisableexcept(FE_ALL_EXCEPT); return r; }
#ifdef EKAT_HAS_KOKKOS
  for (char op:m) { switch (op) { case 'I': case 'i': ekat::initialize_kokkos_session(op=='I'); break; case 'A': case 'a': { std::string p="prog", o="--kokkos-num-threads=2", z="--other"; char* av[]={&p[0],&z[0],&o[0],nullptr}; ekat::initialize_kokkos_session(3,av,op=='A'); break; } case 'B': case 'b': { std::string p="prog", z="--other=3"; char* av[]={&p[0],&z[0],nullptr}; ekat::initialize_kokkos_session(2,av,op=='B'); break; } case 'K': if (!Kokkos::is_initialized()) Kokkos::initialize(Kokkos::InitializationSettings().set_num_threads(3).set_disable_warnings(true)); break; case 'f': ekat::finalize_kokkos_session(); break; default: break; } fflush(stdout); printf("\nstate %c %d %d\n",op,(int)Kokkos::is_initialized(),threads()); fflush(stdout); }
#endif
  return 0;
}
// ---- running it --------------------------------------------------------------------------------------------------------------
struct Run { int status=0; bool signal=false; std::string out; };
static std::string slurp (const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static Run run (const std::vector<std::string>& args, const std::vector<std::pair<std::string,std::string>>& env, const std::string& base, int np) {
  char self[4096]={}; if (readlink("/proc/self/exe",self,sizeof self-1)<0) VP_FAIL("no executable"); std::vector<std::string> a; if (np>1) a={"mpiexec","--oversubscribe","--bind-to","none","-n",std::to_string(np)}; a.push_back(self); a.insert(a.end(),args.begin(),args.end());
  std::vector<char*> av; for (auto& s:a) av.push_back(&s[0]); av.push_back(nullptr); std::string of=base+".out"; pid_t p=fork();
  if (p==0) { prctl(PR_SET_PDEATHSIG,SIGKILL); int o=open(of.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600), n=open("/dev/null",O_RDONLY); dup2(n,0); dup2(o,1); dup2(o,2); signal(SIGABRT,SIG_DFL); signal(SIGSEGV,SIG_DFL); for (auto& e:env) setenv(e.first.c_str(),e.second.c_str(),1); execvp(av[0],av.data()); _exit(126); }
  int st=0; while (waitpid(p,&st,0)<0 && errno==EINTR) {} Run r; r.signal=WIFSIGNALED(st); r.status=WIFEXITED(st)?WEXITSTATUS(st):-1; r.out=slurp(of); ::unlink(of.c_str()); if (r.status==126) VP_FAIL("could not be started"); return r; }
static int count (const std::string& s, const std::string& w) { int n=0; for (size_t p=0;(p=s.find(w,p))!=std::string::npos;p+=w.size()) ++n; return n; }
static std::string base () { static int k=0; const char* t=getenv("VP_TMP"); return std::string(t?t:"/tmp")+"/c34-"+std::to_string(getpid())+"-"+std::to_string(k++); }
static const std::vector<std::string> tags={"a","b","ab","c","cb","a"};
static void programs_ (vp::Case& c, int np) {
  // which tests
  std::vector<std::string> args; std::vector<bool> sel(6,true); auto only=[&](auto&& f){ for (int t=0;t<6;++t) sel[t]=f(t); }; auto has=[&](int t, char g){ return tags[t].find(g)!=std::string::npos; };
  std::string spec; switch (c.below(6)) { case 0: { sel.assign(6,false); int n=c.irange(1,3); for (int k=0;k<n;++k) { int t=(int)c.below(6); sel[t]=true; spec+=(k?",t":"t")+std::to_string(t); } break; } case 1: { char g="abc"[c.below(3)]; spec=std::string("[")+g+"]"; only([&](int t){ return has(t,g); }); break; } case 2: spec="[a],[c]"; only([&](int t){ return has(t,'a')||has(t,'c'); }); break; case 3: spec="[a][b]"; only([&](int t){ return has(t,'a')&&has(t,'b'); }); break; case 4: spec="~[b]"; only([&](int t){ return !has(t,'b'); }); break; default: break; }
  bool abort_=c.chance(1,5); std::vector<std::string> front; if (!spec.empty()) front.push_back(spec); if (abort_) front.push_back("-a"); if (c.chance(1,4)) front.push_back("-s"); if (c.chance(1,4)) { front.push_back("--order"); front.push_back("decl"); } else if (c.chance(1,4)) { front.push_back("-d"); front.push_back("no"); } if (front.size()>1 && c.b() && front.back()=="-s") { front.pop_back(); front.insert(front.begin(),"-s"); }
  // the program's own arguments
  std::map<std::string,bool> flags; std::map<std::string,std::string> params; std::map<std::string,std::vector<std::string>> vec; std::vector<std::string> own; int kk=0, n=c.chance(1,4)?0:c.irange(0,6); bool sep=n>0||c.b();
  for (int k=0;k<n;++k) { std::string key=c.pick(std::vector<std::string>{"a","s","p","args","order","file","num-cols","d","h","list-tests","x"}); std::vector<std::string> vals; auto val=[&]{ return c.pick(std::vector<std::string>{"1","t3","[a]","foo","3.5","~t1","a b","x.yaml",""+std::to_string(c.irange(0,99))}); }; std::string arg=(c.b()?"--":"-")+key;
    switch (c.below(6)) { case 0: own.push_back(arg); break; case 1: vals={val()}; own.push_back(arg+"="+vals[0]); break; case 2: vals={val(),val()}; own.push_back(arg+"="+vals[0]+","+vals[1]); break; case 3: vals={val()}; own.push_back(arg); own.push_back(vals[0]); break; case 4: vals={val(),val(),val()}; own.push_back(arg); own.push_back(vals[0]); own.push_back(vals[1]+","+vals[2]); break; default:
      if (kk==0 && c.b()) { kk=c.irange(1,4); key="kokkos-num-threads"; vals={std::to_string(kk)}; own.push_back("--"+key+"="+vals[0]); } else { vals={val(),val()}; own.push_back(arg); own.push_back(vals[0]); own.push_back(vals[1]); } }
    if (vals.empty()) flags[key]=true; else for (auto& v:vals) vec[key].push_back(v); }
  for (auto& v:vec) if (v.second.size()==1) params[v.first]=v.second[0];
  int bad=np==1?c.weighted({12,1,1,1}):0; if (bad==1) front.push_back("--nonsense"); else if (bad==2) { sep=true; own.insert(own.begin(),"loose"); } else if (bad==3) { sep=true; own.push_back("-k=1=2"); }
  args=front; if (sep) { args.push_back("--args"); args.insert(args.end(),own.begin(),own.end()); }
  // which of them fail
  std::vector<std::vector<int>> plan(np,std::vector<int>(6,-1)); std::string ps; if (c.chance(2,3)) { int m=c.irange(1,3); for (int k=0;k<m;++k) { int r=(int)c.below((size_t)np), t=(int)c.below(6), q=(int)c.below(5); if (plan[r][t]<0) { plan[r][t]=q; ps+=std::to_string(r)+" "+std::to_string(t)+" "+std::to_string(q)+" "; } } }
  int omp=c.irange(1,4); c.d << np << " rank(s), OMP_NUM_THREADS=" << omp << ", failures (rank test kind) " << ps << ":"; for (auto& a:args) c.d << " " << vp::quote(a);
  std::string b=base(); Run r=run(args,{{"C34_MODE","tests"},{"C34_LOG",b},{"C34_PLAN",ps},{"OMP_NUM_THREADS",std::to_string(omp)}},b,np);
  bool fails=false, any=false; int ran=0; std::string err; for (int k=0;k<np;++k) for (int t=0;t<6;++t) any|=sel[t]&&plan[k][t]>=0;   /* once a rank has ended with a failure, mpiexec may end the others */ auto bad_=[&](const std::string& s){ if (err.empty()) err=s; };
  for (int k=0;k<np;++k) {
    std::string f=b+"."+std::to_string(k), got=slurp(f); ::unlink(f.c_str()); std::string want;
#ifdef VP_USER
    want+="init print "+std::to_string((int)(k==0)); for (auto& a:args) want+=" "+a; want+="\n"; int th=0;
#elif defined EKAT_HAS_KOKKOS
    int th=kk?kk:omp;
#else
    int th=0;
#endif
#if defined EKAT_ENABLE_FPE_DEFAULT_MASK && !defined VP_USER
    int fpe=FE_DIVBYZERO|FE_INVALID|FE_OVERFLOW;
#else
    int fpe=0;
#endif
    for (int t=0;t<6;++t) if (sel[t]) { ++ran; want+="test t"+std::to_string(t)+" rank "+std::to_string(k)+" of "+std::to_string(np)+" threads "+std::to_string(th)+" fpe "+std::to_string(fpe)+" args"+dump(flags,params,vec)+"\n"; int q=plan[k][t]; if (q<0) want+="end t"+std::to_string(t)+"\n"; else { fails=true; if (!abort_ && q!=1 && q!=2) want+="end t"+std::to_string(t)+"\n"; if (abort_) break; } }
#ifdef VP_USER
    want+="fini 0\n";
#endif
    want+="returned finalized 1 threads 0\n";
    if (bad) { if (count(got,"test t")) bad_("the arguments are malformed, but tests ran: "+vp::quote(got)); if (!r.signal && r.status==0) bad_("the arguments are malformed, but the program succeeds"); }
    else if (got!=want && !(np>1 && any && got+"returned finalized 1 threads 0\n"==want)) bad_("rank "+std::to_string(k)+" did "+vp::quote(got)+", expected "+vp::quote(want)); }
  if (!bad) { if (r.signal) bad_("ended by a signal"); if (fails!=(r.status!=0)) bad_("exit status "+std::to_string(r.status)+" although "+(fails?"a test failed":"no test failed"));
#ifndef VP_USER
    if (count(r.out,"active avx set")!=1 || count(r.out,"current FPE")!=1) bad_("the configuration was printed "+std::to_string(count(r.out,"active avx set"))+" times");
#ifdef EKAT_HAS_KOKKOS
    if (count(r.out,"#host threads")!=1) bad_("the Kokkos configuration was printed "+std::to_string(count(r.out,"#host threads"))+" times");
#endif
#endif
  }
  if (!err.empty()) VP_FAIL(err << "\noutput: " << vp::quote(r.out.substr(0,1500))); c.nontrivial(ran>0 && !own.empty()); c.label("failing tests",fails); c.label("malformed",bad!=0); c.label("several ranks",np>1); c.label("Kokkos options",kk>0); c.label("stopped at the first failure",fails&&abort_);
}
VP_PROP(programs, 300, 6000, "runs of a test program with framework arguments, own arguments after --args (also ones that look like the framework's), failures planned per test: tests run, arguments they see, session, exit status; non-trivial: own arguments and a test that runs") { programs_(c,1); }
#ifdef EKAT_ENABLE_MPI
VP_PROP(parallel_programs, 40, 1000, "the same on 2 to 4 MPI ranks with failures planned per rank and test; non-trivial: as above") { programs_(c,c.irange(2,4)); }
#endif
#if defined EKAT_HAS_KOKKOS && !defined VP_USER
VP_PROP(kokkos_sessions, 200, 4000, "sequences of starts of the Kokkos session with and without arguments and printing, by EKAT or by the user, and of ends, also before a start and repeated; state, number of threads and what is printed after every step; non-trivial: a repeated start or end") {
  int n=c.irange(1,8), omp=c.irange(1,4); std::string ops; bool up=false, over=false; int th=0, rep=0; std::vector<std::string> want; for (int k=0;k<n;++k) { char o=over?'f':"IiAaBbKf"[c.weighted({2,2,2,2,1,1,1,2})]; ops+=o; bool print=o=='I'||o=='A'||o=='B'; std::string w; if (o=='f') { rep+=!up; over|=up; up=false; th=0; } else { if (o=='K') { if (!up) { up=true; th=3; } } else { rep+=up; if (!up) { if (print) w+="Calling initialize_kokkos\n"; up=true; th=o=='A'||o=='a'?2:omp; } if (print) w+="#host threads: "+std::to_string(th)+"\n"; } }
    want.push_back(w+"state "+std::string(1,o)+" "+std::to_string((int)up)+" "+std::to_string(th)); }
  ops+=up?"f":""; if (up) want.push_back("state f 0 0"); c.d << ops << " with OMP_NUM_THREADS=" << omp; std::string b=base(); Run r=run({},{{"C34_MODE",ops},{"C34_LOG",b},{"OMP_NUM_THREADS",std::to_string(omp)}},b,1);
  VP_CHECK(!r.signal && r.status==0,"ends with status " << r.status << ": " << vp::quote(r.out.substr(0,1500))); std::string got, w; std::istringstream is(r.out); std::string l; while (std::getline(is,l)) { if (l.find("Calling initialize_kokkos")!=std::string::npos) got+="Calling initialize_kokkos\n"; size_t p=l.find("#host threads: "); if (p!=std::string::npos) got+=l.substr(p)+"\n"; if (l.compare(0,6,"state ")==0) got+=l+"\n"; } for (auto& x:want) w+=x+"\n"; VP_CHECK(got==w,"printed and reached " << vp::quote(got) << ", expected " << vp::quote(w)); c.nontrivial(rep>0); }
#endif
VP_PROP(option_names, 20000, 300000, "argv_matches on names made of few characters and dashes against its definition; non-trivial: it matches") {
  auto s=[&](int k){ std::string t; int n=c.irange(k,4); for (int i=0;i<n;++i) t+=(char)c.pick({'-','-','n','p','a'}); return t; }; std::string sh=s(1), lg=s(1), x; switch (c.below(5)) { case 0: x=sh; break; case 1: x=lg; break; case 2: x="-"+sh; break; case 3: x="-"+lg; break; default: x=s(0); } c.d << vp::quote(x) << " for " << vp::quote(sh) << " or " << vp::quote(lg); bool want=x==sh||x==lg||x=="-"+sh, got=ekat::argv_matches(x,sh,lg); VP_CHECK(got==want,"argv_matches gives " << got); c.nontrivial(want); }
template<typename T, typename D> static void fill (vp::Case& c, D d) { int n=c.irange(0,60); vp::u64 seed=c.draw(1000000); std::mt19937_64 g(seed), h(seed); std::unique_ptr<T[]> x(new T[n+2]); for (int k=0;k<n+2;++k) x[k]=(T)77; D d2(d); ekat::genRandArray(x.get()+1,n,g,d); c.d << n << " values"; for (int k=0;k<n;++k) { T w=(T)d2(h); VP_CHECK(x[k+1]==w,"value " << k << " is " << x[k+1] << ", expected " << w); } VP_CHECK(x[0]==(T)77 && x[n+1]==(T)77,"written outside the array"); VP_CHECK(g()==h(),"the generator is in another state"); c.nontrivial(n>0); }
VP_PROP(random_arrays, 4000, 60000, "genRandArray with several distributions and element types against the same generator called directly; non-trivial: not empty") { double a=c.irange(-5,5); switch (c.below(4)) { case 0: fill<double>(c,std::uniform_real_distribution<double>(a,a+2)); break; case 1: fill<float>(c,std::uniform_real_distribution<float>((float)a,(float)a+1)); break; case 2: fill<int>(c,std::uniform_int_distribution<int>((int)a,(int)a+9)); break; default: fill<double>(c,std::normal_distribution<double>(a,1)); } }
