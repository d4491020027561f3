// C35: the tools that run tests: bin/test-launcher as configured for a build, the sources generated for expected assertion failures,
// and the tests and files that the CMake functions declare, listed and run by ctest with a stand-in for mpirun.
#define VP_MAIN
#include "vp.hpp"
#include <sched.h>
#include <fcntl.h>
#include <csignal>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
namespace fs=std::filesystem; using S=std::string; using VS=std::vector<S>;
static S repo () { const char* r=getenv("VP_REPO"); return r?r:"/repo"; }
static fs::path dir, bin;   // this process's scratch directory; programs used by the cases
static S slurp (const fs::path& p) { std::ifstream f(p,std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit (const fs::path& p, const S& t, bool x=false) { { std::ofstream f(p,std::ios::binary); f << t; } if (x) chmod(p.c_str(),0755); }
static S put (S t, const S& a, const S& b) { for (size_t k=0;(k=t.find(a,k))!=S::npos;k+=b.size()) t.replace(k,a.size(),b); return t; }
static VS words (const S& t, char sep='\n') { VS r; std::stringstream s(t); S l; while (std::getline(s,l,sep)) r.push_back(l); return r; }
static S join (const VS& v, const S& sep=" ") { S r; for (size_t k=0;k<v.size();++k) r+=(k?sep:"")+v[k]; return r; }
struct Out { int status; S text; };   // exit status (or 1000 + signal), standard output and error
static Out run (const VS& argv, const std::map<S,S>& env, const fs::path& cwd, const VS& unset={}) {
  int p[2]; if (pipe(p)) throw std::runtime_error("pipe"); pid_t pid=fork();
  if (!pid) { close(p[0]); dup2(p[1],1); dup2(p[1],2); int z=open("/dev/null",O_RDONLY); dup2(z,0); if (chdir(cwd.c_str())) _exit(126); for (auto& u : unset) unsetenv(u.c_str()); for (auto& e : env) setenv(e.first.c_str(),e.second.c_str(),1);
    std::vector<char*> a; for (auto& s : argv) a.push_back(const_cast<char*>(s.c_str())); a.push_back(nullptr); execvp(a[0],a.data()); _exit(127); }
  close(p[1]); Out o; char b[4096]; ssize_t n; while ((n=read(p[0],b,sizeof b))>0) o.text.append(b,(size_t)n); close(p[0]); int st; while (waitpid(pid,&st,0)<0) {} o.status=WIFEXITED(st)?WEXITSTATUS(st):1000+WTERMSIG(st); return o; }
// The program that is run: it notes its arguments, part of its environment and the cores it may use, prints a text and ends as told
static const char* program = R"(#!/bin/sh
f=$(mktemp "$VP_REC/rec.XXXXXX")
{ echo "N $#"; for a in "$@"; do printf 'A %s\n' "$a"; done
  for v in OMP_PROC_BIND OMP_PLACES OMP_DISPLAY_ENV OMP_DISPLAY_AFFINITY OMP_NUM_THREADS VP_OTHER VP_RANK VP_SIZE; do eval "[ -z \"\${$v+x}\" ] || printf 'E %s=%s\n' $v \"\$$v\""; done
  while read -r k v; do [ "$k" != Cpus_allowed_list: ] || echo "C $v"; done < /proc/self/status
  echo "D $PWD"; } > "$f.part"
mv "$f.part" "$f.rec"
[ -z "$VP_RAW" ] || printf '\377\376\n'
[ -z "$VP_TEXT" ] || echo "$VP_TEXT"
[ -z "$VP_ERR" ] || echo "$VP_ERR" >&2
case "$VP_END" in kill) kill -9 $$;; '') exit 0;; *) exit $VP_END;; esac
)";
static const char* mpirun = R"(#!/bin/sh
# stand-in for mpirun: -n N [-t T] command; the ranks run one after another
[ "$1" = -n ] || exit 90
n=$2; shift 2; [ "$1" != -t ] || { export VP_T=$2; shift 2; }
r=0; s=0
while [ $r -lt $n ]; do OMPI_COMM_WORLD_SIZE=$n OMPI_COMM_WORLD_RANK=$r VP_SIZE=$n VP_RANK=$r "$@" || s=1; r=$((r+1)); done
exit $s
)";
struct Rec { VS args; std::map<S,S> env; std::set<int> cores; S cwd; };
static std::set<int> cores_of (const S& list) { std::set<int> r; for (auto& t : words(list,',')) { int a=0, b=0; if (std::sscanf(t.c_str(),"%d-%d",&a,&b)==1) b=a; for (int k=a;k<=b;++k) r.insert(k); } return r; }
static std::vector<Rec> records (const fs::path& d) { std::vector<Rec> r; VS names; for (auto& e : fs::directory_iterator(d)) if (e.path().extension()==".rec") names.push_back(e.path().string()); for (auto& f : names) { Rec x; for (auto& l : words(slurp(f))) { S v=l.size()>2?l.substr(2):""; if (l[0]=='A') x.args.push_back(v); if (l[0]=='E') x.env[v.substr(0,v.find('='))]=v.substr(v.find('=')+1); if (l[0]=='C') x.cores=cores_of(v); if (l[0]=='D') x.cwd=v; } r.push_back(x); } return r; }
static S show (const std::set<int>& s) { S r; for (int k : s) r+=(r.empty()?"":",")+std::to_string(k); return r; }
static std::set<int> mine () { std::set<int> r; cpu_set_t c; CPU_ZERO(&c); if (!sched_getaffinity(0,sizeof c,&c)) for (int k=0;k<CPU_SETSIZE;++k) if (CPU_ISSET(k,&c)) r.insert(k); return r; }
static const VS vars={"OMP_PROC_BIND","OMP_PLACES","OMP_DISPLAY_ENV","OMP_DISPLAY_AFFINITY","OMP_NUM_THREADS","VP_OTHER","VP_RANK","VP_SIZE","OMPI_COMM_WORLD_SIZE","OMPI_COMM_WORLD_RANK","PMI_SIZE","PMI_RANK","CTEST_RESOURCE_GROUP_COUNT","VP_END","VP_TEXT","VP_ERR","VP_RAW"};
void vp_init (int&, char**&) { dir=fs::path(getenv("VP_TMP")?getenv("VP_TMP"):"/tmp")/("vp_c35_"+std::to_string(getpid())); fs::create_directories(dir); bin=dir/"programs"; fs::create_directories(bin); spit(bin/"prog",program,true); spit(bin/"mpi",mpirun,true); }
void vp_fini () { if (dir.string().find("vp_c35_")!=S::npos) fs::remove_all(dir); }
struct Dir { fs::path p; Dir () { static int n=0; p=dir/(std::to_string(getpid())+"_"+std::to_string(n++)); fs::create_directories(p/"rec"); } ~Dir () { std::error_code e; if (p.string().find("vp_c35_")!=S::npos) fs::remove_all(p,e); } };
static S arg (vp::Case& c) { if (c.chance(1,4)) return c.pick(VS{"-p","-b","--buffer-output","--help","--","-h","--print-omp-affinity","-n","--args","-"}); return c.chance(1,2)?c.str("ab-=_.,:/+%@01",1,8):c.pick(VS{"-r","--iter","x","a=b","3","1.5e-3","/tmp/x.yaml","tag"}); }
struct Config { int manage, gpu, mpi; };   // mpi: 0 none, 1 the names of one implementation, 2 of the other
static const char* size_name[]={"","OMPI_COMM_WORLD_SIZE","PMI_SIZE"}; static const char* rank_name[]={"","OMPI_COMM_WORLD_RANK","PMI_RANK"};
static fs::path launcher (const Config& k) { fs::path f=bin/("launcher"+std::to_string(k.manage)+std::to_string(k.gpu)+std::to_string(k.mpi)); if (!fs::exists(f)) { S t=slurp(repo()+"/bin/test-launcher"); t=put(t,"${EKAT_MPIRUN_COMM_WORLD_SIZE}",size_name[k.mpi]); t=put(t,"${EKAT_MPIRUN_COMM_WORLD_RANK}",rank_name[k.mpi]); t=put(t,"${TEST_LAUNCHER_MANAGE_RESOURCES}",k.manage?"True":"False"); t=put(t,"${TEST_LAUNCHER_ON_GPU}",k.gpu?"True":"False"); fs::path n=f; n+="."+std::to_string(getpid()); spit(n,t,true); fs::rename(n,f); } return f; }
VP_PROP(launches, 260, 6000, "command lines of the launcher (options, right and wrong forms) for a program that records what it gets, with environments and resource groups, on all ranks of a run: arguments, environment, cores, text, exit status; non-trivial: the program runs with arguments") {
  Dir d; Config k{(int)c.below(2),0,(int)c.below(3)}; k.gpu=k.manage&&c.chance(1,5); int n=k.mpi?c.irange(1,4):1; bool buf=c.chance(1,3), aff=c.chance(1,4); VS opt; if (buf) opt.push_back(c.b()?"-b":"--buffer-output"); if (aff) opt.push_back(c.b()?"-p":"--print-omp-affinity"); if (buf && aff && c.chance(1,4)) opt={"-bp"}; else if (c.b()) std::reverse(opt.begin(),opt.end());
  VS exe={(bin/"prog").string()}; int na=c.size(0,6); for (int i=0;i<na;++i) exe.push_back(arg(c)); bool wrong=c.chance(1,10); VS tail=exe; tail.insert(tail.begin(),"--"); if (wrong) switch (c.below(3)) { case 0: tail=exe; for (auto& s : tail) if (s=="--" || s=="-h" || s=="--help") s="x"; break; case 1: tail={"--"}; break; default: tail.clear(); }
  std::map<S,S> env; for (auto v : {"OMP_PROC_BIND","OMP_PLACES"}) if (c.chance(1,3)) env[v]=c.pick(VS{"close","false","cores","","spread"}); if (c.b()) env["OMP_NUM_THREADS"]=std::to_string(c.irange(1,4)); env["VP_OTHER"]=c.str("ab cd;'$",0,6); S text="text"+c.str("xyz%{}",0,6), err=c.b()?"err"+c.str("xyz",0,6):""; if (c.chance(1,5)) env["VP_RAW"]="1"; env["VP_TEXT"]=text; env["VP_ERR"]=err; env["VP_REC"]=(d.p/"rec").string();
  S ends[4]; for (auto& e : ends) e=c.chance(2,3)?"0":c.pick(VS{"1","2","127","128","255","kill"});
  // resources
  std::set<int> have=mine(); VS devs; std::vector<int> ids; bool spec=k.manage&&c.chance(4,5); int bad=spec&&c.chance(1,6)?c.irange(1,3):0; int groups=n==1&&c.chance(1,5)?2:1; int per=0;
  if (spec) { std::vector<int> pool(have.begin(),have.end()); for (size_t i=pool.size();i>1;--i) std::swap(pool[i-1],pool[c.below(i)]); int most=(int)pool.size(); if (k.gpu) per=1; else per=c.irange(1,std::max(1,std::min(4,most/n))); int total=per*n; if (total>most) { c.discard(); return; }
    if (bad==1) { if (n==1 || total+1>most) bad=0; else ++total; } if (k.gpu && bad==1) bad=0, total=n; int wide=c.chance(1,3)?2:c.chance(1,3)?3:1; ids.assign(pool.begin(),pool.begin()+total); for (int i : ids) { S t=std::to_string(i); while ((int)t.size()<wide) t.insert(t.begin(),'0'); devs.push_back("id:"+t+",slots:1"); }
    env["CTEST_RESOURCE_GROUP_COUNT"]=std::to_string(groups); if (bad!=2) env["CTEST_RESOURCE_GROUP_0"]=bad==3?"gpus":"devices"; env["CTEST_RESOURCE_GROUP_0_DEVICES"]=join(devs,";"); if (bad==3) env["CTEST_RESOURCE_GROUP_0_GPUS"]=join(devs,";"); if (groups==2) { env["CTEST_RESOURCE_GROUP_1"]="devices"; env["CTEST_RESOURCE_GROUP_1_DEVICES"]="id:0,slots:1"; } std::sort(ids.begin(),ids.end()); }
  c.d << (k.manage?"managing ":"") << (k.gpu?"gpu ":"") << "names " << k.mpi << ", " << n << " ranks: launcher " << join(opt) << " " << join(tail) << " ; devices " << join(devs,";") << " fault " << bad; bool set=k.mpi&&(n>1||c.b()); std::set<int> used; bool refuse=wrong||bad;
  for (int r=0;r<n;++r) { auto e=env; if (set) { e[size_name[k.mpi]]=std::to_string(n); e[rank_name[k.mpi]]=std::to_string(r); } e["VP_END"]=ends[r]; VS cmd={launcher(k).string()}; cmd.insert(cmd.end(),opt.begin(),opt.end()); cmd.insert(cmd.end(),tail.begin(),tail.end());
    auto before=records(d.p/"rec").size(); VS un=vars; Out o=run(cmd,e,d.p,un); auto recs=records(d.p/"rec"); if (refuse) { VP_CHECK(o.status!=0 && o.status<127 && recs.size()==before,"rank " << r << ": a launch that cannot be right ends with status " << o.status << " after " << recs.size()-before << " runs of the program: " << o.text); continue; }
    VP_CHECK(recs.size()==before+1,"rank " << r << ": the program ran " << recs.size()-before << " times: " << o.text); Rec x=recs[0]; for (auto& f : fs::directory_iterator(d.p/"rec")) fs::remove(f.path()); 
    VP_CHECK(x.args==VS(exe.begin()+1,exe.end()),"the program got the arguments [" << join(x.args,"|") << "] instead of [" << join(VS(exe.begin()+1,exe.end()),"|") << "]"); std::map<S,S> want; for (auto v : {"OMP_PROC_BIND","OMP_PLACES","OMP_NUM_THREADS","VP_OTHER"}) if (e.count(v)) want[v]=e[v]; want.emplace("OMP_PROC_BIND","spread"); want.emplace("OMP_PLACES","threads"); if (aff) { want["OMP_DISPLAY_ENV"]="verbose"; want["OMP_DISPLAY_AFFINITY"]="true"; }
    for (auto& w : want) VP_CHECK(x.env.count(w.first) && x.env[w.first]==w.second,"the program finds " << w.first << "=" << (x.env.count(w.first)?x.env[w.first]:"(unset)") << " instead of " << w.second); for (auto& w : x.env) VP_CHECK(want.count(w.first),"the program finds " << w.first << "=" << w.second << ", which nobody set");
    VP_CHECK(x.cwd==fs::canonical(d.p).string(),"the program runs in " << x.cwd); std::set<int> cores=have; if (spec && !k.gpu) cores=std::set<int>(ids.begin()+r*per,ids.begin()+(r+1)*per); VP_CHECK(x.cores==cores,"rank " << r << " may use the cores " << show(x.cores) << " instead of " << show(cores)); for (int i : x.cores) if (spec && !k.gpu) VP_CHECK(used.insert(i).second,"core " << i << " is given to two ranks");
    bool good=ends[r]=="0"; VP_CHECK((o.status==0)==good && o.status<256,"rank " << r << ": the program ended with " << ends[r] << ", the launcher with status " << o.status); auto once=[&](const S& t){ int m=0; for (auto& l : words(o.text)) m+=l==t; return m==1; }; VP_CHECK(once(text) && (err.empty() || once(err)),"the program's text [" << text << "] and [" << err << "] are not once in the output [" << o.text << "]"); }
  c.nontrivial(!refuse && na>0); c.label("refused",refuse); c.label("cores given",!refuse&&spec&&!k.gpu); c.label("several ranks",n>1); c.label("buffered",buf); }
// ---- sources for expected assertion failures -----------------------------------------------------------------------------------
VP_PROP(assert_sources, 300, 6000, "meta sources with any number of lines that hold the keyword anywhere: the generated files and the printed number; non-trivial: at least two such lines and another one") {
  Dir d; S key="EKAT_EXPECT_ASSERT_FAIL"; VS lines, clean; std::vector<int> marked; int n=c.size(0,14); for (int i=0;i<n;++i) { S l=c.str("ab(){};/\\\"' _#",0,10); S k; if (c.chance(1,3)) { S a=l.substr(0,l.size()/2), b=l.substr(l.size()/2); if (c.chance(1,3)) b=" "+b; if (c.chance(1,5)) a+=c.pick(VS{"//","// ","#if 0 ","/*","\""}); l=a+key+b; k=a+b; if (c.chance(1,6)) { l+=" "+key; k+=" "; } marked.push_back(1); } else { if (c.chance(1,8)) l+=c.pick(VS{"EKAT_EXPECT","ASSERT_FAIL","ekat_expect_assert_fail"}); k=l; marked.push_back(0); } lines.push_back(l); clean.push_back(k); }
  S stem=c.pick(VS{"tests","a_b","x1","my_1"}); S t=join(lines,"\n"); if (c.chance(4,5) && n) t+="\n"; spit(d.p/(stem+".cpp.in"),""); fs::path in=d.p/"in"; fs::create_directories(in); fs::create_directories(d.p/"out"); in/=stem+c.pick(VS{".cpp",".hpp",".src"}); spit(in,t); c.d << vp::quote(t); Out o=run({repo()+"/cmake/gen_assert_test_src.py","-s",in.string(),"-o",(d.p/"out").string()},{},d.p); int m=(int)std::count(marked.begin(),marked.end(),1);
  auto trim=[](S s){ while (!s.empty() && strchr(" \t",s.back())) s.pop_back(); return s; }; auto same=[&](const VS& got, const VS& want){ size_t k=std::max(got.size(),want.size()); for (size_t i=0;i<k;++i) if (trim(i<got.size()?got[i]:"")!=trim(i<want.size()?want[i]:"")) return false; return true; };
  S num=o.text; while (!num.empty() && isspace((unsigned char)num.back())) num.pop_back(); VP_CHECK(o.status==0 && num==std::to_string(m),"status " << o.status << ", printed [" << o.text << "] for " << m << " lines with the keyword"); std::set<S> files; for (auto& f : fs::directory_iterator(d.p/"out")) files.insert(f.path().filename().string()); std::set<S> want={stem+".cpp"}; for (int i=1;i<=m;++i) want.insert(stem+"_"+std::to_string(i)+".cpp"); VP_CHECK(files==want,"generated " << join(VS(files.begin(),files.end())) << " instead of " << join(VS(want.begin(),want.end())));
  VS base, got; for (int i=0;i<n;++i) if (!marked[(size_t)i]) base.push_back(lines[(size_t)i]); got=words(slurp(d.p/"out"/(stem+".cpp"))); auto squeeze=[&](VS v){ VS r; for (auto& l : v) if (!trim(l).empty()) r.push_back(trim(l)); return r; }; VP_CHECK(squeeze(got)==squeeze(base),"the source without the failing lines is [" << join(got,"|") << "]");
  int which=0; for (int q=0;q<n;++q) if (marked[(size_t)q]) { ++which; VS w; for (int i=0;i<n;++i) w.push_back(i==q?clean[(size_t)i]:marked[(size_t)i]?"":lines[(size_t)i]); got=words(slurp(d.p/"out"/(stem+"_"+std::to_string(which)+".cpp"))); VP_CHECK(same(got,w),"source " << which << " is [" << join(got,"|") << "] instead of [" << join(w,"|") << "]"); }
  VP_CHECK(slurp(in)==t,"the meta source was changed"); c.nontrivial(m>=2 && m<n); c.label("no keyword",m==0); c.label("more than nine",m>9); }
// ---- declared tests ---------------------------------------------------------------------------------------------------------------
static S cmake_head (const fs::path& d) { return "cmake_minimum_required(VERSION 3.14)\nproject(x NONE)\nenable_testing()\nlist(APPEND CMAKE_MODULE_PATH "+repo()+"/cmake)\ninclude(EkatCreateUnitTest)\ninclude(EkatUtils)\nadd_library(prog INTERFACE)\nset(EKAT_SOURCE_DIR "+repo()+")\nset(D "+d.string()+")\n"; }
struct Decl { S name; std::vector<int> ranks, threads; VS args, labels, setup, req, isetup, ireq; bool serial, will_fail, affinity; S dep, timeout; };
static std::vector<int> range_of (const std::vector<int>& v) { if (v.empty()) return {1}; if (v.size()==1) return v; std::vector<int> r; for (int k=v[0];k<=v[1];k+=v.size()>2?v[2]:1) r.push_back(k); return r; }
static S nums (const std::vector<int>& v) { S r; for (int k : v) r+=" "+std::to_string(k); return r; }
static std::vector<int> span (vp::Case& c, int most) { switch (c.below(4)) { case 0: return {}; case 1: return {c.irange(1,most)}; case 2: { int a=c.irange(1,most); return {a,c.irange(a,most)}; } default: { int a=c.irange(1,most); return {a,c.irange(a,most),c.irange(1,3)}; } } }
VP_PROP(declared_tests, 120, 3000, "declarations of tests with ranges of ranks and threads, arguments, labels, fixtures, locks, expected failures, launched by ctest with resource groups and a stand-in for mpirun: which tests there are, their properties, what every rank gets, which pass; wrong declarations are refused; non-trivial: at least two tests") {
  Dir d; bool mpi=c.chance(3,4), buf=c.chance(1,4), tflag=mpi&&c.chance(1,3), manage=c.chance(3,4), spec=manage; std::vector<Decl> all; S text=cmake_head(d.p); std::set<int> have=mine(); int room=(int)have.size(); if (mpi) text+="set(EKAT_MPIRUN_EXE "+(bin/"mpi").string()+")\nset(EKAT_MPI_NP_FLAG -n)\n"; if (tflag) text+="set(EKAT_MPI_THREAD_FLAG -t)\n"; if (buf) text+="set(EKAT_TEST_LAUNCHER_BUFFER ON)\n";
  int n=c.irange(1,3), wrong=c.chance(1,8)?c.irange(1,6):0; if (wrong==5 && mpi) wrong=4; for (int i=0;i<n;++i) { Decl t; t.name=c.pick(VS{"t","some_test","x-y"})+std::to_string(i); t.ranks=mpi?span(c,3):std::vector<int>(c.below(2),1); t.threads=span(c,2); int na=c.size(0,4); for (int k=0;k<na;++k) { S a=c.pick(VS{"--args","-r","3","x=1","--other","a,b","7.5","-p","-b"}); t.args.push_back(a); } auto some=[&](const char* p){ VS v; int k=c.chance(1,2)?0:c.irange(1,2); for (int j=0;j<k;++j) v.push_back(p+std::to_string(j)); return v; }; t.labels=some("lab"); S me=std::to_string(i)+"_", up=std::to_string(i-1)+"_"; t.setup=some(("fs"+me).c_str()); t.isetup=some(("is"+me).c_str()); t.req=i?some(("fs"+up).c_str()):VS(); t.ireq=i?some(("is"+up).c_str()):VS(); t.serial=c.chance(1,4); t.will_fail=c.chance(1,4); t.affinity=c.chance(1,4); if (i && c.chance(1,3)) t.dep="someone"; t.timeout=c.chance(1,3)?std::to_string(c.irange(20,90)):"";
    text+="EkatCreateUnitTestFromExec("+t.name+" prog"; auto add=[&](const S& k, const VS& v){ if (!v.empty()) text+=" "+k+" "+join(v); }; auto ranks=t.ranks, threads=t.threads; VS clean; if (i==0) switch (wrong) { case 1: ranks={1,2,1,1}; break; case 2: threads={0}; break; case 3: threads={2,1}; break; case 4: threads={1,2,1,4}; break; case 5: ranks={1,2}; break; case 6: threads={1,2}; clean={"fc"}; break; default:; } if (!ranks.empty()) text+=" MPI_RANKS"+nums(ranks); if (!threads.empty()) text+=" THREADS"+nums(threads); add("FIXTURES_CLEANUP",clean); add("EXE_ARGS",t.args); add("LABELS",t.labels); add("FIXTURES_SETUP",t.setup); add("FIXTURES_REQUIRED",t.req); add("FIXTURES_SETUP_INDIVIDUAL",t.isetup); add("FIXTURES_REQUIRED_INDIVIDUAL",t.ireq); if (t.serial) text+=" SERIAL"; if (t.will_fail) text+=" WILL_FAIL"; if (t.affinity) text+=" PRINT_OMP_AFFINITY"; if (!t.dep.empty()) text+=" DEP "+t.dep; if (!t.timeout.empty()) text+=" PROPERTIES TIMEOUT "+t.timeout; text+=")\n"; all.push_back(t); }
  S decl=text.substr(text.find("set(D"));
  // What the tests are, and their properties, in a form that is easy to read: one line per test and property
  text+="get_property(all DIRECTORY PROPERTY TESTS)\nset(o)\nforeach(t IN LISTS all)\n foreach(p ENVIRONMENT PROCESSORS DEPENDS LABELS FIXTURES_SETUP FIXTURES_REQUIRED FIXTURES_CLEANUP WILL_FAIL TIMEOUT RESOURCE_LOCK RESOURCE_GROUPS)\n  get_test_property(${t} ${p} v)\n  string(APPEND o \"${t}|${p}|${v}\\n\")\n endforeach()\nendforeach()\nfile(WRITE ${D}/tests.txt \"${o}\")\n";
  spit(d.p/"CMakeLists.txt",text); c.d << decl; Out o=run({"cmake","-S",d.p.string(),"-B",(d.p/"b").string()},{},d.p,vars); if (wrong) { VP_CHECK(o.status!=0,"a wrong declaration is accepted"); c.label("refused"); return; } VP_CHECK(o.status==0,"configuring fails: " << o.text);
  std::map<S,std::map<S,S>> got; for (auto& l : words(slurp(d.p/"tests.txt"))) { VS p=words(l,'|'); if (p.size()>=2) got[p[0]][p[1]]=p.size()>2?p[2]:""; } struct One { const Decl* t; int r, th; }; std::map<S,One> want; for (auto& t : all) { bool sr=t.ranks.size()>1||range_of(t.ranks)[0]>1, st=t.threads.size()>1||range_of(t.threads)[0]>1; for (int r : range_of(t.ranks)) for (int h : range_of(t.threads)) { S nm=t.name+(sr?"_np"+std::to_string(r):"")+(st?"_omp"+std::to_string(h):""); want[nm]={&t,r,h}; } }
  VS a, b; for (auto& x : got) a.push_back(x.first); for (auto& x : want) b.push_back(x.first); VP_CHECK(a==b,"the tests are " << join(a) << " instead of " << join(b));
  auto list=[](const VS& v, const S& suf=""){ VS r; for (auto& s : v) r.push_back(s+suf); return r; }; for (auto& x : want) { auto& t=*x.second.t; auto& g=got[x.first]; int n2=x.second.r*x.second.th; S suf="_np"+std::to_string(x.second.r)+"_omp"+std::to_string(x.second.th); auto is=[&](const char* p, S w){ S v=g[p]; if (v=="NOTFOUND" || v=="FALSE" || v=="OFF") v=""; if (w=="TRUE" && (v=="ON" || v=="1")) v=w; VP_CHECK(v==w,"test " << x.first << " has " << p << " [" << v << "] instead of [" << w << "]"); };
    auto cat=[](VS p, const VS& q){ p.insert(p.end(),q.begin(),q.end()); return p; }; is("ENVIRONMENT","OMP_NUM_THREADS="+std::to_string(x.second.th)); is("PROCESSORS",std::to_string(n2)); is("DEPENDS",t.dep); is("LABELS",join(t.labels,";")); is("FIXTURES_SETUP",join(cat(t.setup,list(t.isetup,suf)),";")); is("FIXTURES_REQUIRED",join(cat(t.req,list(t.ireq,suf)),";")); is("FIXTURES_CLEANUP",""); is("WILL_FAIL",t.will_fail?"TRUE":""); is("TIMEOUT",t.timeout); S lock=g["RESOURCE_LOCK"]; if (lock=="NOTFOUND") lock=""; VP_CHECK(lock.empty()!=t.serial,"test " << x.first << " has the lock [" << lock << "]"); }
  for (auto& x : want) for (auto& y : want) if (x.second.t->serial && y.second.t->serial) VP_CHECK((got[x.first]["RESOURCE_LOCK"]==got[y.first]["RESOURCE_LOCK"])==(x.second.t==y.second.t),"the locks of " << x.first << " and " << y.first);
  // Now run them
  fs::create_directories(d.p/"b"/"bin"); S l=slurp(launcher({manage,0,mpi?1:0})); spit(d.p/"b"/"bin"/"test-launcher",l,true); fs::copy_file(bin/"prog",d.p/"b"/"prog"); S js="{\"version\":{\"major\":1,\"minor\":0},\"local\":[{\"devices\":["; int k=0; for (int i : have) js+=S(k++?",":"")+"{\"id\":\""+(i<10?"0":"")+std::to_string(i)+"\",\"slots\":1}"; spit(d.p/"spec.json",js+"]}]}"); bool fail=c.chance(1,3);
  int ran=0; for (auto& x : want) { if (ran>=3) break; ++ran; auto& t=*x.second.t; if (spec && x.second.r*x.second.th>room) continue; for (auto& f : fs::directory_iterator(d.p/"rec")) fs::remove(f.path()); VS cmd={"ctest","--test-dir",(d.p/"b").string(),"-R","^"+x.first+"$","-FA",".*"}; if (spec) { cmd.push_back("--resource-spec-file"); cmd.push_back((d.p/"spec.json").string()); } cmd.push_back("-V"); std::map<S,S> e={{"VP_REC",(d.p/"rec").string()},{"VP_END",fail?"3":"0"},{"VP_TEXT","hello"}}; Out q=run(cmd,e,d.p,vars); auto recs=records(d.p/"rec");
    VP_CHECK((int)recs.size()==x.second.r,"test " << x.first << " ran the program " << recs.size() << " times: " << q.text); VP_CHECK((q.status==0)==(fail==t.will_fail),"test " << x.first << (fail?" fails":" succeeds") << (t.will_fail?" as expected":"") << ", ctest ends with " << q.status); std::set<S> ranks; std::set<int> used;
    for (auto& m : recs) { VP_CHECK(m.args==t.args,"the program got [" << join(m.args,"|") << "] instead of [" << join(t.args,"|") << "]"); VP_CHECK(m.env["OMP_NUM_THREADS"]==std::to_string(x.second.th),"the program runs with " << m.env["OMP_NUM_THREADS"] << " threads"); VP_CHECK((m.env.count("OMP_DISPLAY_AFFINITY")>0)==t.affinity,"affinity printing of " << x.first); if (mpi) VP_CHECK(ranks.insert(m.env["VP_RANK"]).second,"a rank ran twice"); if (spec) { VP_CHECK((int)m.cores.size()==x.second.th,"a rank of " << x.first << " may use the cores " << show(m.cores)); for (int i : m.cores) VP_CHECK(used.insert(i).second,"core " << i << " is given to two ranks of " << x.first); } else VP_CHECK(m.cores==have,"a rank of " << x.first << " may use the cores " << show(m.cores)); } }
  c.nontrivial(want.size()>1); c.label("run",ran>0); c.label("serial",std::any_of(all.begin(),all.end(),[](const Decl& t){ return t.serial; })); c.label("with resources",spec); c.label("failing",fail); }
// ---- configured files ----------------------------------------------------------------------------------------------------------
VP_PROP(config_files, 150, 4000, "templates configured by EkatConfigFile, again without and with a change: contents, whether the file is written, the Fortran form; non-trivial: a variable and a comment") {
  Dir d; bool at=c.chance(1,3), f90=c.chance(1,2); auto tmpl=[&]{ VS r; int n=c.irange(1,8); for (int i=0;i<n;++i) switch (c.below(7)) { case 0: r.push_back("#define A @VA@"); break; case 1: r.push_back("#define B ${VB}"); break; case 2: r.push_back("#cmakedefine VC"); break; case 3: r.push_back("#cmakedefine VD"); break; case 4: r.push_back("/* "+c.str("ab /!",0,5)+" */"); break; case 5: r.push_back("//"+c.str("ab /*",0,5)); break; default: r.push_back(c.str("ab =/!1",0,6)); } return r; };
  auto conf=[&](const VS& t, S va){ VS r; for (auto& l : t) { if (l=="#cmakedefine VC") r.push_back("#define VC"); else if (l=="#cmakedefine VD") r.push_back("/* #undef VD */"); else { S s=put(l,"@VA@",va); if (!at) s=put(s,"${VB}","bee"); r.push_back(s); } } return r; };
  VS t=tmpl(); S va=c.pick(VS{"1","abc","x y"}); auto write=[&]{ spit(d.p/"in.h",join(t,"\n")+"\n"); spit(d.p/"CMakeLists.txt",cmake_head(d.p)+"set(VA \""+va+"\")\nset(VB bee)\nset(VC ON)\nset(VD OFF)\nEkatConfigFile(${D}/in.h ${D}/b/out.h"+(at?" AT_ONLY":"")+(f90?" F90_FILE ${D}/b/out.inc":"")+")\n"); };
  VS last; bool any=false; int steps=c.irange(2,4); S log; for (int s=0;s<steps;++s) { bool changed=s==0; if (s) switch (c.below(3)) { case 0: t=tmpl(); log+=" other template;"; break; case 1: va=c.pick(VS{"1","abc","x y","3"}); log+=" VA="+va+";"; break; default: log+=" same;"; } write(); VS w=conf(t,va); changed=changed||w!=last; c.d << (s?log:S(at?"@ only ":"")+(f90?"fortran ":"")) << " " << vp::quote(join(t,"\n")); struct timespec old[2]={{1000,0},{1000,0}}; if (s) { utimensat(AT_FDCWD,(d.p/"b"/"out.h").c_str(),old,0); }
    Out o=run({"cmake","-S",d.p.string(),"-B",(d.p/"b").string()},{},d.p,vars); VP_CHECK(o.status==0,"configuring fails: " << o.text); VS g=words(slurp(d.p/"b"/"out.h")); VP_CHECK(g==w,"the file is [" << join(g,"|") << "] instead of [" << join(w,"|") << "]"); struct stat st; stat((d.p/"b"/"out.h").c_str(),&st); VP_CHECK((st.st_mtime!=1000)==changed,"the file was " << (changed?"not written though it changed":"written though nothing changed"));
    if (f90) { VS f; for (auto& l : w) f.push_back(l.compare(0,2,"//")==0?"!"+l.substr(2):l.compare(0,1,"/")==0?"!"+l:l); VS h=words(slurp(d.p/"b"/"out.inc")); VP_CHECK(h==f,"the Fortran file is [" << join(h,"|") << "] instead of [" << join(f,"|") << "]"); } last=w; for (auto& l : t) any=any||l.find("@VA@")!=S::npos; bool left=false; for (auto& e : fs::directory_iterator(d.p/"b")) left=left||e.path().extension()==".tmp"; (void)left; }
  c.nontrivial(any); c.label("@ only",at); c.label("fortran",f90); }
