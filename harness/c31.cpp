// C31: histories of loggers with own and shared sinks against a model of every sink's contents. With MPI all ranks run the
// same cases (level changes on chosen ranks only); without MPI (EKAT's serial implementation) there is one rank.
#define VP_MAIN
#ifdef EKAT_ENABLE_MPI
#define VP_MPI
#endif
#include "vp.hpp"
#include "ekat_logger.hpp"
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <thread>
#include <random>
using namespace ekat::logger; using ekat::Comm; using vp::u64;
static int W=0, N=1; static std::string dir;
static void barrier () {
#ifdef EKAT_ENABLE_MPI
  MPI_Barrier(MPI_COMM_WORLD);
#endif
}
static void wipe () { if (DIR* d=opendir(dir.c_str())) { while (auto e=readdir(d)) { std::string n=e->d_name; if (n!="." && n!=".." && n!="sub") ::unlink((dir+"/"+n).c_str()); } closedir(d); } if (DIR* d=opendir((dir+"/sub").c_str())) { while (auto e=readdir(d)) { std::string n=e->d_name; if (n!="." && n!="..") ::unlink((dir+"/sub/"+n).c_str()); } closedir(d); } }
void vp_init (int& argc, char**& argv) {
  (void)argc; (void)argv; const char* t=getenv("VP_TMP"); dir=std::string(t?t:"/tmp")+"/logs";
#ifdef EKAT_ENABLE_MPI
  MPI_Init(&argc,&argv); MPI_Comm_rank(MPI_COMM_WORLD,&W); MPI_Comm_size(MPI_COMM_WORLD,&N);
#else
  dir+=std::to_string(getpid());
#endif
  ::mkdir(dir.c_str(),0700); if (W==0) { ::mkdir((dir+"/sub").c_str(),0700); wipe(); } barrier(); if (chdir(dir.c_str())) abort();
}
void vp_fini () { barrier(); if (W==0) { wipe(); if (chdir("/")||::rmdir((dir+"/sub").c_str())||::rmdir(dir.c_str())) {} }
#ifdef EKAT_ENABLE_MPI
  MPI_Finalize();
#endif
}
// what is written to file descriptor 1 while this lives
struct Capture { int old, fd; Capture () { fflush(stdout); std::cout.flush(); old=dup(1); fd=memfd_create("out",0); dup2(fd,1); } 
  std::string text () { fflush(stdout); std::string s((size_t)lseek(fd,0,SEEK_END),0); if (pread(fd,&s[0],s.size(),0)!=(ssize_t)s.size()) abort(); return s; }
  void restore () { if (old>=0) { fflush(stdout); dup2(old,1); close(old); close(fd); old=-1; } } ~Capture () { restore(); } };
static std::string slurp (const std::string& f) { std::ifstream i(f,std::ios::binary); if (!i) return "<no file>"; std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::set<std::string> listing () { std::set<std::string> r; if (DIR* d=opendir(".")) { while (auto e=readdir(d)) { std::string n=e->d_name; if (n!="." && n!=".." && n!="sub") r.insert(n); } closedir(d); } if (DIR* d=opendir("sub")) { while (auto e=readdir(d)) { std::string n=e->d_name; if (n!="." && n!="..") r.insert("sub/"+n); } closedir(d); } return r; }
static std::string tidy (std::string f) { if (f.compare(0,dir.size()+1,dir+"/")==0) f=f.substr(dir.size()+1); while (f.compare(0,2,"./")==0) f=f.substr(2); return f; }   // the name in the listing
static const char* full[]={"trace","debug","info","warning","error","critical","off"};
static LogLevel lv (int k) { return (LogLevel)k; }
// the model of a sink: where it writes, from which level on, how
struct Sink { bool file=false, null=false; std::string name; int level=0; int pattern=-1; std::string text; bool known=true; };
struct Log { std::unique_ptr<LoggerBase> l; std::string name; int level; int fp, mp; int cs, fs; bool logs; };
// the line of a message; pattern -1 is the default one (its time is cut off before comparing)
static std::string line (int pat, const std::string& name, int level, const std::string& msg) {
  switch (pat) { case -1: return "["+name+"] ["+full[level]+"] "+msg+"\n"; case 0: return msg+"\n"; case 1: return std::string(full[level])+": "+msg+"\n"; case 2: return name+"|"+msg+"\n"; default: return "<"+name+"> ["+full[level]+"] "+msg+" end\n"; } }
static const char* pats[]={"%v","%l: %v","%n|%v","<%n> [%l] %v end"};
// cuts "[2026-01-01 00:00:00.000] " at the front of lines that start with it
static std::string undate (const std::string& s) { std::string o; size_t p=0; while (p<s.size()) { size_t q=s.find('\n',p); if (q==std::string::npos) q=s.size(); else ++q; std::string l=s.substr(p,q-p); auto d=[&](int i){ return isdigit((unsigned char)l[i])!=0; };
    if (l.size()>26 && l[0]=='[' && l[25-1]==']' && l[25]==' ' && d(1)&&d(2)&&d(3)&&d(4)&&l[5]=='-'&&d(6)&&d(7)&&l[8]=='-'&&d(9)&&d(10)&&l[11]==' '&&d(12)&&d(13)&&l[14]==':'&&d(15)&&d(16)&&l[17]==':'&&d(18)&&d(19)&&l[20]=='.') l=l.substr(26); o+=l; p=q; } return o; }
template<typename F, typename M> static std::unique_ptr<LoggerBase> make1 (const std::string& n, int l, const Comm& c, const std::string* suf) { return suf?std::make_unique<Logger<F,M>>(n,lv(l),c,*suf):std::make_unique<Logger<F,M>>(n,lv(l),c); }
static std::unique_ptr<LoggerBase> make (int fp, int mp, const std::string& n, int l, const Comm& c, const std::string* suf) {
  switch (fp*2+mp) { case 0: return make1<LogNoFile,LogRootRank>(n,l,c,suf); case 1: return make1<LogNoFile,LogAllRanks>(n,l,c,suf); case 2: return make1<LogBasicFile,LogRootRank>(n,l,c,suf); case 3: return make1<LogBasicFile,LogAllRanks>(n,l,c,suf); case 4: return make1<LogBigFiles,LogRootRank>(n,l,c,suf); default: return make1<LogBigFiles,LogAllRanks>(n,l,c,suf); } }
template<typename F> static std::unique_ptr<LoggerBase> share1 (int mp, int smp, const std::string& n, int l, const Comm& c, LoggerBase& s) {
  if (mp==0) { if (smp==0) return std::make_unique<Logger<F,LogRootRank>>(n,lv(l),c,static_cast<Logger<F,LogRootRank>&>(s)); return std::make_unique<Logger<F,LogRootRank>>(n,lv(l),c,static_cast<Logger<F,LogAllRanks>&>(s)); }
  if (smp==0) return std::make_unique<Logger<F,LogAllRanks>>(n,lv(l),c,static_cast<Logger<F,LogRootRank>&>(s)); return std::make_unique<Logger<F,LogAllRanks>>(n,lv(l),c,static_cast<Logger<F,LogAllRanks>&>(s)); }
static std::unique_ptr<LoggerBase> share (int fp, int mp, int smp, const std::string& n, int l, const Comm& c, LoggerBase& s) { return fp==0?share1<LogNoFile>(mp,smp,n,l,c,s):fp==1?share1<LogBasicFile>(mp,smp,n,l,c,s):share1<LogBigFiles>(mp,smp,n,l,c,s); }
static void emit (LoggerBase& l, int level, int how, const std::string& m, int x) {   // ways to say the same thing
  if (how==1) { l.log(lv(level),m); return; } if (how==2) { l.log(lv(level),"{}",m); return; }
  switch (level) { case 0: if (how==3) l.trace("{}{}",m,x); else l.trace(m); break; case 1: if (how==3) l.debug("{}{}",m,x); else l.debug(m); break; case 2: if (how==3) l.info("{}{}",m,x); else l.info(m); break; case 3: if (how==3) l.warn("{}{}",m,x); else l.warn(m); break; case 4: if (how==3) l.error("{}{}",m,x); else l.error(m); break; default: if (how==3) l.critical("{}{}",m,x); else l.critical(m); } }
struct Comms { Comm world, split; int srank=0, ssize=1, color=0; };
static Comms* comms () {  // the world, and one communicator per parity of the rank
  static Comms* c=nullptr; if (!c) { c=new Comms;
#ifdef EKAT_ENABLE_MPI
    c->world.reset_mpi_comm(MPI_COMM_WORLD); c->color=W%2; c->split=c->world.split(W%2); c->srank=W/2; c->ssize=(N+1-W%2)/2;
#endif
  } return c; }
VP_PROP(histories, 20000, 300000, "up to 6 loggers of all file and rank policies on the world and on a half of it, also sharing sinks, messages of all levels and kinds, level and format changes on all or some ranks, flushes and destructions; console and files compared with the model on every rank, and the list of files; non-trivial: several loggers, and both written and dropped messages") {
  Comms& cm=*comms(); std::vector<Sink> sinks; std::vector<Log> logs; std::string err; std::string console; int wrote=0, dropped=0, shared=0, changes=0; bool ranksonly=false; int made=0;
  std::set<std::string> mine; // files this rank must have made
  auto bad=[&](const std::string& m){ if (err.empty()) err=m; };
  { Capture cap;
    auto check=[&](Sink& s, const char* when){ if (s.null || !s.file) return; std::string t=undate(slurp(s.name)); if (t!=s.text) bad(std::string(when)+": file "+s.name+" holds "+vp::quote(t)+", expected "+vp::quote(s.text)); };
    auto levels=[&](Log& x){ if (x.logs && (int)x.l->log_level()!=x.level) bad(x.name+": the level is "+std::to_string((int)x.l->log_level())+", expected "+std::to_string(x.level)); Sink &cs=sinks[x.cs],&fs=sinks[x.fs]; if (cs.known && (int)x.l->console_level()!=cs.level) bad(x.name+": the console level is "+std::to_string((int)x.l->console_level())+", expected "+std::to_string(cs.level)); if ((int)x.l->file_level()!=fs.level) bad(x.name+": the file level is "+std::to_string((int)x.l->file_level())+", expected "+std::to_string(fs.level)); };
    int n=c.size(3,40);
    for (int q=0;q<n;++q) {
      bool live=false; for (auto& x:logs) live|=(bool)x.l;
      int op=!live?0:c.weighted({made<6?3:0,made<6?2:0,14,3,3,3,2,1,1});
      size_t li=live?c.below(logs.size()):0; if (live) { while (!logs[li].l) li=(li+1)%logs.size(); } 
      if (op<=1) { ++made; bool sh=op==1; int mp=(int)c.below(2), l=c.irange(0,6); bool half=c.chance(1,3); Comm& k=half?cm.split:cm.world; int r=half?cm.srank:W, sz=half?cm.ssize:N; bool should=mp==1||r==0; std::string name=c.pick(std::vector<std::string>{"log","a.b","x y","run_1"})+std::to_string(made)+(half?cm.color?"odd":"even":""); std::string suf=c.pick(std::vector<std::string>{"",".log",".txt",".1"}); bool dflt=c.b();
          if (c.chance(1,4)) name=c.pick(std::vector<std::string>{"./","sub/",dir+"/","./sub/"})+name;      // in a directory
          if (c.chance(1,5)) name+=c.pick(std::vector<std::string>{".log",".txt",".1"});                    // with what may be the suffix already
        Log x; x.name=name; x.mp=mp; x.logs=should; x.level=should?l:6;
        if (!sh) { int fp=c.weighted({1,3,1}); x.fp=fp; bool old=c.chance(1,4); std::string fn=fp==0?"":(mp==1?name+"."+std::to_string(sz)+"."+std::to_string(r):name)+(dflt?".log":suf); if (old && fp==1 && should) { std::ofstream(fn) << "left by an earlier run\n"; c.label("file of an earlier run"); } x.l=make(fp,mp,name,l,k,dflt?nullptr:&suf); if (dflt) suf=".log"; c.d << "#" << logs.size() << ": " << name << (fp==0?" no file":fp==1?" file ":" big files ") << vp::quote(suf) << (mp?" all ranks":" root") << (half?" half":"") << " level " << l << "\n";
          if (x.l->get_logfile_name()!=fn) bad("the file is called "+x.l->get_logfile_name()+", expected "+fn);
          Sink cs,fs; cs.level=l; cs.known=should; fs.file=true; fs.level=should?l:6; fs.null=!should||fp==0; fs.name=fn; if (!fs.null) mine.insert(tidy(fn)); x.cs=(int)sinks.size(); sinks.push_back(cs); x.fs=(int)sinks.size(); sinks.push_back(fs); if (!should) sinks[x.cs].level=0; }
        else { Log& s=logs[li]; x.fp=s.fp; x.cs=s.cs; x.fs=s.fs; x.l=share(s.fp,mp,s.mp,name,l,k,*s.l); ++shared; c.d << "#" << logs.size() << ": " << name << " with the sinks of #" << li << (mp?" all ranks":" root") << (half?" half":"") << " level " << l << "\n"; }
        if (x.l->name()!=name) bad("the logger is called "+x.l->name()+" instead of "+name); levels(x); logs.push_back(std::move(x)); continue; }
      Log& x=logs[li]; Sink &cs=sinks[x.cs], &fs=sinks[x.fs]; int only=c.chance(1,4)?(int)c.below(N):-1; bool here=only<0||only==W;
      switch (op) {
        case 2: { int level=c.irange(0,5), how=(int)c.below(4); std::string m; switch (c.below(6)) { case 0: m=""; break; case 1: m="two\nlines"; break; case 2: m="{} %v {0}"; break; case 3: m=std::string((size_t)c.irange(200,3000),'x')+"\xc3\xa4"; break; default: m="message "+std::to_string(q)+" of rank "+std::to_string(W); }
          c.d << "#" << li << " " << full[level] << " way " << how << " " << vp::quote(m.substr(0,20)) << "\n"; emit(*x.l,level,how,m,q); if (how==3) m+=std::to_string(q);
          bool go=x.logs && level>=x.level; if (go && level>=cs.level) { console+=line(cs.pattern,x.name,level,m); ++wrote; } if (go && level>=fs.level && !fs.null) { fs.text+=line(fs.pattern,x.name,level,m); ++wrote; } if (!go || level<cs.level) ++dropped; break; }
        case 3: { int l=c.irange(0,6); c.d << "#" << li << " level " << l << (only>=0?" on one rank":"") << "\n"; ++changes; ranksonly|=only>=0; if (here) { x.l->set_log_level(lv(l)); if (x.logs) x.level=l; } break; }
        case 4: { int l=c.irange(0,6); c.d << "#" << li << " console level " << l << "\n"; ++changes; if (here) { x.l->set_console_level(lv(l)); cs.level=l; cs.known=true; } break; }
        case 5: { int l=c.irange(0,6); c.d << "#" << li << " file level " << l << "\n"; ++changes; if (here) { x.l->set_file_level(lv(l)); fs.level=l; } break; }
        case 6: { int p=(int)c.below(4); c.d << "#" << li << " format " << p << "\n"; if (here) { if (p==0) { if (c.b()) x.l->set_no_format(); else x.l->set_format(); } else x.l->set_format(pats[p]); cs.pattern=fs.pattern=p; } else if (p==0) c.b(); break; }
        case 7: { c.d << "#" << li << " flush\n"; x.l->flush(); check(fs,"after a flush"); break; }
        default: { c.d << "#" << li << " ends\n"; x.l.reset(); } }
      if (x.l) levels(x);
      if (c.chance(1,6) && x.l) { x.l->flush(); check(fs,"after a flush"); }
    }
    logs.clear(); for (auto& s:sinks) check(s,"at the end");
    std::string out=undate(cap.text()); if (out!=console) bad("the console got "+vp::quote(out)+", expected "+vp::quote(console)); }
  // the files there are: those of every rank that logs
  barrier();
  { std::string all; for (auto& f:mine) all+=f+"\n";
#ifdef EKAT_ENABLE_MPI
    char buf[2048]={}; std::snprintf(buf,sizeof buf,"%s",all.c_str()); std::vector<char> g(2048*(size_t)N); MPI_Allgather(buf,2048,MPI_CHAR,g.data(),2048,MPI_CHAR,MPI_COMM_WORLD); all.clear(); for (int r=0;r<N;++r) all+=&g[(size_t)r*2048];
#endif
    std::set<std::string> want; std::istringstream is(all); std::string f; while (std::getline(is,f)) want.insert(f); auto got=listing(); if (got!=want) { std::string g,w; for (auto& x:got) g+=" "+x; for (auto& x:want) w+=" "+x; bad("files:"+g+", expected:"+w); } }
  barrier(); if (W==0) wipe(); barrier();
  if (!err.empty()) VP_FAIL(err);
  c.nontrivial(made>1 && wrote>0 && dropped>0); c.label("shared sinks",shared>0); c.label("level changes",changes>0); c.label("changes on one rank",ranksonly); c.label("several ranks",N>1);
}
// several threads: every line is there once, unbroken, and each thread's lines are in its order
VP_PROP(threads, 400, 6000, "2-6 threads logging to loggers that share a file, also big files; non-trivial: lines of several threads alternate") {
  int nt=c.irange(2,6), per=c.irange(1,300), fp=c.irange(1,2), cut=c.irange(0,5); bool sh=c.b(); c.d << nt << " threads of " << per << " messages, file policy " << fp << " level " << cut << (sh?" two loggers":""); std::string err; long alt=0; auto bad=[&](const std::string& m){ if (err.empty()) err=m; };
  { Capture cap; std::string fn; { auto l=make(fp,1,"many",cut,comms()->world,nullptr); l->set_console_level(LogLevel::off); l->set_no_format(); fn=l->get_logfile_name(); std::unique_ptr<LoggerBase> m; if (sh) m=share(fp,1,1,"other",cut,comms()->world,*l);
    std::vector<std::thread> th; for (int t=0;t<nt;++t) th.emplace_back([&,t]{ LoggerBase& k=sh&&t%2?*m:*l; for (int i=0;i<per;++i) emit(k,(t+i)%6,0,std::to_string(t)+" "+std::to_string(i)+" "+std::string((size_t)(i%50),'y')+"$",0); }); for (auto& t:th) t.join(); }
    std::istringstream is(slurp(fn)); std::string s; std::vector<int> next(nt,0); int last=-1; auto skip=[&](int t){ while (next[t]<per && (t+next[t])%6<cut) ++next[t]; };
    while (std::getline(is,s)) { int t=-1,i=-1; if (sscanf(s.c_str(),"%d %d ",&t,&i)!=2 || t<0 || t>=nt) { bad("a broken line: "+vp::quote(s)); break; } skip(t); if (s!=std::to_string(t)+" "+std::to_string(next[t])+" "+std::string((size_t)(next[t]%50),'y')+"$") { bad("thread "+std::to_string(t)+": "+vp::quote(s)+" where message "+std::to_string(next[t])+" was expected"); break; } ++next[t]; alt+=last>=0&&last!=t; last=t; }
    if (err.empty()) for (int t=0;t<nt;++t) { skip(t); if (next[t]!=per) bad("thread "+std::to_string(t)+": only "+std::to_string(next[t])+" of "+std::to_string(per)+" messages"); } if (!cap.text().empty()) bad("the console got something"); }
  barrier(); if (W==0) wipe(); barrier(); if (!err.empty()) VP_FAIL(err); c.nontrivial(alt>0); }
// files of limited size
VP_PROP(big_files, 8, 60, "3-70 MB in messages of up to 3 MB to a logger with limited files: the files, oldest first, hold the last messages complete and in order, none is above the limit, and nothing is lost as long as it fits; non-trivial: several files") {
  long want=c.range(1,c.chance(1,3)?70:20)*1000000; int mp=(int)c.below(2); std::mt19937_64 g(c.draw(~0ull)); long big=c.pick({20000,300000,3000000}); std::string suf=c.pick({".log",".txt"}); c.d << want << " bytes in messages of up to " << big; std::string err; auto bad=[&](const std::string& m){ if (err.empty()) err=m; }; bool should=mp==1||W==0; size_t nf=0;
  { Capture cap; std::string fn; std::vector<std::pair<long,char>> sent; long tot=0; { auto l=make(2,mp,"big",2,comms()->world,&suf); l->set_console_level(LogLevel::off); l->set_no_format(); fn=l->get_logfile_name(); while (tot<want) { long n=1+(long)(g()%(u64)big); char ch=(char)('a'+sent.size()%26); l->warn(std::to_string(sent.size())+" "+std::string((size_t)n,ch)); sent.push_back({n,ch}); tot+=n+10; } }
    if (should) { std::string base=fn.substr(0,fn.size()-suf.size()); std::vector<std::string> fs; for (int k=1;;++k) { std::string f=base+"."+std::to_string(k)+suf; struct stat st; if (stat(f.c_str(),&st)) break; fs.insert(fs.begin(),f); } fs.push_back(fn); nf=fs.size(); const long lim=(long)LogBigFiles::mb_per_file*LogBigFiles::one_mb; if ((int)nf>LogBigFiles::num_files+1) bad(std::to_string(nf)+" files"); long next=-1, kept=0;
      for (auto& f:fs) { std::string t=slurp(f); if ((long)t.size()>lim) bad("file "+f+" has "+std::to_string(t.size())+" bytes"); size_t p=0; while (p<t.size() && err.empty()) { size_t q=t.find('\n',p); long i=atol(t.c_str()+p); if (next<0) next=i; if (q==std::string::npos || i!=next || i>=(long)sent.size() || t.compare(p,q-p,std::to_string(i)+" "+std::string((size_t)sent[i].first,sent[i].second))) { bad("file "+f+" does not have message "+std::to_string(next)+" where it should"); break; } ++next; kept+=(long)(q-p); p=q+1; } }
      if (err.empty() && next!=(long)sent.size()) bad("the last message is "+std::to_string(next-1)+" of "+std::to_string(sent.size())); if (err.empty() && kept<std::min(tot-10*(long)sent.size(),(long)(LogBigFiles::num_files-1)*(lim-big))) bad("only "+std::to_string(kept)+" bytes of "+std::to_string(tot)+" are kept"); }
    else if (slurp(fn)!="<no file>" && W>0 && mp==1) bad("a file on a rank that does not log"); if (!cap.text().empty()) bad("the console got something"); }
  barrier(); if (W==0) wipe(); barrier(); if (!err.empty()) VP_FAIL(err); c.nontrivial(nf>1); c.label("oldest dropped",nf>(size_t)LogBigFiles::num_files); }
