// C15: checks and assertions, floating-point exception masks
#define VP_MAIN
#include "vp.hpp"
#include "ekat_assert.hpp"
#include "ekat_fpe.hpp"
#include <cfenv>
#include <csetjmp>
void vp_init (int&, char**&) {}
void vp_fini () {}
struct NoString : std::exception { const char* what () const noexcept override { return "nostring"; } };
struct Nothing : std::exception { explicit Nothing (int,int) {} };
struct WithString : std::logic_error { explicit WithString (const std::string& s) : std::logic_error(s) {} };
struct BadArg : std::invalid_argument { BadArg () : std::invalid_argument("bad") {} }; // no constructor from a string, derived from one that has it
struct Cerr { std::ostringstream o; std::streambuf* old; Cerr () { old=std::cerr.rdbuf(o.rdbuf()); } ~Cerr () { std::cerr.rdbuf(old); } };
static std::string frame (int line) { return std::string(__FILE__)+":"+std::to_string(line); }
#ifdef NDEBUG
static constexpr bool DBG=false;
#else
static constexpr bool DBG=true;
#endif
struct Seen { std::string type, text, err; int conds=0, msgs=0, line=0; };
static int g_conds, g_msgs;
static bool cond (bool b) { ++g_conds; return b; }
static std::string msg (const std::string& s) { ++g_msgs; return s; }
// runs one kind of check in this function; the line of the check is recorded
static Seen fire (int kind, bool ok, const std::string& m, int x) {
  Seen s; g_conds=g_msgs=0; Cerr ce; int line=0;
  try {
    switch (kind) {
      case 0: line=__LINE__; EKAT_REQUIRE(cond(ok)); break;
      case 1: line=__LINE__; EKAT_REQUIRE(cond(ok),msg(m)); break;
      case 2: line=__LINE__; EKAT_REQUIRE(cond(ok),msg(m),std::out_of_range); break;
      case 3: line=__LINE__; EKAT_REQUIRE_MSG(cond(ok),msg(m)); break;
      case 4: line=__LINE__; EKAT_REQUIRE_MSG(cond(ok),"value " << x << " and " << msg(m) << "\n"); break;
      case 5: line=__LINE__; EKAT_REQUIRE(cond(ok),msg(m),NoString); break;
      case 6: line=__LINE__; EKAT_REQUIRE(cond(ok),msg(m),Nothing); break;
      case 7: line=__LINE__; EKAT_REQUIRE(cond(ok),msg(m),WithString); break;
      case 8: line=__LINE__; EKAT_ASSERT(cond(ok)); break;
      case 9: line=__LINE__; EKAT_ASSERT_MSG(cond(ok),msg(m)); break;
      case 10: line=__LINE__; if (ok) EKAT_REQUIRE(cond(ok) or x>0,"a " << msg(m)); else EKAT_REQUIRE_MSG(cond(ok) and x<0,"a " << msg(m)); break;
      case 12: line=__LINE__; EKAT_REQUIRE(cond(ok),msg(m),std::exception); break;
      case 13: line=__LINE__; EKAT_REQUIRE(cond(ok),msg(m),BadArg); break;
      default: if (!ok) { line=__LINE__; EKAT_ERROR_MSG(msg(m)); } break;
    }
    s.type="none";
  } catch (const std::out_of_range& e) { s.type="out_of_range"; s.text=e.what(); } catch (const BadArg& e) { s.type="BadArg"; s.text=e.what(); } catch (const WithString& e) { s.type="WithString"; s.text=e.what(); }
  catch (const std::logic_error& e) { s.type="logic_error"; s.text=e.what(); } catch (const NoString& e) { s.type="NoString"; s.text=e.what(); } catch (const Nothing& e) { s.type="Nothing"; }
  catch (const std::range_error& e) { s.type="range_error"; } catch (const std::runtime_error& e) { s.type="runtime_error"; s.text=e.what(); } catch (const std::exception& e) { s.type=typeid(e)==typeid(std::exception)?"exception":typeid(e).name(); }
  s.err=ce.o.str(); s.conds=g_conds; s.msgs=g_msgs; s.line=line; return s;
}
struct Unwinder { int kind; std::string m; bool ok; std::string* err; std::string* escaped; // runs a check while the stack unwinds
  ~Unwinder () { try { auto s=fire(kind,ok,m,1); *err+=s.err; if (s.type!="none") *escaped=s.type; } catch (...) { *escaped="something"; } } };
static std::string message (vp::Case& c) { return c.chance(1,5) ? "" : c.str("abc %d\n\"'<<",1,20); }
VP_PROP(checks, 250000, 4000000, "sequences of 1-8 requirements, error checks and assertions with true and false conditions, all macros and exception types, any message, some of them inside destructors while an exception unwinds the stack; non-trivial: a check fails") {
  int n=c.size(1,8); bool any=false, unw=false;
  for (int i=0;i<n;++i) {
    int kind=(int)c.below(14), x=c.irange(1,99); bool ok=c.b(), unwinding=c.chance(1,5); auto m=message(c);
    bool assert_=kind==8||kind==9, active=!assert_||DBG, fails=!ok&&active; any|=fails;
    c.d << "kind " << kind << (ok?" holds":" fails") << (unwinding?" during unwinding":"") << " " << vp::quote(m) << "\n";
    if (unwinding) {
      unw=true; std::string err,esc; bool outer=false;
      try { Unwinder u{kind,m,ok,&err,&esc}; EKAT_REQUIRE_MSG(false,"outer"); } catch (const std::runtime_error& e) { outer=std::string(e.what()).find("outer")!=std::string::npos; }
      VP_CHECK(outer,"the first exception does not arrive"); VP_CHECK(esc.empty(),"a check throws " << esc << " while the stack unwinds");
      bool has=kind!=0 && kind!=8; VP_CHECK(fails ? (err.size()>0 && (!has || err.find(m)!=std::string::npos)) : err.empty(),"error stream during unwinding: " << vp::quote(err));
      continue;
    }
    auto s=fire(kind,ok,m,x); static const char* types[]={"runtime_error","runtime_error","out_of_range","runtime_error","runtime_error","NoString","runtime_error","WithString","runtime_error","runtime_error","runtime_error","runtime_error","exception","BadArg"};
    std::string want=fails?types[kind]:"none"; VP_CHECK(s.type==want,"threw " << s.type << ", expected " << want);
    VP_CHECK(s.conds==(kind==11?0:active?1:0),"the condition is evaluated " << s.conds << " times");
    bool has=kind!=0 && kind!=8; VP_CHECK(s.msgs==(fails&&has?1:0),"the message is evaluated " << s.msgs << " times");
    if (fails) {
      bool silent=kind==5||kind==12||kind==13; // the type cannot carry the message
      auto& t = silent ? s.err : s.text; if (has) VP_CHECK(t.find(m)!=std::string::npos,"the text lacks the message: " << vp::quote(t));
      if (kind==4) VP_CHECK(t.find("value "+std::to_string(x)+" and "+m+"\n")!=std::string::npos,"the text lacks the streamed message: " << vp::quote(t));
      VP_CHECK(t.find(frame(s.line))!=std::string::npos,"the text lacks the location " << frame(s.line) << ": " << vp::quote(t));
      if (kind!=11) VP_CHECK(t.find("cond(ok)")!=std::string::npos,"the text lacks the condition: " << vp::quote(t));
      if (!silent && kind!=6) VP_CHECK(s.err.empty(),"writes to the error stream: " << vp::quote(s.err));
    } else VP_CHECK(s.err.empty() && s.text.empty(),"writes to the error stream: " << vp::quote(s.err));
  }
  c.nontrivial(any); c.label("fails",any); c.label("during unwinding",unw);
}
// --- floating-point exceptions
static sigjmp_buf jb; static void on_fpe (int) { siglongjmp(jb,1); }
static const int bits[]={FE_INVALID,FE_DIVBYZERO,FE_OVERFLOW,FE_UNDERFLOW,FE_INEXACT}; static const char* names[]={"FE_INVALID","FE_DIVBYZERO","FE_OVERFLOW","FE_UNDERFLOW","FE_INEXACT"};
static volatile double zero=0, one=1, big=1e300, tiny=1e-300, three=3, sink; static volatile long double lzero=0, lone=1, lbig=1e4000L, lsink;
static void operation (int k, bool x87) {
  if (x87) { switch (k) { case 0: lsink=lzero/lzero; break; case 1: lsink=lone/lzero; break; case 2: lsink=lbig*lbig*lbig*lbig; break; case 3: lsink=(1/lbig)*(1/lbig)*(1/lbig); break; default: lsink=lone/3; } lsink=lsink+0; }
  else switch (k) { case 0: sink=zero/zero; break; case 1: sink=one/zero; break; case 2: sink=big*big; break; case 3: sink=tiny*tiny; break; default: sink=one/three; }
}
// bits an operation raises besides its own
static int raises (int k) { return k==2||k==3 ? bits[k]|FE_INEXACT : bits[k]; }
VP_PROP(fpe_histories, 40000, 1000000, "histories of 1-20 enable, disable, disable-all calls with any mask, mixed with operations that raise each exception (in SSE and x87 arithmetic), compared with the set model, the hardware state and the traps taken; non-trivial: at least two calls change the set") {
  struct sigaction sa{}, old; sa.sa_handler=on_fpe; sa.sa_flags=SA_NODEFER; sigaction(SIGFPE,&sa,&old);
  std::feclearexcept(FE_ALL_EXCEPT); fedisableexcept(FE_ALL_EXCEPT);
  int model=0, changes=0, traps=0; int n=c.size(1,20);
  auto finish=[&]{ std::feclearexcept(FE_ALL_EXCEPT); fedisableexcept(FE_ALL_EXCEPT); sigaction(SIGFPE,&old,nullptr); };
  try { for (int i=0;i<n;++i) {
    int was=model, pre=model;
    int op=(int)c.weighted({5,4,1,5}); int mask=0; for (int b=0;b<5;++b) if (c.b()) mask|=bits[b];
    if (op<3) {
      c.d << (op==0?"enable ":op==1?"disable ":"disable all ") << (op<2?mask:0) << "\n"; bool trapped=false;
      if (sigsetjmp(jb,1)) trapped=true;
      else { if (op==0) { ekat::enable_fpes(mask); } else if (op==1) ekat::disable_fpes(mask); else ekat::disable_all_fpes(); }
      if (trapped) { feenableexcept(pre); VP_FAIL("a call on masks traps"); }
      if (op==0) model|=mask; else if (op==1) model&=~mask; else model=0;
    } else {
      int k=(int)c.below(5); bool x87=c.b(); int r=raises(k); c.d << "raise " << names[k] << (x87?" (x87)":"") << "\n";
      volatile bool trapped=false; int got=fegetexcept();
      if (sigsetjmp(jb,1)) trapped=true; else operation(k,x87);
      if (trapped) { // the signal resets the floating point state
        ++traps; std::feclearexcept(FE_ALL_EXCEPT); fedisableexcept(FE_ALL_EXCEPT); feenableexcept(got); }
      bool want=(r&model)!=0; VP_CHECK(trapped==want,names[k] << (trapped?" traps":" does not trap") << " with enabled set " << model);
    }
    int hw=fegetexcept(), rep=ekat::get_enabled_fpes(); VP_CHECK(rep==model,"get_enabled_fpes is " << rep << ", expected " << model); VP_CHECK(hw==model,"the hardware has " << hw << " enabled, expected " << model);
    auto t=ekat::fpe_config_string(); for (int b=0;b<5;++b) VP_CHECK((t.find(names[b])!=std::string::npos)==((model&bits[b])!=0),"configuration text " << vp::quote(t) << " for the set " << model);
    VP_CHECK((t.find("NONE")!=std::string::npos)==(model==0) && t.find("OTHER")==std::string::npos,"configuration text " << vp::quote(t) << " for the set " << model);
    changes+=was!=model;
  } } catch (...) { finish(); throw; }
  finish(); c.nontrivial(changes>=2); c.label("trap taken",traps>0);
}
