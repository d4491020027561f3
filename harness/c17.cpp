// C17: test-session arguments
#define VP_MAIN
#include "vp.hpp"
#include "ekat_test_utils.hpp"
void vp_init (int&, char**&) {}
void vp_fini () {}
using TS = ekat::TestSession;
struct M { std::map<std::string,bool> flags; std::map<std::string,std::vector<std::string>> vec; std::map<std::string,std::string> params () const { std::map<std::string,std::string> p; for (auto& x:vec) if (x.second.size()==1) p[x.first]=x.second[0]; return p; } };
static void parse (const std::vector<std::string>& a) { std::vector<char*> v; for (auto& s:a) v.push_back(const_cast<char*>(s.c_str())); TS::get().parse_test_args(v); }
static void compare (const M& m) {
  auto& t=TS::get(); auto show=[](const auto& x){ std::ostringstream o; for (auto& y:x) o << vp::quote(y.first) << " "; return o.str(); };
  VP_CHECK(t.flags==m.flags,"flags are " << show(t.flags) << ", expected " << show(m.flags));
  VP_CHECK(t.vec_params==m.vec,"multi-valued parameters differ: keys " << show(t.vec_params) << ", expected " << show(m.vec));
  VP_CHECK(t.params==m.params(),"single-valued parameters are " << show(t.params) << ", expected " << show(m.params()));
}
static std::string val (vp::Case& c) { std::string s=c.chance(1,3) ? c.str("1a.b",0,4) : c.pick<const char*>({"1","foo","a-b","x","2.5","v--w"}); return s; }
static std::string key (vp::Case& c) { return c.chance(1,6) ? c.str("k-n",0,3) : c.pick<const char*>({"k","key","f","n","long-name"}); }
static std::string dash (vp::Case& c, std::string& k) { // key with its dashes; the key that is meant comes back in k
  bool two=c.b(); if (!two && !k.empty() && k[0]=='-') k="q"+k; return (two?"--":"-")+k; }
VP_PROP(histories, 300000, 5000000, "1-3 calls with 0-8 groups of arguments in every documented form, keys repeated within and across calls, compared with the arguments given; malformed lists are rejected and change nothing; non-trivial: a key has several values or occurs more than once, or the list is malformed") {
  auto& t=TS::get(); t.flags.clear(); t.params.clear(); t.vec_params.clear(); M m; bool rep=false, bad=false, multi=false;
  int calls=c.irange(1,3);
  for (int q=0;q<calls;++q) {
    std::vector<std::string> a; M n=m; int groups=c.size(0,8);
    for (int g=0;g<groups;++g) {
      auto k=key(c); auto d=dash(c,k); rep|=n.vec.count(k)||n.flags.count(k);
      switch (c.below(6)) {
        case 0: a.push_back(d); n.flags[k]=true; break;
        case 1: { auto v=val(c); a.push_back(d+"="+v); n.vec[k].push_back(v); break; }
        case 2: { int cnt=c.irange(2,4); std::string s=d+"="; for (int i=0;i<cnt;++i) { auto v=val(c); s+=(i?",":"")+v; n.vec[k].push_back(v); } a.push_back(s); multi=true; break; }
        case 3: { auto v=val(c); a.push_back(d); a.push_back(v); n.vec[k].push_back(v); break; }
        case 4: { int cnt=c.irange(2,4); a.push_back(d); for (int i=0;i<cnt;++i) { auto v=val(c); a.push_back(v); n.vec[k].push_back(v); } multi=true; break; }
        default: { int cnt=c.irange(2,4); a.push_back(d); std::string s; for (int i=0;i<cnt;++i) { auto v=val(c); s+=(i?",":"")+v; n.vec[k].push_back(v); } a.push_back(s); if (c.b()) { auto v=val(c); a.push_back(v); n.vec[k].push_back(v); } multi=true; }
      }
    }
    bool broken=c.chance(1,6);
    if (broken) { // one way of being malformed
      auto ins=[&](const std::string& s){ size_t p=a.empty()?0:1+c.below(a.size()); a.insert(a.begin()+p,s); };
      switch (c.below(6)) { case 0: a.insert(a.begin(),"value"+val(c)); break; case 1: if (a.empty()) a.push_back("-k"); ins("-k=1=2"); break; case 2: if (a.empty()) a.push_back("-k"); ins("notkey=1"); break;
        case 3: if (a.empty()) a.push_back("-k"); ins("-k=1,-x"); break; case 4: if (a.empty()) a.push_back("-k"); ins("1,-k"); break; default: a.insert(a.begin(),"x,y"); }
      bad=true;
    }
    for (auto& s:a) c.d << vp::quote(s) << " "; c.d << (broken?"(malformed)":"") << "\n";
    if (broken) VP_CHECK(vp::throws([&]{ parse(a); }),"a malformed list is accepted"); else { parse(a); m=n; }
    compare(m);
  }
  c.nontrivial(rep||bad||multi); c.label("repeated key",rep); c.label("malformed",bad); c.label("several calls",calls>1);
}
VP_PROP(option_names, 100000, 500000, "strings close to an option's short and long names; non-trivial: it matches") {
  std::string sh="-"+c.str("ab",1,2), lo="--"+c.str("abcd",1,4); std::string s; switch (c.below(5)) { case 0: s=sh; break; case 1: s=lo; break; case 2: s="-"+sh; break; case 3: s=lo.substr(1); break; default: s=c.str("-ab",0,4); }
  c.d << s << " " << sh << " " << lo; bool want = s==sh||s==lo||s=="-"+sh; VP_CHECK(ekat::argv_matches(s,sh,lo)==want,"argv_matches is " << !want); c.nontrivial(want);
}
VP_PROP(random_arrays, 20000, 200000, "arrays of 0-50 entries filled by an engine and a distribution that count their calls; non-trivial: at least two entries") {
  int n=c.size(0,50); std::vector<double> x(n+2,-7); int eng=5; int calls=0; ekat::genRandArray(x.data()+1,n,eng,[&](int& e){ ++calls; e+=3; return 0.5*e; });
  VP_CHECK(x[0]==-7 && x[n+1]==-7 && calls==n,"writes outside the array or draws " << calls << " numbers"); for (int i=0;i<n;++i) VP_CHECK(x[i+1]==0.5*(5+3*(i+1)),"entry " << i << " is not the " << i << "-th draw"); c.d << n; c.nontrivial(n>=2);
}
