// C03: case-insensitive strings
#define VP_MAIN
#include "vp.hpp"
#include "ekat_string_utils.hpp"
void vp_init (int&, char**&) {}
void vp_fini () {}
using vp::quote;
using CIS = ekat::CaseInsensitiveString;
static const std::string alpha = "aAbBzZ_[@`{09 .^~";
static std::string up (std::string s) { for (auto& x:s) if (x>='a'&&x<='z') x-=32; return s; }
static std::string flip (vp::Case& c, std::string s) { for (auto& x:s) if (std::isalpha((unsigned char)x) && c.b()) x^=32; return s; }
// A string related to s: same up to case, prefix, extension, one character changed, or unrelated
static std::string related (vp::Case& c, const std::string& s) {
  switch (c.below(5)) {
    case 0: return flip(c,s);
    case 1: return flip(c,s.substr(0,c.below(s.size()+1)));
    case 2: return flip(c,s)+c.str(alpha,1,3);
    case 3: { auto t=flip(c,s); if (!t.empty()) t[c.below(t.size())]=alpha[c.below(alpha.size())]; return t; }
    default: return c.str(alpha,0,10);
  }
}
static std::string word (vp::Case& c) {
  if (c.chance(1,4)) { int n=c.size(0,8); std::string s; for (int i=0;i<n;++i) s+=(char)c.irange(32,126); return s; }
  return c.str(alpha,0,10);
}
template<typename A, typename B> void check_pair (const A& a, const B& b, const std::string& ua, const std::string& ub, const char* what) {
  VP_CHECK((a==b)==(ua==ub),what << ": == gives " << (a==b));
  VP_CHECK((a!=b)==(ua!=ub),what << ": != gives " << (a!=b));
  VP_CHECK((a<b)==(ua<ub),what << ": < gives " << (a<b));
  VP_CHECK((a<=b)==(ua<=ub),what << ": <= gives " << (a<=b));
}
VP_PROP(comparisons, 400000, 8000000, "pairs of strings that differ only in case, in length, in one character or entirely, compared with all operators and operand types against the upper-cased strings; non-trivial: both strings have at least two characters and are not identical") {
  std::string s=word(c), t=related(c,s);
  c.d << quote(s) << " vs " << quote(t);
  CIS a(s), b(t); auto us=up(s), ut=up(t);
  check_pair(a,b,us,ut,"two case-insensitive strings");
  check_pair(a,t,us,ut,"case-insensitive and ordinary string");
  check_pair(s,b,us,ut,"ordinary and case-insensitive string");
  check_pair(a,t.c_str(),us,ut,"case-insensitive string and literal");
  VP_CHECK(ekat::caseInsensitiveEqualString(s,t)==(us==ut),"caseInsensitiveEqualString");
  VP_CHECK(ekat::caseInsensitiveLessString(s,t)==(us<ut),"caseInsensitiveLessString");
  VP_CHECK(ekat::caseInsensitiveLessEqualString(s,t)==(us<=ut),"caseInsensitiveLessEqualString");
  VP_CHECK((a==b)==(!(a<b)&&!(b<a)),"equality is not consistent with the ordering");
  VP_CHECK(std::string(a)==s && a.size()==s.size(),"construction changes the string");
  c.nontrivial(s.size()>1 && t.size()>1 && s!=t); c.label("equal up to case",us==ut && s!=t); c.label("less",us<ut); c.label("greater",ut<us);
}
VP_PROP(containers, 60000, 1000000, "histories of insert/find/erase on a set and a map keyed by case-insensitive strings, against containers keyed by the upper-cased strings; non-trivial: the same folded name is used with different spellings") {
  std::set<CIS> s; std::map<CIS,int> m; std::map<std::string,int> ref; std::map<std::string,std::string> first;
  std::vector<std::string> pool; int n=c.size(1,30); bool respelled=false;
  for (int i=0;i<n;++i) {
    std::string w = pool.empty() || c.chance(1,3) ? c.str(alpha,0,5) : related(c,c.pick(pool));
    pool.push_back(w); auto u=up(w);
    switch (c.below(3)) {
      case 0: c.d << "insert " << quote(w) << " "; {
        if (ref.count(u) && first[u]!=w) respelled=true;
        bool isnew=!ref.count(u); if (isnew) first[u]=w;
        VP_CHECK(s.insert(w).second==isnew,"set insertion of " << quote(w)); m[w]=i; ref[u]=i; break; }
      case 1: c.d << "find " << quote(w) << " "; {
        VP_CHECK((s.find(w)!=s.end())==(ref.count(u)>0),"set lookup of " << quote(w));
        auto it=m.find(w); VP_CHECK((it!=m.end())==(ref.count(u)>0),"map lookup of " << quote(w)); if (it!=m.end()) VP_CHECK(it->second==ref[u],"map value of " << quote(w)); break; }
      default: c.d << "erase " << quote(w) << " "; VP_CHECK(s.erase(w)==ref.count(u),"set erasure of " << quote(w)); m.erase(w); ref.erase(u); first.erase(u);
    }
    VP_CHECK(s.size()==ref.size() && m.size()==ref.size(),"the containers hold " << s.size() << " and " << m.size() << " entries, expected " << ref.size());
    auto it=s.begin(); for (auto& r:ref) { VP_CHECK(up(*it)==r.first,"order of the set: " << quote(*it) << " instead of " << quote(r.first)); VP_CHECK(std::string(*it)==first[r.first],"the set changed the spelling"); ++it; }
  }
  c.nontrivial(respelled);
}
