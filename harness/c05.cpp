// C05: gather_tokens against a reference tokenizer
#define VP_MAIN
#include "vp.hpp"
#include "ekat_string_utils.hpp"
#include "tokens.hpp"
void vp_init (int&, char**&) {}
void vp_fini () {}
using vp::quote;
static std::string show (const std::vector<std::string>& v) { std::string s="{"; for (auto& x:v) s+=quote(x)+" "; return s+"}"; }
static void check (vp::Case& c, const std::string& s, const std::string& delims, const std::string& atomic) {
  std::vector<char> dv(delims.begin(),delims.end());
  c.d << "gather_tokens(" << quote(s) << ", delimiters " << quote(delims) << ", atomic " << quote(atomic) << ")";
  auto l = atomic.empty() && c.b() ? ekat::gather_tokens(s,dv) : ekat::gather_tokens(s,dv,atomic);
  std::vector<std::string> out(l.begin(),l.end());
  int kept=0; auto ref=ref_tokens(s,delims,atomic,&kept);
  c.label("atomic kept",kept>0); c.label("atomic kept twice",kept>1);
  c.label("atomic occurs undelimited",!atomic.empty() && kept==0 && s.find(atomic)!=std::string::npos);
  if (!atomic.empty()) { std::sort(out.begin(),out.end()); std::sort(ref.begin(),ref.end()); }
  VP_CHECK(out==ref,"tokens are " << show(out) << ", expected " << show(ref));
}
VP_PROP(plain_tokens, 250000, 4000000, "random strings over letters and delimiters, no atomic token; non-trivial: at least two delimiters in the string") {
  std::string delims=c.str("_ ,;",0,3); std::string s;
  switch (c.weighted({4,1})) { case 0: s=c.str("ab_ ,;",0,20); break; default: { int n=c.size(0,20); for (int i=0;i<n;++i) s+=(char)c.below(256); delims+=(char)c.below(256); } }
  int nd=0; for (char x:s) nd+=delims.find(x)!=std::string::npos;
  check(c,s,delims,"");
  c.nontrivial(nd>1);
}
VP_PROP(atomic_tokens, 400000, 6000000, "strings built from pieces that include the atomic token (with and without delimiters inside, at the ends, adjacent, undelimited or overlapping); non-trivial: the atomic token occurs in the string") {
  std::string delims=c.str("_ ,",0,2); 
  std::string d1 = delims.empty() ? "" : std::string(1,delims[0]);
  std::string atomic;
  switch (c.below(4)) { case 0: atomic=c.str("ab",1,2); break; case 1: atomic=c.str("ab",1,1)+c.str("ab_",0,4)+c.str("ab",1,1); break; case 2: atomic=c.str("a",1,2)+d1+c.str("ab",1,2); break; default: { auto w=c.str("ab",1,1); atomic=w+d1+w; } }
  std::string s; int n=c.size(1,8);
  for (int i=0;i<n;++i) switch (c.below(4)) {
    case 0: s+=atomic; break;
    case 1: if (!delims.empty()) s+=delims[c.below(delims.size())]; break;
    case 2: s+=c.str("ab",1,3); break;
    default: s+=c.str("ab_ ,",0,4);
  }
  check(c,s,delims,atomic);
  c.nontrivial(s.find(atomic)!=std::string::npos);
}
