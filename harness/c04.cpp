// C04: similarity indices against their definitions
#define VP_MAIN
#include "vp.hpp"
#include "ekat_string_utils.hpp"
#include "tokens.hpp"
void vp_init (int&, char**&) {}
void vp_fini () {}
using vp::quote;
static double ref_jaro (const std::string& a, const std::string& b) {
  if (a==b) return 1;
  int la=a.size(), lb=b.size(), w=std::max(la,lb)/2-1;
  std::vector<bool> used(lb,false); std::string ma; 
  for (int i=0;i<la;++i) for (int j=0;j<lb;++j) if (std::abs(i-j)<=w && !used[j] && a[i]==b[j]) { used[j]=true; ma+=a[i]; break; }
  std::string mb; for (int j=0;j<lb;++j) if (used[j]) mb+=b[j];
  double m=ma.size(); if (m==0) return 0;
  int diff=0; for (size_t k=0;k<ma.size();++k) diff+=ma[k]!=mb[k];
  return (m/la+m/lb+(m-diff/2.0)/m)/3;
}
static std::string edit (vp::Case& c, std::string s, const std::string& al) {
  int n=c.size(0,5);
  for (int k=0;k<n;++k) switch (c.below(5)) {
    case 0: if (s.size()>1) { auto i=c.below(s.size()-1); std::swap(s[i],s[i+1]); } break;
    case 1: if (!s.empty()) s.erase(c.below(s.size()),1); break;
    case 2: s.insert(c.below(s.size()+1),1,al[c.below(al.size())]); break;
    case 3: if (!s.empty()) s[c.below(s.size())]=al[c.below(al.size())]; break;
    default: if (s.size()>1) std::swap(s[c.below(s.size())],s[c.below(s.size())]);
  }
  return s;
}
VP_PROP(jaro, 300000, 5000000, "pairs of strings, the second mostly an edited copy of the first (transpositions, insertions, deletions), with all prefix weights, lengths and thresholds; non-trivial: the strings differ and share matching characters") {
  std::string al=c.pick<std::string>({"ab","abc","abcdefgh"});
  std::string s=c.str(al,0,c.chance(1,10)?60:12), t=c.chance(2,3)?edit(c,s,al):c.str(al,0,12);
  if (c.b()) std::swap(s,t);
  c.d << quote(s) << " vs " << quote(t);
  double r=ref_jaro(s,t), x=ekat::jaro_similarity(s,t);
  VP_CHECK(std::abs(x-r)<1e-12,"jaro_similarity is " << x << ", the definition gives " << r);
  VP_CHECK(x>=0 && x<=1+1e-14,"jaro_similarity out of [0,1]: " << x);
  size_t cp=0; while (cp<s.size() && cp<t.size() && s[cp]==t[cp]) ++cp;
  auto ref=[&](int l, double p, double th){ return r>th ? r+std::min<double>(cp,l)*p*(1-r) : r; };
  int l=c.irange(0,4); double p = l==0 ? 0.3 : c.irange(0,100)/100.0/l; double th=c.irange(1,99)/100.0;
  bool edge = std::abs(r-th)<1e-9 || std::abs(r-0.7)<1e-9;
  if (!edge) {
    double y=ekat::jaro_winkler_similarity(s,t), z=ekat::jaro_winkler_similarity(s,t,l,p,th);
    VP_CHECK(std::abs(y-ref(4,0.1,0.7))<1e-12,"jaro_winkler_similarity is " << y << ", the definition gives " << ref(4,0.1,0.7));
    VP_CHECK(std::abs(z-ref(l,p,th))<1e-12,"jaro_winkler_similarity(l=" << l << ",p=" << p << ",threshold=" << th << ") is " << z << ", the definition gives " << ref(l,p,th));
    VP_CHECK(y>=x-1e-14 && y<=1+1e-14 && z<=1+1e-12,"jaro_winkler_similarity out of range");
    c.label("boosted",y>x);
  }
  c.nontrivial(s!=t && x>0); c.label("prefix longer than 4",cp>4); c.label("transposition",x>0 && x<1 && s.size()==t.size());
}
VP_PROP(jaccard, 300000, 5000000, "pairs of phrases over a small vocabulary with repeated, reordered, empty and delimiter-containing tokens and both tokenization choices; non-trivial: the token sets intersect and differ") {
  std::string delims=c.str("_ ,",0,2); if (delims.empty() && c.b()) delims="_";
  auto phrase=[&]{ std::string s; int n=c.size(0,7); for (int i=0;i<n;++i) { s+=c.pick<std::string>({"a","b","ab","air","p",""}); if (!delims.empty() && c.chance(4,5)) s+=delims[c.below(delims.size())]; else if (c.chance(1,4)) s+="_"; } return s; };
  std::string s=phrase(), t;
  switch (c.below(4)) { case 0: t=phrase(); break; case 1: t=s+phrase(); break; case 2: { auto v=ref_runs(s,delims); t = v.empty()?phrase():v[c.below(v.size())]; break; }
    default: { auto v=ref_runs(s,delims); std::reverse(v.begin(),v.end()); for (auto& x:v) t+=x+(delims.empty()?"":delims.substr(0,1)); if (c.b()) t+=t; } }
  bool ts=c.b(), tt=c.b();
  std::vector<char> dv(delims.begin(),delims.end());
  c.d << "jaccard(" << quote(s) << (ts?" tokenized":"") << ", " << quote(t) << (tt?" tokenized":"") << ", delimiters " << quote(delims) << ")";
  auto set=[&](const std::string& x, bool tk, const std::string& other, bool otk){ std::vector<std::string> v; if (!tk) v={x}; else v=ref_tokens(x,delims,otk?"":other); return std::set<std::string>(v.begin(),v.end()); };
  double x=ekat::jaccard_similarity(s,t,dv,ts,tt), y=ekat::jaccard_similarity(t,s,dv,tt,ts);
  if (ts && tt) { double z=ekat::jaccard_similarity(s,t,dv); VP_CHECK(z==x || (z!=z&&x!=x),"the default is not to tokenize both"); }
  auto A=set(s,ts,t,tt), B=set(t,tt,s,ts);
  std::vector<std::string> I; std::set_intersection(A.begin(),A.end(),B.begin(),B.end(),std::back_inserter(I));
  size_t un=A.size()+B.size()-I.size();
  VP_CHECK(x>=0 && x<=1,"jaccard_similarity out of [0,1]: " << x);
  VP_CHECK(x==y,"jaccard_similarity is not symmetric: " << x << " and " << y);
  if (un>0) VP_CHECK(std::abs(x-(double)I.size()/un)<1e-14,"jaccard_similarity is " << x << ", the definition gives " << I.size() << "/" << un);
  c.nontrivial(!I.empty() && un>I.size()); c.label("repeated token",ref_runs(s,delims).size()>std::set<std::string>([&]{auto v=ref_runs(s,delims);return std::set<std::string>(v.begin(),v.end());}()).size());
  c.label("one side tokenized",ts!=tt); c.label("no tokens",un==0);
}
