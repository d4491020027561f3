// C02: split, join, join_if, trim, strip, upper_case, starts_with, strint
#define VP_MAIN
#include "vp.hpp"
#include "ekat_string_utils.hpp"
#include <array>
#include <climits>
#include <deque>
#include <list>
void vp_init (int&, char**&) {}
void vp_fini () {}
using vp::quote;

// Strings over a small alphabet, so that delimiters occur often, and sometimes over all bytes
static std::string text (vp::Case& c, int hi) {
  switch (c.weighted({6,3,1})) {
    case 0: return c.str("ab,",0,hi);
    case 1: return c.str("aA zZ,;__@[`{0",0,hi);
    default: { int n=c.size(0,hi); std::string s; for (int i=0;i<n;++i) s+=(char)c.below(256); return s; }
  }
}
static std::vector<std::string> ref_split (const std::string& s, const std::string& d) {
  std::vector<std::string> out(1);
  size_t i=0;
  while (i<s.size()) {
    if (i+d.size()<=s.size() && std::memcmp(s.data()+i,d.data(),d.size())==0) { out.emplace_back(); i+=d.size(); }
    else out.back()+=s[i++];
  }
  return out;
}
VP_PROP(split_join, 250000, 4000000, "random string and delimiter of 1-4 characters (often overlapping itself), split and joined back; non-trivial: the delimiter occurs at least twice") {
  std::string d = c.chance(1,4) ? text(c,4) : c.str("ab,",1,4);
  if (d.empty()) d=",";
  std::string s;
  int parts=c.size(0,6);
  for (int i=0;i<parts;++i) { s+=text(c,5); if (c.chance(2,3)) s+=d; }
  if (c.chance(1,3)) s+=text(c,40);
  if (c.chance(1,200)) { int k=c.irange(1,50); for (int i=0;i<k;++i) s+=s.size()<20000?s:std::string("a"); }
  c.d << "split(" << (s.size()<500?quote(s):quote(s.substr(0,500))+"...") << "," << quote(d) << ")";
  auto ref=ref_split(s,d);
  auto out=ekat::split(s,d);
  VP_CHECK(out==ref,"split gives " << out.size() << " pieces, expected " << ref.size() << "; first piece " << quote(out.empty()?"":out[0]));
  if (d.size()==1) VP_CHECK(ekat::split(s,d[0])==ref,"split at a character differs from split at a one-character string");
  VP_CHECK(ekat::join(out,d)==s,"joining the pieces does not give the string back");
  c.nontrivial(ref.size()>2); c.label("no delimiter",ref.size()==1); c.label("empty piece",std::find(ref.begin(),ref.end(),"")!=ref.end());
}
template<typename T> std::string txt (const T& x) { std::ostringstream o; o << x; return o.str(); }
template<typename C> void check_joins (vp::Case& c, const C& items, const std::string& sep) {
  int mod=c.irange(1,4), rem=c.irange(0,3), mult=c.irange(-3,3);
  using T=typename C::value_type;
  auto sel=[&](const T& x)->bool { if constexpr (std::is_same<T,std::string>::value) return (int)(x.size()%mod)==rem; else return ((int)x%mod+mod)%mod==rem; };
  auto f=[&](const T& x) { if constexpr (std::is_same<T,std::string>::value) return x+std::to_string(mult)+x; else return x*mult; };
  auto build=[&](bool filt, bool tr){ std::string r; bool first=true; for (const auto& x:items) { if (filt && !sel(x)) continue; if (!first) r+=sep; first=false; r+= tr ? txt(f(x)) : txt(x); } return r; };
  c.d << "items:"; size_t nsel=0; for (const auto& x:items) { c.d << " " << quote(txt(x)); nsel+=sel(x); }
  c.d << " sep " << quote(sep) << " select x%" << mod << "==" << rem << " factor " << mult;
  VP_CHECK(ekat::join(items,sep)==build(false,false),"join gives " << quote(ekat::join(items,sep)) << ", expected " << quote(build(false,false)));
  VP_CHECK(ekat::join(items,f,sep)==build(false,true),"join with a transformation gives " << quote(ekat::join(items,f,sep)));
  VP_CHECK(ekat::join_if(items,sel,sep)==build(true,false),"join_if gives " << quote(ekat::join_if(items,sel,sep)) << ", expected " << quote(build(true,false)));
  VP_CHECK(ekat::join_if(items,sel,f,sep)==build(true,true),"join_if with a transformation gives " << quote(ekat::join_if(items,sel,f,sep)));
  c.nontrivial(nsel>1 && nsel<(size_t)std::distance(items.begin(),items.end())); c.label("none selected",nsel==0); c.label("last not selected",nsel>0 && !items.empty() && !sel(*std::prev(items.end())));
}
VP_PROP(joins, 200000, 3000000, "containers (vector, list, deque, set of int, double or string) joined with a separator, a random filter and a transformation; non-trivial: some items but not all are selected and there are at least two") {
  std::string sep=text(c,3); int n=c.size(0,9);
  switch (c.below(6)) {
    case 0: { std::vector<int> v(n); for (auto& x:v) x=c.irange(-20,20); check_joins(c,v,sep); break; }
    case 1: { std::list<std::string> v(n); for (auto& x:v) x=text(c,4); check_joins(c,v,sep); break; }
    case 2: { std::vector<double> v(n); for (auto& x:v) x=c.irange(-20,20)/4.0; check_joins(c,v,sep); break; }
    case 3: { std::deque<std::string> v(n); for (auto& x:v) x=text(c,4); check_joins(c,v,sep); break; }
    case 4: { std::set<int> v; for (int i=0;i<n;++i) v.insert(c.irange(-20,20)); check_joins(c,v,sep); break; }
    default: { std::vector<long> v(n); for (auto& x:v) x=(long)c.range(-1000000000000,1000000000000); check_joins(c,v,sep); break; }
  }
}
VP_PROP(trim_strip_case, 250000, 4000000, "random strings with runs of the trimmed character at both ends and inside; non-trivial: something is trimmed on both sides and something is left") {
  char ch = c.pick<char>({' ','a',',','Z','_','\0','\t','\xff'});
  std::string core=text(c,12); std::string s=std::string(c.size(0,5),ch)+core+std::string(c.size(0,5),ch);
  c.d << "trim/strip(" << quote(s) << "," << quote(std::string(1,ch)) << ")";
  size_t b=0,e=s.size(); while (b<e && s[b]==ch) ++b; while (e>b && s[e-1]==ch) --e;
  auto t=ekat::trim(s,ch);
  VP_CHECK(t==s.substr(b,e-b),"trim gives " << quote(t) << ", expected " << quote(s.substr(b,e-b)));
  if (ch==' ') VP_CHECK(ekat::trim(s)==t,"the default trimmed character is not the blank");
  std::string st=s, ref; for (char x:s) if (x!=ch) ref+=x;
  ekat::strip(st,ch);
  VP_CHECK(st==ref,"strip gives " << quote(st) << ", expected " << quote(ref));
  std::string up=ekat::upper_case(s), uref=s; for (auto& x:uref) if (x>='a'&&x<='z') x-=32;
  VP_CHECK(up==uref,"upper_case gives " << quote(up) << ", expected " << quote(uref));
  std::string p; int kind=c.irange(0,3);
  if (kind==0) p=s.substr(0,c.below(s.size()+1)); else if (kind==1) p=s+text(c,2); else if (kind==2) { p=s.substr(0,c.below(s.size()+1)); if (!p.empty()) p[c.below(p.size())]='#'; } else p=text(c,3);
  bool sw = p.size()<=s.size() && std::equal(p.begin(),p.end(),s.begin());
  VP_CHECK(ekat::starts_with(s,p)==sw,"starts_with(" << quote(s) << "," << quote(p) << ") is " << !sw);
  int k=(int)c.range(INT_MIN,INT_MAX); if (c.b()) k=c.irange(-20,20);
  VP_CHECK(ekat::strint(s,k)==s+" "+std::to_string(k),"strint");
  c.nontrivial(b>0 && e<s.size() && b<e); c.label("all trimmed",b==e && !s.empty()); c.label("prefix",sw);
}
