// C06: nested list strings against a recursive reference parser
#define VP_MAIN
#include "vp.hpp"
#include "ekat_string_utils.hpp"
#include <memory>
void vp_init (int&, char**&) {}
void vp_fini () {}
using vp::quote;
struct Tree { bool leaf=false; std::string text; std::vector<Tree> kids; int depth() const { int d=0; if (leaf) return 0; for (auto& k:kids) d=std::max(d,k.depth()); return d+1; } };
static const std::string opens="([{<", closes=")]}>", namechars="abzABZ0129_.-!@#$%^&*+=?";
static bool is_name (char x) { return std::isalnum((unsigned char)x) || std::string("_.-!@#$%^&*+=?").find(x)!=std::string::npos; }
// Reference parser of: list := open item {',' item} close; item := list | name
struct Parser {
  const std::string& s; char o,cl; size_t i=0;
  bool list (Tree& t) {
    size_t b=i;
    if (i>=s.size() || s[i]!=o) return false;
    ++i;
    while (true) {
      Tree k;
      if (i<s.size() && s[i]==o) { if (!list(k)) return false; }
      else { k.leaf=true; size_t q=i; while (i<s.size() && is_name(s[i])) ++i; if (i==q) return false; k.text=s.substr(q,i-q); }
      t.kids.push_back(k);
      if (i>=s.size()) return false;
      if (s[i]==',') { ++i; continue; }
      if (s[i]==cl) { ++i; t.text=s.substr(b,i-b); return true; }
      return false;
    }
  }
};
static bool ref_parse (const std::string& s, Tree& t) {
  if (s.empty()) return false;
  auto k=opens.find(s[0]); if (k==std::string::npos) return false;
  Parser p{s,opens[k],closes[k]};
  return p.list(t) && p.i==s.size();
}
static void compare (const ekat::ParameterList& l, const Tree& t, const std::string& where) {
  VP_CHECK(l.get<std::string>("String")==t.text,where << ": String is " << quote(l.get<std::string>("String")) << ", expected " << quote(t.text));
  VP_CHECK(l.get<int>("Num Entries")==(int)t.kids.size(),where << ": Num Entries is " << l.get<int>("Num Entries") << ", expected " << t.kids.size());
  VP_CHECK(l.get<int>("Depth")==t.depth(),where << ": Depth is " << l.get<int>("Depth") << ", expected " << t.depth());
  size_t np=3,ns=0;
  for (size_t i=0;i<t.kids.size();++i) {
    auto e="Entry "+std::to_string(i), ty="Type "+std::to_string(i); ++np;
    if (t.kids[i].leaf) { ++np;
      VP_CHECK(l.get<std::string>(ty)=="Value",where << ": " << ty << " is " << l.get<std::string>(ty));
      VP_CHECK(l.get<std::string>(e)==t.kids[i].text,where << ": " << e << " is " << quote(l.get<std::string>(e)) << ", expected " << quote(t.kids[i].text));
    } else { ++ns;
      VP_CHECK(l.get<std::string>(ty)=="List",where << ": " << ty << " is " << l.get<std::string>(ty));
      VP_CHECK(l.isSublist(e),where << ": " << e << " is not a sublist");
      VP_CHECK(l.sublist(e).name()==e,where << ": " << e << " is called " << l.sublist(e).name());
      compare(l.sublist(e),t.kids[i],where+"/"+e);
    }
  }
  VP_CHECK(l.param_names().size()==np && l.sublist_names().size()==ns,where << ": unexpected extra entries");
}
static std::string gen_list (vp::Case& c, char o, char cl, int depth) {
  std::string s(1,o); int n=c.size(1,depth==0?7:4);
  for (int i=0;i<n;++i) {
    if (i) s+=',';
    if (depth<6 && c.chance(1,3)) s+=gen_list(c,o,cl,depth+1);
    else s+=c.str(namechars,1,4);
  }
  return s+cl;
}
static void check (vp::Case& c, const std::string& s) {
  Tree t; bool ok=ref_parse(s,t);
  c.d << quote(s) << (ok?" (valid)":" (not valid)");
  VP_CHECK(ekat::valid_nested_list_format(s)==ok,"valid_nested_list_format says " << !ok);
  std::string sp=s; if (c.chance(1,3)) { int n=c.size(1,4); for (int i=0;i<n;++i) sp.insert(c.below(sp.size()+1),1,' '); }
  std::string bare; for (char x:sp) if (x!=' ') bare+=x;
  Tree t2; bool ok2=ref_parse(bare,t2);
  ekat::ParameterList l; bool thrown=vp::throws([&]{ l=ekat::parse_nested_list(sp); });
  VP_CHECK(thrown==!ok2,"parse_nested_list(" << quote(sp) << ") " << (thrown?"threw":"did not throw"));
  if (ok2) { VP_CHECK(l.name()==bare,"name of the list is " << quote(l.name())); compare(l,t2,"list"); }
  c.label("valid",ok); c.label("nested",ok && t.depth()>1); c.label("depth>2",ok && t.depth()>2);
}
VP_PROP(valid_lists, 150000, 2500000, "strings generated from the grammar with every bracket kind, nesting up to 7; non-trivial: nested at least twice") {
  int k=(int)c.below(4); auto s=gen_list(c,opens[k],closes[k],0); check(c,s); Tree t; ref_parse(s,t); c.nontrivial(t.depth()>2);
}
VP_PROP(near_lists, 250000, 4000000, "valid strings changed by one to three edits (insertion, deletion, replacement, swap, duplication of brackets, commas and names), and random strings over the same characters; non-trivial: the string still starts and ends with brackets") {
  int k=(int)c.below(4); std::string s; char o=opens[k], cl=closes[k];
  std::string soup=std::string()+o+cl+o+cl+","+"ab"; 
  if (c.chance(1,3)) s=c.str(soup,0,9); else s=gen_list(c,o,cl,3);
  int n=(int)c.weighted({1,5,3,1});
  for (int e=0;e<n;++e) switch (c.below(6)) {
    case 0: s.insert(c.below(s.size()+1),1,soup[c.below(soup.size())]); break;
    case 1: if (!s.empty()) s.erase(c.below(s.size()),1); break;
    case 2: if (!s.empty()) s[c.below(s.size())]=soup[c.below(soup.size())]; break;
    case 3: if (s.size()>1) std::swap(s[c.below(s.size())],s[c.below(s.size())]); break;
    case 4: s+=c.chance(1,2)?","+gen_list(c,o,cl,5):gen_list(c,o,cl,5); break;
    default: if (c.chance(1,4)) s.insert(c.below(s.size()+1),1,(char)c.below(256)); else { int q=(int)c.below(4); s.insert(c.below(s.size()+1),1,c.b()?opens[q]:closes[q]); }
  }
  check(c,s); c.nontrivial(s.size()>1 && s.front()==o && s.back()==cl);
}
